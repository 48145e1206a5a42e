"""P15: the same instance, options and seed give the same run.

Every function of the repository is one flow graph.  Inside the functions of
searches, domains and containers, values that differ between two runs (clocks,
process ids, the time-seeded generator, addresses turned into numbers) are
followed through local variables, fields, results and arguments; they may end
in what is printed about time, and nowhere else.  Next to that, an effect
analysis of what is stored in variables that outlive the objects, and of what
the programs that take a seed draw from."""
import os, re
import vf
import units
from vf import rel
from flow import *

CLOCK = re.compile(r'^(walltime|cputime)\(|^(time|clock|clock_gettime|gettimeofday|times|getrusage|getpid|getppid|random|drand48|lrand48|mrand48|rand_r|rdtsc)$|^llvm\.(readcyclecounter|x86\.rdtsc)|^std::chrono::\w*(clock|::_V2::\w+)::now|^std::random_device::|^std::chrono::_V2::\w+::now')
CRAND = re.compile(r'^(rand)$')
RANDM = re.compile(r'^Rand::(bits|integer|real)\(')
PRINT = re.compile(r'^(v?f?printf|puts|fputs|putc|fputc|putchar|fwrite|perror|fflush)$|^(dfpair|dfrow|dfrowhdr|fatal|fatalx|warn|warnx|dfprocstatus|dfheader|dffooter)\(')
SIZE = re.compile(r'::(size|empty|begin|end|cbegin|cend|rbegin|rend|capacity|clear|reserve|~\w+|operator(==|!=|\+\+|--|-|\+))\(|^__gnu_cxx::operator')
PTRKEY = re.compile(r'std::(less|greater|hash)<[^<>]*\*( const)?>')


def canon(n):
    """a function's name without template arguments"""
    if 'operator' in n:
        n = re.sub(r'operator(<<=?|<=?|>>=?|>=?|->\*?)(?=[(<])', lambda m: 'operator' + {'<': 'LT', '>': 'GT', '<=': 'LE', '>=': 'GE', '<<': 'SHL', '>>': 'SHR', '->': 'ARROW', '->*': 'ARROWSTAR', '<<=': 'SHLEQ', '>>=': 'SHREQ'}[m.group(1)], n)
    out, d = [], 0
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).strip()


DOMS = None


def domains():
    global DOMS
    if DOMS is None:
        d = set()
        for src, fns in units.calls():
            for f in fns:
                m = re.match(r'SearchAlgorithm<(\w+)>::', f['name'])
                if m:
                    d.add(m.group(1))
        DOMS = re.compile(r'\b(%s)\b' % '|'.join(sorted(d))) if d else re.compile(r'$^')
    return DOMS


def shared(n):
    """the name of a function that exists once for every domain"""
    return canon(domains().sub('D', n))


def tidy(n):
    return re.sub(r'\(.*', '', n).split(' ')[-1]


def gather():
    """one graph of every function of the repository"""
    bcs = dict(units.unit_bcs())
    seen, js = set(), []
    for src, fns in units.calls():
        if not bcs.get(src):
            continue
        L = []
        for f in fns:
            if not f['file'].startswith(vf.REPO):
                continue
            n = f['name']
            k = shared(n) if re.match(r'(search|structs)/', rel(f['file'])) else canon(n)
            if f.get('local') or k.split('(')[0] in ('main',) or '__cxx_global' in k or '_GLOBAL__' in k or '(' not in k:
                k = (k, src)
            else:
                k = (k, rel(f['file']))
            if k in seen:
                continue
            seen.add(k)
            L.append(n)
        for j in range(0, len(L), 400):
            js.append((src, bcs[src], L[j:j + 400]))

    def one(j):
        src, bc, L = j
        return [(src, f) for f in vf.graphs([bc], ['^' + re.escape(x) + '$' for x in L], '.')]
    out = []
    with vf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, js):
            out += r
    return out



# what weighs the time by design, and the search that breaks ties at random
BYDESIGN = re.compile(r'^(Bugsy|Dtastar|ArastarMon|ArastarNORA|Rtastar|RRT|Limit)\w*(<|::)|MaxTimeLimit|Cumtime|^geom2d::\w+::random\(')
HELD = re.compile(r'::(push_back|emplace_back|push_front|insert|emplace|assign|resize|operator=|operator\[\]|at|vector|pair|deque|back|front|value|str|operator<<)\(|::(vector|pair|deque|basic_string)\(')


class Local:
    """what one function does with values that differ between two runs"""

    def __init__(self, W, src, f):
        self.W, self.src, self.f = W, src, f
        self.D = {i['id']: i for b in f.blocks for i in b if 'id' in i}
        self.T = {}

    def place(self, v):
        for _ in range(30):
            if not isinstance(v, str):
                return None
            if v.startswith('@e:'):
                v = v[3:]
                continue
            if v.startswith('@g:'):
                return ('g', v[3:])
            i = self.D.get(v)
            if i is None:
                return None
            if i['op'] == 'gep':
                fl = [p for p in i['path'] if p[0] == 'f']
                if fl:
                    c = fl[-1]
                    return ('f', shared(c[1]), c[2]) if c[1] and not c[1].startswith(('std::', '__gnu')) else None
                v = i['base']
            elif i['op'] == 'cast':
                v = i['a']
            elif i['op'] == 'alloca':
                return ('s', v)
            else:
                return None
        return None

    def run(self):
        W, f, T = self.W, self.f, self.T
        k = W.key(f)
        for n in range(len(f.args)):
            if ('a', k, n) in W.hot:
                T['%' + str(n)] = W.hot[('a', k, n)]
        for b in f.blocks:
            for i in b:
                if i['op'] == 'load':
                    p = self.place(i['ptr'])
                    if p is not None and p in W.hot:
                        T[p] = W.hot[p]
        while True:
            n = len(T)
            for b in f.blocks:
                for i in b:
                    self.step(i)
            if len(T) == n:
                return self

    def got(self, v):
        return self.T.get(v) if isinstance(v, str) else None

    def put(self, v, why):
        if v is not None and why and v not in self.T:
            self.T[v] = why

    def step(self, i):
        T, W, op = self.T, self.W, i['op']
        if op == 'load':
            p = self.place(i['ptr'])
            self.put(i['id'], T.get(p) if p else None)
        elif op == 'store':
            w = self.got(i['val'])
            if w:
                p = self.place(i['ptr'])
                self.put(p, w)
                if p is not None and p[0] in 'fg':
                    W.heat(p, w)
        elif op in ('icmp', 'fcmp'):
            self.put(i['id'], self.got(i['a']) or self.got(i['b']))
        elif op == 'cast':
            self.put(i['id'], 'an address' if i['kind'] == 'ptrtoint' else self.got(i['a']))
        elif op == 'bin':
            w = [self.got(x) for x in i['ops']]
            if not (i['kind'] == 'sub' and w == ['an address'] * 2):
                self.put(i['id'], w[0] or w[1])
        elif op == 'phi':
            for b, x in i['in_']:
                self.put(i['id'], self.got(x))
        elif op == 'ret':
            if 'val' in i and self.got(i['val']):
                W.heat(('r', W.key(self.f)), self.got(i['val']))
        elif op == 'call':
            n, a, r = i['callee'], i['args'], i.get('id')
            if CLOCK.search(n):
                W.count += self.first(i)
                self.put(r, 'the clock or process (%s)' % n.split('(')[0])
                return
            if CRAND.search(n):
                W.count += self.first(i)
                self.put(r, 'rand()')
                return
            if RANDM.search(n):
                p = self.place(a[0])
                if p == ('g', 'randgen') or (p and p in T):
                    W.count += self.first(i)
                    self.put(r, 'the time-seeded generator')
                return
            if PRINT.search(n):
                return
            if n.startswith('Rand::Rand('):
                if len(a) > 1:
                    self.put(self.place(a[0]), self.got(a[1]))
                return
            h = [self.got(x) for x in a]
            g = W.find(n, self.src)
            if g is not None:
                for k, w in enumerate(h):
                    if w:
                        W.heat(('a', W.key(g), k), w)
                self.put(r, W.hot.get(('r', W.key(g))))
                return
            ps = [self.place(x) for x in a]
            h = [w or (T.get(p) if p and p[0] in 'sf' else None) for w, p in zip(h, ps)]
            if n.startswith('llvm.') or '(' not in n or SIZE.search(n):
                if n.startswith('llvm.mem') and len(a) > 1:
                    self.put(ps[0], h[1])
                elif r and not SIZE.search(n):
                    self.put(r, next((w for w in h if w), None))
                return
            w = next((w for w in h if w), None)
            if w:
                self.put(r, w)
                if ps[0] is not None and ps[0][0] in 'sf':
                    self.put(ps[0], w)
                    if ps[0][0] == 'f':
                        W.heat(ps[0], w)
        elif 'id' in i and op not in ('alloca', 'gep'):
            for x in i.get('ops', []):
                self.put(i['id'], self.got(x))

    def first(self, i):
        k = id(i)
        if k in self.W.seen:
            return 0
        self.W.seen.add(k)
        return 1


class World:
    def __init__(self, fs):
        self.fs = fs
        self.hot, self.seen, self.count = {}, set(), 0
        self.by = {}
        for s, f in fs:
            self.by.setdefault(self.name(f.dem, f.file), []).append((s, f))

    @staticmethod
    def name(n, file):
        return shared(n)

    def key(self, f):
        return shared(f.dem)

    def find(self, n, src):
        c = self.by.get(shared(n))
        if not c:
            return None
        return ([f for s, f in c if s == src] or [f for s, f in c])[0]

    def heat(self, k, w):
        if k not in self.hot:
            self.hot[k] = w
            self.dirty = True

    def solve(self, scope):
        self.L = [Local(self, s, f) for s, f in scope]
        self.dirty = True
        while self.dirty:
            self.dirty = False
            for l in self.L:
                l.run()
        return self


UTIL = re.compile(r'^(utils|rdb|graphics)/')
PLAIN = re.compile(r'::(h|d|hd|hash|eq|isgoal|nops|operator\(\)|operator\[\]|operator==|operator<)\(')


def depends(l, v, seen=(), to=None):
    """whether a value depends on anything but constants, and on what"""
    if not isinstance(v, str) or v in seen or len(seen) > 60:
        return None
    if v.startswith('@') or not v.startswith('%'):
        return None
    i = l.D.get(v)
    if i is None:
        return 'an argument'
    seen = seen + (v,)
    op = i['op']
    if op == 'load':
        p = l.place(i['ptr'])
        if p is None:
            j = l.D.get(i['ptr'])
            if j is not None and j['op'] == 'call':
                return next((w for w in (deep(l, x, seen) for x in j['args']) if w), None)
        if p is None or p[0] == 'f':
            return 'an object'
        if p[0] == 'g':
            return 'itself' if to is None or p == to else None
        for b in l.f.blocks:
            for j in b:
                if j['op'] == 'store' and l.place(j['ptr']) == p:
                    w = depends(l, j['val'], seen, to)
                    if w:
                        return w
        return None
    if op == 'call':
        for x in i['args']:
            w = depends(l, x, seen, to)
            if w:
                return w
        return None
    if op == 'phi':
        xs = [x for b, x in i['in_']]
    elif op in ('icmp', 'fcmp'):
        xs = [i['a'], i['b']]
    elif op == 'cast':
        xs = [i['a']]
    elif op in ('gep', 'alloca'):
        return None
    else:
        xs = i.get('ops', [])
    for x in xs:
        w = depends(l, x, seen, to)
        if w:
            return w
    return None


def root(l, v):
    """the argument a pointer was passed as, if the function does not move it"""
    for _ in range(12):
        if not isinstance(v, str) or not v.startswith('%'):
            return None
        i = l.D.get(v)
        if i is None:
            return v
        if i['op'] == 'cast':
            v = i['a']
        elif i['op'] == 'load':
            q = i['ptr']
            j = l.D.get(q)
            if j is not None and j['op'] == 'alloca':
                st = [k for b in l.f.blocks for k in b if k['op'] == 'store' and k['ptr'] == q]
                if len(st) != 1:
                    return None
                v = st[0]['val']
            elif j is not None and j['op'] == 'gep':
                v = j['base']
            else:
                v = q
        elif i['op'] == 'gep':
            v = i['base']
        else:
            return None
    return None


MUTATE = re.compile(r'::(push_back|emplace_back|push_front|insert|emplace|assign|resize|clear|erase|pop_back|operator=)\(')


def ctor(n):
    m = re.match(r'^([\w:]+)::(\w+)\(', canon(n))
    return bool(m) and m.group(1).split('::')[-1] == m.group(2)


def effects(c, l):
    """stores to variables that outlive the objects"""
    f = l.f
    for b in f.blocks:
        for i in b:
            if i['op'] == 'store':
                p, vals = l.place(i['ptr']), [i['val']]
            elif i['op'] == 'call' and len(i['args']) > 1 and (i['callee'].startswith('llvm.mem') or ctor(i['callee'])):
                p = base(l, i['args'][0])
                p, vals = (p and ('g', p)), i['args'][1:]
            elif i['op'] == 'call' and i['args'] and MUTATE.search(i['callee']) and i['callee'].startswith(('std::', 'boost::')):
                p, vals = l.place(i['args'][0]), i['args'][1:]
            else:
                continue
            if p is None or p[0] != 'g' or p[1].startswith(('std::', 'guard variable', '_ZGV')):
                continue
            why = next((w for w in (depends(l, v, (), p) for v in vals) if w), None)
            if why is None and i['op'] == 'call':
                why = next((w for w in (deep(l, v) for v in vals) if w), None)
            c.decide(why is None, 'kept', '%s:%s' % (tidy(f.dem), p[1]), i.get('loc', f.file),
                     'stores a value that depends on %s in the variable %s, which outlives the objects and is seen by every later search' % (why, p[1]),
                     sample='%s stores in %s' % (tidy(f.dem), p[1]))


def deep(l, v, seen=()):
    """what is behind a reference given to a container"""
    p = l.place(v)
    if p is None:
        return depends(l, v, seen)
    if p[0] == 'f':
        return 'an object'
    if p[0] == 's':
        for b in l.f.blocks:
            for j in b:
                if j['op'] == 'store' and l.place(j['ptr']) == p:
                    w = depends(l, j['val'], seen)
                    if w:
                        return w
    return None


def scoped(f, mains):
    if f.file in mains or '__cxx_global' in f.dem or '_GLOBAL__' in f.dem:
        return False
    return not re.match(r'utils/(time|datafile|mem|bench_ops|rand|geom2d)\.', rel(f.file))


TAKES = re.compile(r'^s:(-seed$|[Uu]sage.*\bseed|.*<seed)', re.S)


def seeds(c, fs, W0, mains):
    """programs that take a seed draw from nothing else"""
    progs = 0
    for src in sorted(mains):
        own = [(s, f) for s, f in fs if s == src and (f.file == src)]
        W = World(fs)
        W.solve(own + [])
        given, drawn, reseed = None, [], False
        for l in W.L:
            T = l.T
            for b in l.f.blocks:
                for i in b:
                    if i['op'] == 'bin':
                        l.mix = getattr(l, 'mix', [])
                        o = [x for x in i['ops'] if isinstance(x, str) and x.startswith('%')]
                        w = [clocked(l, x) for x in i['ops']]
                        if len(o) == 2 and any(w) and not all(w):
                            l.mix.append(i)
                    if i['op'] == 'store' and base(l, i['ptr']) == 'randgen':
                        reseed = True
                    if i['op'] != 'call':
                        continue
                    n, a = i['callee'], i['args']
                    if n.startswith('Rand::operator=') and l.place(a[0]) == ('g', 'randgen'):
                        reseed = True
                    if n.startswith('llvm.mem') and l.place(a[0]) == ('g', 'randgen'):
                        reseed = True
                    if n in ('srand', 'srandom') or n.startswith('Rand::Rand(') and len(a) > 1 and 'unsigned long' in n:
                        x = a[0] if n.startswith('s') else a[1]
                        given = given or (n, l, i)
                        if '__cxx_global' in l.f.dem:
                            continue
                        c.decide(not only(l, x), 'seed', '%s:%s:fixed' % (rel(src), tidy(n)), i.get('loc', l.f.file),
                                 'a generator that the program seeds starts from %s alone' % only(l, x),
                                 sample='%s: the seed given to %s' % (rel(src), tidy(n)))
                    if RANDM.search(n) and l.place(a[0]) == ('g', 'randgen'):
                        drawn.append((n, l, i))
                    if CRAND.search(n):
                        drawn.append((n, l, i))
        hasseed = given is not None or any(isinstance(x, str) and TAKES.search(x) for l in W.L for b in l.f.blocks for i in b if i['op'] == 'call' for x in i['args'])
        if not hasseed:
            continue
        progs += 1
        srands = any(i['op'] == 'call' and i['callee'] in ('srand', 'srandom') for l in W.L for b in l.f.blocks for i in b)
        for n, l, i in drawn:
            good = srands if CRAND.search(n) else reseed
            c.decide(good, 'seed', '%s:%s' % (rel(src), tidy(n)), i.get('loc', l.f.file),
                     'draws from %s, which the seed given to the program does not set' % ('rand()' if CRAND.search(n) else 'the time-seeded generator'),
                     sample='%s: a draw from %s' % (rel(src), tidy(n)))
        for l in W.L:
            for i in getattr(l, 'mix', []):
                c.fail('seed', '%s:%s:mixed' % (rel(src), tidy(l.f.dem)), i.get('loc', l.f.file),
                       'the clock is mixed into a value of a program that takes a seed')
    c.count('programs that take a seed', progs)


def base(l, v):
    """the global variable an address lies in"""
    for _ in range(20):
        if not isinstance(v, str):
            return None
        if v.startswith('@e:'):
            v = v[3:]
        elif v.startswith('@g:'):
            return v[3:]
        else:
            i = l.D.get(v)
            if i is None or i['op'] not in ('gep', 'cast'):
                return None
            v = i['base'] if i['op'] == 'gep' else i['a']
    return None


def clocked(l, v, depth=0):
    """whether a value comes from a clock read in this function"""
    i = l.D.get(v) if isinstance(v, str) else None
    if i is None or depth > 12:
        return False
    if i['op'] == 'call':
        return bool(CLOCK.search(i['callee']))
    if i['op'] == 'cast':
        return clocked(l, i['a'], depth + 1)
    if i['op'] == 'bin':
        return any(clocked(l, x, depth + 1) for x in i['ops'])
    if i['op'] == 'load':
        p = l.place(i['ptr'])
        return bool(p) and p[0] == 's' and any(clocked(l, k['val'], depth + 1) for b in l.f.blocks for k in b if k['op'] == 'store' and l.place(k['ptr']) == p)
    return False


def harmless(l, br):
    """a branch that only chooses what is printed or kept in a local variable about time"""
    bl = l.f.blocks
    at = next(k for k, b in enumerate(bl) if any(i is br for i in b))
    pd = postdoms(bl)
    stop = pd[at]
    todo, seen = list(succs(bl[at])), set()
    while todo:
        k = todo.pop()
        if k == stop or k in seen:
            continue
        seen.add(k)
        for i in bl[k]:
            if i['op'] == 'call' and not (PRINT.search(i['callee']) or CLOCK.search(i['callee']) or i['callee'].startswith('llvm.')):
                return False
            if i['op'] == 'store' or i['op'] == 'ret':
                return False
        todo += succs(bl[k])
    if stop is not None:
        for i in bl[stop]:
            if i['op'] == 'phi' and any(not (l.got(x) or not str(x).startswith('%')) for b, x in i['in_']):
                return False
            if i['op'] == 'phi' and not any(l.got(x) for b, x in i['in_']):
                return False
    return True


def succs(b):
    t = b[-1]
    return [int(x) for x in t.get('succ', [])] if t['op'] in ('br', 'switch') else []


def postdoms(bl):
    n = len(bl)
    every = set(range(n)) | {n}
    S = {k: succs(bl[k]) or [n] for k in range(n)}
    P = {k: set(every) for k in range(n)}
    P[n] = {n}
    ch = True
    while ch:
        ch = False
        for k in range(n - 1, -1, -1):
            x = set.intersection(*[P[s] for s in S[k]]) | {k}
            if x != P[k]:
                P[k] = x
                ch = True
    out = {}
    for k in range(n):
        q = P[k] - {k}
        out[k] = next((x for x in q if x != n and all(x in P[k] and (y in P[x]) for y in q)), None)
    return out


def only(l, v, depth=0):
    """the source, if a value comes from the clock and nothing else"""
    if not isinstance(v, str) or depth > 12:
        return None
    i = l.D.get(v)
    if i is None:
        return None
    if i['op'] == 'call':
        return l.got(v) if CLOCK.search(i['callee']) or CRAND.search(i['callee']) else None
    if i['op'] == 'cast':
        return only(l, i['a'], depth + 1)
    if i['op'] == 'bin':
        x = [only(l, o, depth + 1) for o in i['ops']]
        k = [not (isinstance(o, str) and o.startswith('%')) for o in i['ops']]
        return (x[0] or x[1]) if all(a or b for a, b in zip(x, k)) else None
    if i['op'] == 'load':
        p = l.place(i['ptr'])
        if p is None or p[0] != 's':
            return None
        st = [only(l, k['val'], depth + 1) for b in l.f.blocks for k in b if k['op'] == 'store' and l.place(k['ptr']) == p]
        return st[0] if st and all(st) else None
    return None


def P15(pid, tier):
    c = vf.Check(pid, tier,
        'Value-flow over the flow graphs of all functions: values from clocks, process ids, the time-seeded generator and addresses are followed through locals, fields, results and arguments of searches, domains and containers (those that weigh time or break ties at random by design are left out) and must not reach a branch, a heuristic, hash or equality, or a variable that outlives its object; '
        'effect analysis: no function stores what depends on its arguments or object in such a variable; containers ordered or hashed by address are not walked; programs that take a seed draw from nothing else',
        ['what the standard library is given comes back in its result or stays in the container it is called on',
         'what is reached through a pointer to another object\'s memory is followed by field, not by object',
         'a variable filled with constants once is not state'],
        'taint and effect dataflow')
    fs = gather()
    mains = {s for s, f in fs if f.dem.split('(')[0] == 'main'}
    scope = [(s, f) for s, f in fs if scoped(f, mains)]
    free = [(s, f) for s, f in scope if not BYDESIGN.search(f.dem)]
    W = World(fs).solve(free)
    for l in W.L:
        f = l.f
        n = 0
        for b in f.blocks:
            for i in b:
                if i['op'] in ('br', 'switch') and 'cond' in i:
                    n += 1
                    w = l.got(i['cond'])
                    if w and not harmless(l, i):
                        c.fail('decides', '%s:branch' % shared(tidy(f.dem)), i.get('loc', f.file), 'a decision depends on %s' % w)
                if i['op'] == 'icmp' and i.get('oty') == 'ptr' and i['pred'] not in ('eq', 'ne') and not UTIL.match(rel(f.file)):
                    x, y = root(l, i['a']), root(l, i['b'])
                    if x and y and x != y:
                        c.fail('order', '%s:address' % shared(tidy(f.dem)), i.get('loc', f.file), 'objects are ordered by where they lie in memory')
                if i['op'] == 'call':
                    k = i['callee']
                    if PTRKEY.search(k) and re.search(r'::(begin|top|push|pop)\(', k) or re.search(r'^(void )?std::(__)?sort<__gnu_cxx::__normal_iterator<[^<>]*\*\*,[^()]*>>\(__gnu_cxx::__normal_iterator<[^()]*\)$', k) and k.count('__normal_iterator') == 3:
                        c.fail('order', '%s:container' % shared(tidy(f.dem)), i.get('loc', f.file), 'walks a container that is ordered by where objects lie in memory: ' + k[:80])
                    if CLOCK.search(k) or CRAND.search(k) or RANDM.search(k):
                        c.ok('source', 1, '%s called in %s' % (k.split('(')[0], tidy(f.dem)))
                    if k.startswith('Rand::Rand(') and len(i['args']) > 1:
                        c.decide(not only(l, i['args'][1]), 'source', '%s:seeded' % shared(tidy(f.dem)), i.get('loc', f.file),
                                 'a generator is seeded by %s: what is drawn differs from run to run' % only(l, i['args'][1]))
        c.ok('decides', n, shared(tidy(f.dem)))
    for k, w in W.hot.items():
        if k[0] == 'g':
            c.fail('kept', 'global:' + k[1], '', 'the variable %s depends on %s' % (k[1], w))
        if k[0] == 'r' and PLAIN.search(k[1]):
            c.fail('decides', 'result:' + k[1].split('(')[0], '', '%s depends on %s' % (k[1], w))
    for s, f in scope:
        if BYDESIGN.match(f.dem) and f.dem.startswith('Limit'):
            continue
        effects(c, Local(W, s, f))
    seeds(c, fs, W, mains)
    c.count('functions', len(fs))
    c.count('functions of searches, domains and containers', len(scope))
    c.count('fields that hold times', sum(1 for k in W.hot if k[0] == 'f'))
    c.atleast('decides', 1000)
    c.atleast('source', 5)
    c.atleast('kept', 3)
    c.atleast('seed', 3)
    return c.finish()

"""P13: settings and bookkeeping have a value before they are read, and a
reset gives back the values a new search starts from.

The object a member function works on is cut into byte cells (offsets from
the object).  A forward must-write dataflow over the inlined flow graph says
which cells a function reads before it has certainly written them, and which
it has certainly written when it returns.  Where a cell is only written under
a flag, the flow is repeated with the values of the flags kept apart."""
import os, re
import vf
from vf import AnalysisError, rel
from flow import *
import srch

SIZES = {'ptr': 8, 'double': 8, 'float': 4}


def tysize(t):
    m = re.match(r'i(\d+)$', t or '')
    if m:
        return max(1, int(m.group(1)) // 8)
    return SIZES.get(t, 8)


MARKS = r'''
^ClosedList<.*>::\w+\(
^ClosedList<.*>::iterator::
^OpenList<.*>::\w+\(
^BinHeap<.*>::\w+\(
^Pool<.*>::
^(Htable|Kdtree|Intpq)<.*>::
^Rdb
^void solpath<
^(dfpair|dfrow|dfrowhdr|fatal|fatalx)\(
'''

# opaque calls that only look at the object they are given
LOOK = re.compile(r'\) const$|^(strcmp|strlen|printf|fprintf|dfpair|puts|operator delete|void solpath)\b')
CONT = re.compile(r'^(?:[\w:<>,&* ]+ )?(?:ClosedList|OpenList|BinHeap|Htable|Kdtree|Intpq|std::(?:vector|set|map|deque|list|unordered_map|unordered_set|__cxx11::(?:basic_string|list)|basic_string))<')
EMPTIES = re.compile(r'::(clear|operator=|assign|swap|erase|vector|set|map|deque|list|basic_string|~?(?:ClosedList|OpenList|BinHeap|Htable|Kdtree|Intpq)|unordered_map|unordered_set)$')
LOOKS = re.compile(r'::(begin|end|rbegin|rend|size|empty|find|at|front|back|data|operator\[\]|capacity|count|mem|getFill|prstats|init|reserve|kind|operator!=|operator==|c_str|~\w+|resize)$')


class Obj:
    """byte cells of the object the first argument points to, in one flow graph"""

    def __init__(self, fn):
        self.fn = fn
        self.defs = {}
        for i in fn.instrs():
            if 'id' in i:
                self.defs[i['id']] = i
        self.memo = {}
        self.names = {}

    def cell(self, v):
        """(offset, is the index variable?) relative to the object, or None"""
        if v == '%0':
            return (0, False)
        if v in self.memo:
            return self.memo[v]
        r = None
        i = self.defs.get(v)
        if i is not None and i['op'] == 'gep':
            b = self.cell(i['base'])
            if b is not None and i.get('off') is not None:
                r = (b[0] + i['off'], b[1] or bool(i.get('vars')))
                self.names[v] = self.names.get(i['base'], '') + ''.join('.' + p[2] if p[0] == 'f' else '[]' for p in i['path'])
        elif i is not None and i['op'] == 'cast' and i.get('kind') in ('bitcast', 'freeze'):
            r = self.cell(i['a'])
            self.names[v] = self.names.get(i['a'], '')
        self.memo[v] = r
        return r

    def name(self, v):
        self.cell(v)
        n = self.names.get(v, '').lstrip('.')
        return n.split('[]')[0]


class Flow:
    """reads before a definite write, and definite writes at the exits"""

    def __init__(self, fn, summ):
        self.fn, self.o, self.summ = fn, Obj(fn), summ
        self.reads, self.wr, self.where, self.exit = {}, {}, {}, set()
        self.prepare()

    def prepare(self):
        self.edges = {}
        self.some = set()    # arrays read at a running index
        fn = self.fn
        self.eff = [[self.effects(i) for i in b] for b in fn.blocks]
        # a loop that fills an array by a running index is taken to fill all of it
        self.loopgen = {}
        for h, l in fn.loops.items():
            for k in l['set']:
                ws = [x for r, w in self.eff[k] for x in w if x[3]]
                if ws and self.each(h, l['set'], k):
                    self.loopgen.setdefault(h, []).extend(ws)

    def effects(self, i):
        """(reads [(off, name)], writes [(off, size, name, whole array?, value)]) of one instruction"""
        o = self.o
        if i['op'] == 'load':
            c = o.cell(i['ptr'])
            if c is not None:
                if c[1]:
                    self.some.add(c[0])
                return [(c[0], o.name(i['ptr']))], []
        elif i['op'] == 'store':
            c = o.cell(i['ptr'])
            if c is not None:
                return [], [(c[0], tysize(i.get('vty')), o.name(i['ptr']), c[1], i['val'])]
        elif i['op'] in ('call', 'invoke'):
            name = i['callee']
            if name.startswith('llvm.mem'):
                n = i['args'][2]
                c = o.cell(i['args'][0])
                if c is not None:
                    n = int(n[2:]) if n.startswith('i:') else None
                    return [], [(c[0], n or 1, o.name(i['args'][0]), n is None, None)]
                return [], []
            if name.startswith('llvm.'):
                return [], []
            s = self.summ.get(name)
            r, w = [], []
            for k, a in enumerate(i['args']):
                c = o.cell(a)
                if c is None:
                    continue
                nm = o.name(a)
                if s is not None and k == 0:
                    r += [(c[0] + x, n) for x, n in s.reads.items()]
                    w += [(c[0] + x, 1, '', False, None) for x in s.exit]
                elif k == 0 and CONT.match(name):
                    m = short(name)
                    if EMPTIES.search(m) or m.endswith('::resize') and i['args'][1:2] == ['i:0']:
                        w.append((c[0], 1, nm, False, 'i:0'))
                    elif not LOOKS.search(m):
                        r.append((c[0], nm))
                        w.append((c[0], 0, nm, False, None))
                elif not LOOK.search(name) and a != '%0' and not re.match(r'^Pool<|^void solpath', name):
                    w.append((c[0], 1, nm, c[1], None))
            return r, w
        return [], []

    def each(self, h, loop, k):
        """does every round of the loop come through the innermost loop around block k?"""
        inner = [x for x, l in self.fn.loops.items() if k in l['set'] and l['set'] < loop]
        via = set(inner) if inner else None
        if via is None:
            return True
        seen, todo = {h}, [h]
        while todo:
            for s in self.fn.succs(todo.pop()):
                if s == h:
                    return False
                if s in loop and s not in via and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True

    def covers(self, w, cells):
        x, s, nm, arr, _ = w
        out = [c for c in cells if x <= c < x + s]
        if arr and nm:
            out += [c for c in cells if cells[c] == nm]
        return out

    def run(self, cells):
        """cells: offset -> name of everything any function of the class reads"""
        fn = self.fn
        n = len(fn.blocks)
        gen = [[[c for x in w for c in self.covers(x, cells)] for r, w in b] for b in self.eff]
        head = {h: [c for x in w for c in self.covers(x, cells)] for h, w in self.loopgen.items()}
        IN = [None] * n
        IN[0] = frozenset()
        work = [0]
        while work:
            k = work.pop(0)
            cur = set(IN[k]) | set(head.get(k, ()))
            for j, i in enumerate(fn.blocks[k]):
                cur.update(gen[k][j])
                if i['op'] == 'call' and NORETURN.match(i['callee']):
                    break
            else:
                for n_, s in enumerate(fn.succs(k)):
                    got = cur | self.edge(k, n_, cells)
                    new = frozenset(got) if IN[s] is None else IN[s] & got
                    if new != IN[s]:
                        IN[s] = new
                        if s not in work:
                            work.append(s)
        self.reads, self.wr, self.where, self.exit = {}, {}, {}, None
        for k in range(n):
            if IN[k] is None:
                continue
            cur = set(IN[k]) | set(head.get(k, ()))
            for j, i in enumerate(fn.blocks[k]):
                for x, nm in self.eff[k][j][0]:
                    if x not in cur and x not in self.reads:
                        self.reads[x] = nm
                        self.where[x] = i.get('loc')
                cur.update(gen[k][j])
                for w in self.eff[k][j][1]:
                    for c in self.covers(w, cells) + ([w[0]] if w[1] == 0 else []):
                        self.wr.setdefault(c, []).append((w[4], i.get('loc')))
                if i['op'] == 'call' and NORETURN.match(i['callee']):
                    break
            else:
                if fn.blocks[k] and fn.blocks[k][-1]['op'] == 'ret':
                    self.exit = cur if self.exit is None else self.exit & cur
        if self.exit is None:
            self.exit = set(cells)
        return self

    def edge(self, k, n, cells):
        """containers that are known to be empty on the n-th way out of block k"""
        b = self.fn.blocks[k]
        if not b or b[-1]['op'] != 'br' or 'cond' not in b[-1]:
            return set()
        key = (k, n)
        if key not in self.edges:
            r, pol = None, True
            i = self.o.defs.get(b[-1]['cond'])
            for _ in range(6):
                if i is None:
                    break
                if i['op'] == 'call' and CONT.match(i['callee']) and re.search(r'::(empty|size)$', short(i['callee'])):
                    c = self.o.cell(i['args'][0])
                    if short(i['callee']).endswith('size'):
                        pol = not pol
                    r = c[0] if c else None
                    break
                if i['op'] == 'bin' and i['kind'] == 'xor':
                    pol = not pol
                    i = self.o.defs.get(i['ops'][0])
                elif i['op'] == 'icmp' and i['b'] == 'i:0' and i['pred'] in ('eq', 'ne', 'ugt', 'sgt'):
                    if i['pred'] == 'eq':
                        pol = not pol
                    i = self.o.defs.get(i['a'])
                elif i['op'] == 'cast':
                    i = self.o.defs.get(i['a'])
                else:
                    break
            self.edges[key] = {r} if r is not None and (n == 0) == pol else set()
        return self.edges[key]

    # ---- the same flow with the values of flags kept apart -----------------
    def cond(self, v, depth=0):
        """(flag cell, value of the flag when the condition is true)"""
        i = self.o.defs.get(v)
        if i is None or depth > 6:
            return None
        if i['op'] == 'load':
            c = self.o.cell(i['ptr'])
            return (c[0], 1) if c and not c[1] else None
        if i['op'] == 'cast':
            return self.cond(i['a'], depth + 1)
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne') and i['b'] in ('i:0', 'i:1'):
            r = self.cond(i['a'], depth + 1)
            if r is None:
                return None
            same = (i['pred'] == 'eq') == (i['b'] == 'i:1')
            return (r[0], r[1] if same else 1 - r[1])
        if i['op'] == 'bin' and i['kind'] == 'xor' and i['ops'][1] in ('i:1', 'i:-1'):
            r = self.cond(i['ops'][0], depth + 1)
            return (r[0], 1 - r[1]) if r else None
        return None

    def flags(self):
        s = set()
        for b in self.fn.blocks:
            if b and b[-1]['op'] == 'br' and 'cond' in b[-1]:
                c = self.cond(b[-1]['cond'])
                if c:
                    s.add(c[0])
        return s

    def esp(self, starts, cand, flags, cells):
        """starts: set of (unwritten cells, flag values); returns exit states and reads [(cell, loc)]"""
        fn = self.fn
        flags = sorted(flags)
        fi = {f: k for k, f in enumerate(flags)}
        head = {h: {c for x in w for c in self.covers(x, cells)} for h, w in self.loopgen.items()}
        IN = [set() for _ in fn.blocks]
        IN[0] |= starts
        work = [0]
        exits, bad = set(), {}
        while work:
            k = work.pop(0)
            outs = set()
            end = fn.blocks[k][-1] if fn.blocks[k] else {'op': ''}
            stop = False
            for un, fv in IN[k]:
                un, fv = set(un) - head.get(k, set()), list(fv)
                for j, i in enumerate(fn.blocks[k]):
                    for x, nm in self.eff[k][j][0]:
                        if x in un:
                            bad.setdefault(x, (nm, i.get('loc')))
                    for w in self.eff[k][j][1]:
                        cs = self.covers(w, cells)
                        un.difference_update(cs)
                        for c in cs:
                            if c in fi:
                                fv[fi[c]] = int(w[4][2:]) & 1 if isinstance(w[4], str) and re.match(r'i:-?\d+$', w[4]) else None
                    if i['op'] == 'call' and NORETURN.match(i['callee']):
                        stop = True
                        break
                if stop:
                    break
                outs.add((frozenset(un), tuple(fv)))
            if stop:
                continue
            if end['op'] == 'ret':
                exits |= outs
                continue
            edges = [(s, None) for s in fn.succs(k)]
            if end['op'] == 'br' and 'cond' in end:
                c = self.cond(end['cond'])
                if c and c[0] in fi:
                    edges = [(end['succ'][0], (fi[c[0]], c[1])), (end['succ'][1], (fi[c[0]], 1 - c[1]))]
            for s, lim in edges:
                new = set()
                for un, fv in outs:
                    if lim is not None:
                        if fv[lim[0]] is not None and fv[lim[0]] != lim[1]:
                            continue
                        fv = fv[:lim[0]] + (lim[1],) + fv[lim[0] + 1:]
                    new.add((un, fv))
                if not new <= IN[s]:
                    IN[s] |= new
                    if s not in work:
                        work.append(s)
            if sum(len(x) for x in IN) > 200000:
                return None, None
        return exits, bad


class Cls:
    """all flow graphs of one class: constructors and members by name"""

    def __init__(self, name):
        self.name, self.ctors, self.mem, self.bases = name, [], {}, []


def classes(fns):
    """class name -> Cls with solved flows"""
    flows = {}
    for f in fns:
        if f.dem not in flows:
            flows[f.dem] = None
            flows[f.dem] = Flow(f, {})
    out = {}
    for f in flows.values():
        f.summ = flows
        c, m = splitname(f.fn.dem)
        k = out.setdefault(c, Cls(c))
        base = stripsuffix(c).split('::')[-1]
        if m == base:
            k.ctors.append(f)
            for i in f.fn.instrs():
                if i['op'] == 'store' and i['ptr'] == '%0' and 'vtable for ' in str(i['val']):
                    b = str(i['val']).split('vtable for ')[1]
                    b = b[:b.rindex(',i:0,i:0')] if ',i:0,i:0' in b else b.split(',')[0]
                    if b != c and b not in k.bases:
                        k.bases.insert(0, b)
        else:
            k.mem.setdefault(m, []).append(f)
    for rnd in range(6):
        old = [(dict(f.reads), set(f.exit)) for f in flows.values()]
        for f in flows.values():
            f.prepare()
        own = {}
        for c, k in out.items():
            own[c] = {r[0]: f.o.names.get(v, '').lstrip('.').split('[]')[0] for f in k.ctors + [g for w in k.mem.values() for g in w]
                      for v, r in f.o.memo.items() if r is not None}
            own[c].update({x: nm for f in k.ctors + [g for v in k.mem.values() for g in v] for b in f.eff for r, w in b for x, nm in r})
        for c, k in out.items():
            k.cells = dict(own[c])
            for o, ko in out.items():
                if o in k.bases or c in ko.bases:
                    for x, nm in own[o].items():
                        k.cells.setdefault(x, nm)
            for f in k.ctors + [g for v in k.mem.values() for g in v]:
                f.run(k.cells)
        if old == [(dict(f.reads), set(f.exit)) for f in flows.values()]:
            break
    return out


def splitname(dem):
    """('Class<..>', 'member') of a demangled member function"""
    d, cut, end = 0, None, len(dem)
    i = 0
    while i < len(dem):
        ch = dem[i]
        if ch == '<' and not dem[:i].endswith('operator'):
            d += 1
        elif ch == '>' and not dem[:i].endswith('operator') and not dem[:i].endswith('-'):
            d -= 1
        elif d == 0 and ch == '(':
            end = i
            break
        elif d == 0 and dem.startswith('::', i):
            cut = i
            i += 1
        i += 1
    if cut is None:
        return '', dem[:end]
    return dem[:cut], dem[cut + 2:end]


def member(cl, k, name):
    """the function a call of `name` on an object of class k runs"""
    for c in [k.name] + k.bases:
        if c in cl and name in cl[c].mem:
            return cl[c].mem[name]
    return []


def given(o, cl, k, entries, after=()):
    """cells that an entry reads although some constructor leaves them unset;
    `after`: functions that always ran before"""
    for m in entries:
        for f in member(cl, k, m):
            for ct in k.ctors:
                done = set(ct.exit)
                for a in after:
                    if a != m:
                        for g in member(cl, k, a):
                            done |= g.exit
                # an array that is filled as far as it is used counts as filled
                miss = {x for x in f.reads if x not in done and not (x in f.some and x in ct.wr)}
                if miss:
                    miss = correlated(ct, f, miss, k.cells)
                for x in sorted(f.reads):
                    nm = f.reads[x]
                    what = '%s:%s:%s' % (stripsuffix(k.name), m, nm)
                    o.decide(x not in miss, 'given', what, miss.get(x) if isinstance(miss, dict) else None,
                             '%s of %s is read before anything has given it a value: %s does not set it on every path' % (nm, stripsuffix(k.name), 'the constructor'),
                             sample='%s of %s is set before %s reads it' % (nm, stripsuffix(k.name), m))


def correlated(ct, f, miss, cells):
    """drop the cells whose unset cases are excluded by the flags"""
    flags = f.flags() | ct.flags()
    wr = {x for x in flags if x in ct.wr and any(isinstance(v, str) and re.match(r'i:-?\d+$', v) for v, _ in ct.wr[x])}
    start = (frozenset(miss), tuple(None for _ in sorted(wr)))
    ex, _ = ct.esp({start}, miss, wr, cells)
    if ex is None:
        return {}
    ends = {s for s in ex if s[0]}
    if not ends:
        return {}
    _, bad = f.esp(ends, miss, wr, cells)
    if bad is None:
        return {}
    return {x: loc for x, (nm, loc) in bad.items()}


def value(f, x):
    """the one value a function leaves in a cell, as a constant or ('cell', offset)"""
    vs = f.wr.get(x, [])
    out = set()
    for v, loc in vs:
        if isinstance(v, str) and re.match(r'^(i:|f:|null)', v):
            out.add(v)
        elif isinstance(v, str) and v in f.o.defs and f.o.defs[v]['op'] == 'load':
            c = f.o.cell(f.o.defs[v]['ptr'])
            out.add(('cell', c[0]) if c else None)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def fresh(o, cl, k):
    search, reset = member(cl, k, 'search'), member(cl, k, 'reset')
    if not search or not reset or not k.ctors:
        return
    s, r = search[0], reset[0]
    alg = stripsuffix(k.name)
    keep = dict(s.reads)
    for out in member(cl, k, 'output'):
        keep.update({x: nm for x, nm in out.reads.items() if x in s.wr and x not in s.exit})
    if any(short(i['callee']).endswith('solpath') for i in s.fn.calls()):
        names = {w[2] for b in r.eff for _, ws in b for w in ws}
        for nm in ('res.path', 'res.ops'):
            o.decide(nm in names, 'fresh', '%s:%s' % (alg, nm), r.fn.file + ':%d' % r.fn.line,
                     'reset of %s keeps %s, the solution of the search before' % (alg, nm), sample='%s of %s is emptied by reset' % (nm, alg))
    for x in sorted(keep):
        nm = keep[x]
        start = {value(c, x) for c in k.ctors}
        ch = [(v, loc) for v, loc in s.wr.get(x, []) if start != {v} or v is None]
        if not ch:
            continue
        if not o.decide(x in r.exit, 'fresh', '%s:%s' % (alg, nm), ch[0][1],
                        'a search changes %s of %s and the next one reads it, but reset does not give it its first value back' % (nm, alg),
                        sample='%s of %s is given back by reset' % (nm, alg)):
            continue
        end = value(r, x)
        if end is not None and len(start) == 1:
            st = start.pop()
            if st is not None and not isinstance(end, tuple) and not isinstance(st, tuple):
                o.decide(same(st, end), 'same', '%s:%s' % (alg, nm), r.wr[x][0][1],
                         'reset gives %s of %s the value %s, a new search starts from %s' % (nm, alg, end, st),
                         sample='%s of %s starts from %s either way' % (nm, alg, st))


def counted(f, x):
    """does the function move the cell by a step, or change the container in it?"""
    for v, loc in f.wr.get(x, []):
        if v is None and x in f.reads:
            return loc
        d = f.o.defs.get(v) if isinstance(v, str) else None
        if d is not None and d['op'] == 'bin' and d['kind'] in ('add', 'sub') and str(d['ops'][1]).startswith('i:'):
            l = f.o.defs.get(d['ops'][0])
            if l is not None and l['op'] == 'load' and f.o.cell(l['ptr']) == (x, False):
                return loc
    return None


def emptied(o, k):
    """clear gives a container's counters and inner containers their first values back"""
    cls = stripsuffix(k.name)
    for clear in k.mem.get('clear', []):
        for x in sorted(k.cells):
            nm = k.cells[x]
            loc = None
            for m, fs in k.mem.items():
                for f in fs:
                    if m not in ('clear', 'resize') and loc is None:
                        loc = counted(f, x)
            if loc is None:
                continue
            start = {value(ct, x) for ct in k.ctors}
            end = value(clear, x)
            if o.decide(x in clear.exit, 'emptied', '%s:%s' % (cls, nm), loc, 'clear of %s leaves %s as it was' % (cls, nm),
                        sample='%s of %s is set back by clear' % (nm, cls)):
                if len(start) == 1 and isinstance(end, str):
                    st = start.pop()
                    if isinstance(st, str):
                        o.decide(same(st, end), 'emptied', '%s:%s' % (cls, nm), clear.wr[x][0][1], 'clear gives %s of %s the value %s, it started from %s' % (nm, cls, end, st))


def same(a, b):
    f = lambda v: 0.0 if v == 'null' else float(v.split(':', 1)[1])
    try:
        return f(a) == f(b)
    except ValueError:
        return a == b


# objects that are started before they are asked
STARTED = {'MaxTimeLimit': ['start'], 'ExpansionLimit': ['start'], 'ClosedList': ['init']}
# filled piece by piece, and only asked when not empty
FILLED = ('Comp',)
NOMARK = r'^(dfpair|dfrow|dfrowhdr|fatal|fatalx)\('


def algorithms():
    """classes of the search layer and their flow graphs"""
    bcs = [srch.algs_bc()] + [vf.bitcode(os.path.join(vf.REPO, 'search', x), []) for x in ('search.cc', 'anyprof/profile.cc')]
    fns = vf.graphs(bcs, [r'^\w+<VDomT<.*>::(search|output|reset)\(', r'^(\w+)<VDomT<.*>::\1\(int'], MARKS)
    return classes(closure(fns, bcs, MARKS))


def closure(fns, bcs, marks):
    have = {f.dem for f in fns}
    rx = [m for m in marks.split('\n') if m]
    todo = {c['callee'] for f in fns for c in f.calls() if c.get('defined') and not any(re.search(m, c['callee']) for m in rx) and c['callee'] not in have}
    if todo:
        fns = fns + vf.graphs(bcs, ['^' + re.escape(t) + '$' for t in sorted(todo)], marks)
    return fns


def usual(k, only=False):
    """the constructors that make an object from something: neither copies nor, where
    there are others, the one without arguments (whose objects are assigned to)"""
    q = re.escape(k.name)
    nd = [f for f in k.ctors if not re.search(r'\((%s const&|%s&&|%s&)\)$' % (q, q, q), f.fn.dem)]
    arg = [f for f in nd if len(f.fn.args) > 1]
    return arg or (nd if only else [])


def objects(o, fns, only=False):
    fns = [f for f in fns if f.args and f.args[0][0] == 'this']
    cl = classes(fns)
    n = 0
    for k in cl.values():
        k.ctors = usual(k, only)
        if not k.ctors or k.name.endswith('::iterator') or k.name in FILLED:
            continue
        n += 1
        st = STARTED.get(stripsuffix(k.name), [])
        given(o, cl, k, sorted(k.mem), st)
        if only:
            emptied(o, k)
        o.r.append(('use', k.name))
        if '<' in k.name:
            continue
        # what every constructor sets, for the fields that others read
        for x, nm in k.cells.items():
            if nm and '.' not in nm:
                for ct in k.ctors:
                    o.r.append(('tag', ('set', k.name, nm, x in ct.exit or (x in ct.wr and any(x in f.some for v in k.mem.values() for f in v)), vf.rel('%s:%d' % (ct.fn.file, ct.fn.line)))))
    for f in fns:
        defs = {i['id']: i for i in f.instrs() if 'id' in i}
        for i in f.instrs():
            if i['op'] == 'load':
                g = defs.get(i['ptr'])
                if g is not None and g['op'] == 'gep' and g['path'] and g['path'][-1][0] == 'f' and not (g['base'] == '%0' and len(g['path']) == 1):
                    o.r.append(('tag', ('get', g['path'][-1][1], g['path'][-1][2], '', '')))
    o.r = list(dict.fromkeys(o.r))
    return n


def containers(o):
    bc = vf.harness('structs.cc')
    return objects(o, vf.graphs(bc, [r'^(BinHeap|OpenList|ClosedList|Htable|Intpq|Kdtree|Pool)\b.*::'], NOMARK), True)


def jobs():
    """[(unit, linked bitcode, functions)]: every file with the library it is linked with"""
    import units
    ub = [(s, b) for s, b in units.unit_bcs() if b and os.path.basename(s) != 'watch.cc' and not os.path.relpath(s, vf.REPO).startswith('graphics/')]
    dirs, mains, names = {}, [], {}
    for s, b in ub:
        names[s] = [l.split('\t')[0][5:] for l in vf.listing(b) if l.startswith('def ') and '\t' + vf.REPO in l]
        d = os.path.relpath(os.path.dirname(s), vf.REPO)
        if any(re.match(r'main($|\()', x) for x in names[s]):
            mains.append((s, b, d))
        else:
            dirs.setdefault(d, []).append((s, b))
    lib = [b for d in ('utils', 'structs', 'rdb', 'search', 'search/anyprof') for s, b in dirs.get(d, [])]
    out = []
    for d, v in dirs.items():
        own = [b for s, b in v]
        out.append((d, own + [b for b in lib if b not in own], [n for s, b in v for n in names[s]]))
    for s, b, d in mains:
        own = [b] + [x for _, x in dirs.get(d, [])]
        out.append((os.path.relpath(s, vf.REPO), own + [x for x in lib if x not in own], names[s]))
    return out


def unit(j):
    what, bcs, names = j
    cs = set()
    for n in names:
        c, m = splitname(n)
        if c and m == stripsuffix(c).split('::')[-1] and '<' not in n.split('(')[0] and not c.startswith('geom2d::'):
            cs.add(c)
    o = srch.Out()
    if cs:
        ent = ['^' + re.escape(c) + r'::([~\w]+|operator.*)\(' for c in sorted(cs)]
        objects(o, vf.graphs(bcs, ent, NOMARK))
    return o.done()


def P13(pid, tier):
    c = vf.Check(pid, tier,
        'Definite-initialisation dataflow over inlined LLVM IR of constructors and members (byte cells of the object, flag values kept apart where a setting is only set under a flag): '
        'every cell a member reads before writing it is written on every path of every constructor that takes arguments; every cell a search changes and the next search (or the report) reads is written on every path of reset, with the constructor\'s constant where both are constants',
        ['calls into the standard library that are given a cell fill it (the results of scanning functions are not judged here)',
         'a loop that stores by a running index fills the array',
         'MaxTimeLimit, ExpansionLimit, ClosedList and the picture tracer are started or filled before they are asked',
         'value types that are made without arguments and assigned to are not judged'],
        'definite-initialisation dataflow')
    cl = algorithms()
    o = srch.Out()
    n = 0
    for k in cl.values():
        if not k.ctors or '<VDomT' not in k.name or 'search' not in k.mem:
            continue
        n += 1
        given(o, cl, k, ['search', 'reset'])
        given(o, cl, k, ['output'], ['search'])
        fresh(o, cl, k)
    c.count('search algorithm instances', n)
    c.count('container classes', containers(o))
    c.absorb(o.done())
    js = jobs()
    for r in vf.pmap(unit, js):
        c.absorb(r)
    gets = {t[1:3] for t in c.tags if t[0] == 'get'}
    for _, k, nm, isset, loc in sorted(t for t in c.tags if t[0] == 'set' and t[1:3] in gets):
        c.decide(isset, 'given', '%s:%s:%s' % (k, 'elsewhere', nm), os.path.join(vf.REPO, loc.split(':')[0]) + ':' + loc.split(':')[1],
                 'a constructor of %s does not give %s a value, which other code reads' % (k, nm), sample='%s of %s' % (nm, k))
    c.count('units and directories linked', len(js))
    c.count('classes built with arguments', len(c.uses))
    c.atleast('given', 400)
    c.atleast('fresh', 60)
    c.atleast('same', 20)
    return c.finish()

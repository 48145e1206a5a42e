"""Path-sensitive value-flow dataflow over the flow graphs dumped by irx.

Every function is explored over its acyclic paths with loops cut at their
headers: on entry to a loop everything the loop may change is forgotten, so
one walk from the header stands for every iteration.  Values are numbered
(equal expressions over equal inputs get the same number), memory is a map
from cells (root pointer + field path) to value numbers, and branch outcomes
are kept as orderings over pairs of values (a subset of <, =, >).  A path
whose orderings become empty is dropped.  No solver and no execution.
"""
import json, re, sys
from fractions import Fraction

sys.setrecursionlimit(100000)

# ---- interned values ----------------------------------------------------
_tab = {}
T = []


def mk(*t):
    i = _tab.get(t)
    if i is None:
        i = len(T)
        _tab[t] = i
        T.append(t)
    return i


NULL = mk('null')
TRUE = mk('c', 1)
FALSE = mk('c', 0)
UNDEF = mk('undef')


def const(n):
    return mk('c', n)


def is_const(v):
    return T[v][0] == 'c'


def show(v, depth=0):
    t = T[v]
    k = t[0]
    if depth > 6:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'c':
        return str(t[1])
    if k in ('null', 'undef'):
        return k
    if k == 'arg':
        return t[2] or 'arg%d' % t[1]
    if k == 'g':
        return s(t[1]) + ''.join(showpath(p, depth) for p in t[2])
    if k == 'ld':
        return '*' + s(t[1]) + ("'" * min(t[2], 3) if t[2] else '')
    if k == 'sum':
        return '(' + ' + '.join(('%s*' % c if c != 1 else '') + s(x) for x, c in t[1]) + (' + %s' % t[2] if t[2] else '') + ')'
    if k in ('call', 'pure'):
        return '%s(%s)' % (short(t[1]), ', '.join(s(x) for x in t[2]))
    if k == 'cmp':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'op':
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
    if k == 'cast':
        return '%s(%s)' % (t[1], s(t[2]))
    if k == 'not':
        return '!' + s(t[1])
    if k == 'alloca':
        return '&' + (t[2] or t[1])
    return str(t)


def showpath(p, depth=0):
    if p[0] == 'f':
        return '.' + p[2]
    if p[0] == 'i':
        return '[' + show(p[1], depth + 1) + ']'
    return '+%s' % (p[1],)


import functools


@functools.lru_cache(None)
def short(name):
    """callee without arguments and template arguments"""
    o, d = [], 0
    i = 0
    if name.startswith('operator') or '::operator' in name:
        m = re.match(r'(.*?operator(?:\(\)|\[\]|[^\s(]+))\(', name)
        if m:
            name = m.group(1)
            # keep the operator token, strip template args from the prefix
            pre, op = name.rsplit('operator', 1)
            return short(pre + 'X(')[:-1] + 'operator' + op if pre else name
    for ch in name:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            if ch == '(':
                break
            o.append(ch)
    r = ''.join(o)
    return r.split(' ')[-1] if ' ' in r else r


def fsum(parts, c0=0):
    """normalised linear sum of (value, coef)"""
    acc = {}
    c = c0
    for v, k in parts:
        t = T[v]
        if t[0] == 'c' and isinstance(t[1], (int, float, Fraction)):
            c += t[1] * k
        elif t[0] == 'sum':
            for x, kk in t[1]:
                acc[x] = acc.get(x, 0) + kk * k
            c += t[2] * k
        else:
            acc[v] = acc.get(v, 0) + k
    items = tuple(sorted((x, k) for x, k in acc.items() if k != 0))
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    return mk('sum', items, c)


def sub(a, b):
    return fsum([(a, 1), (b, -1)])


def gep(base, path):
    path = tuple(path)
    if not path:
        return base
    t = T[base]
    if t[0] == 'g':
        # adjacent pointer arithmetic and element zero
        return mk('g', t[1], t[2] + path)
    return mk('g', base, path)


def root(v):
    t = T[v]
    return t[1] if t[0] == 'g' else v


def path(v):
    t = T[v]
    return t[2] if t[0] == 'g' else ()


def lastfield(v):
    """name of the innermost named field of a cell, or None"""
    for p in reversed(path(v)):
        if p[0] == 'f':
            return (stripsuffix(p[1]), p[2])
    return None


_ss = {}


def stripsuffix(s):
    r = _ss.get(s)
    if r is None:
        o, d = [], 0
        for ch in s:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif d == 0:
                o.append(ch)
        r = _ss[s] = ''.join(o)
    return r


RELS = {'eq': '=', 'ne': '<>', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
FLIP = {'<': '>', '>': '<', '=': '='}


class Facts:
    __slots__ = ('rel', 'b')

    def __init__(self, rel=None, b=None):
        self.rel = rel or {}
        self.b = b or {}

    def copy(self):
        return Facts(dict(self.rel), dict(self.b))

    def relset(self, kind, a, b):
        """possible orderings of a against b"""
        if a == b:
            return frozenset('=')
        fl = a > b
        if fl:
            a, b = b, a
        r = self.rel.get((kind, a, b))
        if r is None:
            ta, tb = T[a], T[b]
            if ta[0] == 'c' and tb[0] == 'c' and not isinstance(ta[1], str) and not isinstance(tb[1], str):
                r = frozenset('<' if ta[1] < tb[1] else '>' if ta[1] > tb[1] else '=')
            else:
                r = frozenset('<=>')
                if (a == NULL and nonnull(b)) or (b == NULL and nonnull(a)):
                    r = frozenset('<>')
        return frozenset(FLIP[x] for x in r) if fl else r

    def restrict(self, kind, a, b, s):
        cur = self.relset(kind, a, b)
        new = cur & s
        if not new:
            return False
        if a == b:
            return True
        if new != cur:
            if a > b:
                self.rel[(kind, b, a)] = frozenset(FLIP[x] for x in new)
            else:
                self.rel[(kind, a, b)] = new
        return True


def nonnull(v):
    t = T[v]
    return t[0] in ('alloca', 'glob', 'fresh') or (t[0] == 'g' and (nonnull(t[1]) or any(p[0] == 'f' for p in t[2])))


def cmpval(pred, a, b, kind):
    """canonical comparison value: ('cmp', rels, a, b, kind) with a<b by number"""
    rels = frozenset(RELS[pred])
    if a == b:
        return TRUE if '=' in rels else FALSE
    ta, tb = T[a], T[b]
    if ta[0] == 'c' and tb[0] == 'c' and not isinstance(ta[1], str) and not isinstance(tb[1], str):
        r = '<' if ta[1] < tb[1] else '>' if ta[1] > tb[1] else '='
        return TRUE if r in rels else FALSE
    if a > b:
        a, b = b, a
        rels = frozenset(FLIP[x] for x in rels)
    return mk('cmp', ''.join(sorted(rels)), a, b, kind)


def notval(v):
    t = T[v]
    if t[0] == 'c':
        return FALSE if t[1] else TRUE
    if t[0] == 'not':
        return t[1]
    if t[0] == 'cmp':
        return mk('cmp', ''.join(sorted(frozenset('<=>') - frozenset(t[1]))), *t[2:])
    return mk('not', v)


class Fn:
    def __init__(self, d):
        self.d = d
        self.dem = d['dem']
        self.short = short(d['dem'])
        self.file = d['file']
        self.line = d['line']
        self.blocks = d['blocks']
        self.args = d['args']
        self.loops = {l['header']: l for l in d['loops']}
        for l in self.loops.values():
            l['set'] = set(l['blocks'])
        self.preds = {}
        for i, b in enumerate(self.blocks):
            for s in self.succs(i):
                self.preds.setdefault(s, []).append(i)

    def succs(self, i):
        t = self.blocks[i][-1] if self.blocks[i] else None
        if t is None:
            return []
        if t['op'] in ('br', 'invoke'):
            return t['succ']
        if t['op'] == 'switch':
            return [x[1] for x in t['cases']] + [t['default']]
        return []

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, rx=None):
        for i in self.instrs():
            if i['op'] == 'call' and (rx is None or re.search(rx, i['callee'])):
                yield i


def load(fname):
    return [Fn(d) for d in json.load(open(fname))]


NORETURN = re.compile(r'^(fatal|fatalx|exit|abort|_exit|__assert_fail|std::terminate|std::__throw_.*|__cxa_throw|__cxa_rethrow)\b')


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'loc', 'fn', 'ptr', 'val', 'old', 'ins', 'deref')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.name = self.args = self.res = self.loc = self.fn = self.ptr = self.val = self.old = self.ins = self.deref = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        if self.kind == 'call':
            return '%s: %s(%s)%s' % (self.loc, short(self.name), ', '.join(map(show, self.args)), ' -> ' + show(self.res) if self.res is not None else '')
        if self.kind == 'store':
            return '%s: %s := %s' % (self.loc, show(self.ptr), show(self.val))
        if self.kind == 'assume':
            return '%s: [%s]' % (self.loc, show(self.val))
        return '%s %s' % (self.kind, self.val)


class State:
    __slots__ = ('env', 'mem', 'facts', 'ev', 'epoch', 'dver', 'fresh', 'copies', 'active', 'objver', 'user')

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.epoch = self.epoch
        s.dver = self.dver
        s.fresh = self.fresh
        s.copies = self.copies
        s.active = self.active
        s.objver = dict(self.objver)
        s.user = dict(self.user) if self.user is not None else None
        return s


class TooMany(Exception):
    pass


class Effects:
    """what calls do.  Subclasses override for a family of functions."""

    # values depending only on the arguments and on the version of what they point to
    PURE = re.compile(r'\) const$')
    # arguments passed by reference whose pointed-to values are recorded with the event
    DEREF = re.compile(r'::(push_back|emplace_back)|std::make_pair')
    # pure and independent of the rest of the world
    LOCAL = re.compile(r'^$')
    # allocation-like: result is a fresh object
    FRESH = re.compile(r'^operator new|::construct\(')
    # fields (lastfield names) changed in arbitrary objects by these calls
    FIELDS = []
    # bumps the "world" version
    WORLD = re.compile(r'::Edge::~?Edge\(|::unpack\(')
    # touches nothing the analysis looks at
    INERT = re.compile(r'^llvm\.(lifetime|dbg|assume|donothing|stack)')

    def noreturn(self, ins):
        return bool(ins.get('noreturn')) or bool(NORETURN.match(short(ins['callee'])))


class Slice:
    """which branches matter to the seed instructions (control and data, flow-insensitive)"""

    def __init__(self, fn, seed):
        self.fn = fn
        self.seed, self._der = seed, None
        self.d = {i['id']: i for i in fn.instrs() if 'id' in i}
        n = len(fn.blocks)
        self.succ = [fn.succs(b) for b in range(n)]
        self.dead = self.abortblocks()
        self.ipdom = self.postdoms()
        branches = [b for b in range(n) if len(set(self.succ[b])) > 1 and b not in self.dead]
        regions = {}
        for b in branches:
            j = self.ipdom.get(b)
            if j is None or j == n:
                continue
            R, work, ok = set(), [s for s in self.succ[b] if s not in self.dead], True
            while work:
                x = work.pop()
                if x == j or x in R:
                    continue
                if x == b:
                    continue        # a loop around b that ends inside the region
                R.add(x)
                work += [s for s in self.succ[x] if s not in self.dead]
            R.discard(b)
            regions[b] = (j, R)
        self.regs, self.cells = set(), set()
        self.seedblocks = set(bi for bi, blk in enumerate(fn.blocks) if any(seed(i) for i in blk))
        for blk in fn.blocks:
            for i in blk:
                if seed(i):
                    for o in self.operands(i):
                        self.need(o)
        relevant = set(b for b in branches if b not in regions)
        for b in relevant:
            self.needbranch(b)
        changed = True
        while changed:
            changed = False
            for b, (j, R) in regions.items():
                if b in relevant:
                    continue
                if self.matters(b, j, R):
                    relevant.add(b)
                    self.needbranch(b)
                    changed = True
        self.skip = {}
        for b, (j, R) in regions.items():
            if b not in relevant:
                stores = [i for x in R for i in fn.blocks[x] if i['op'] == 'store']
                calls = [i for x in R for i in fn.blocks[x] if i['op'] == 'call']
                # when b heads or belongs to a loop inside the region, b's own effects repeat
                if any(b in self.succ[x] for x in R) or b in self.succ[b]:
                    stores += [i for i in fn.blocks[b] if i['op'] == 'store']
                    calls += [i for i in fn.blocks[b] if i['op'] == 'call']
                self.skip[b] = (j, R, stores, calls)

    def abortblocks(self):
        fn = self.fn
        dead = set()
        for b, blk in enumerate(fn.blocks):
            if blk and blk[-1]['op'] == 'unreachable':
                dead.add(b)
            elif any(i['op'] == 'call' and (i.get('noreturn') or NORETURN.match(short(i['callee']))) for i in blk):
                dead.add(b)
        ch = True
        while ch:
            ch = False
            for b in range(len(fn.blocks)):
                if b not in dead and self.succ[b] and all(s in dead for s in self.succ[b]):
                    dead.add(b)
                    ch = True
        return dead

    def postdoms(self):
        n = len(self.fn.blocks)
        EXIT = n
        succ = {b: [s for s in self.succ[b] if s not in self.dead] or [EXIT] for b in range(n) if b not in self.dead}
        # reverse post order on the reversed graph
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        order, seen = [], set()
        stack = [(EXIT, iter(pred.get(EXIT, [])))]
        seen.add(EXIT)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred.get(y, []))))
                    break
            else:
                order.append(x)
                stack.pop()
        num = {x: i for i, x in enumerate(order)}
        idom = {EXIT: EXIT}

        def inter(a, b):
            while a != b:
                while num[a] < num[b]:
                    a = idom[a]
                while num[b] < num[a]:
                    b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                if x == EXIT:
                    continue
                new = None
                for s in succ[x]:
                    if s in idom:
                        new = s if new is None else inter(new, s)
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    ch = True
        idom.pop(EXIT)
        return idom

    def operands(self, i):
        op = i['op']
        if op == 'store':
            return [i['val'], i['ptr']]
        if op == 'load':
            return [i['ptr']]
        if op == 'call':
            return list(i['args'])
        if op == 'gep':
            return [i['base']] + [e[1] for e in i['path'] if e[0] == 'i']
        if op in ('icmp', 'fcmp'):
            return [i['a'], i['b']]
        if op == 'select':
            return [i['cond'], i['a'], i['b']]
        if op == 'phi':
            return [v for _, v in i['in_']]
        if op in ('cast', 'fneg'):
            return [i['a']]
        if op == 'ret':
            return [i['val']] if 'val' in i else []
        return list(i.get('ops', []))

    def cellof(self, ptr, leaf=()):
        r, p = ptr, list(leaf)
        n = 0
        while r in self.d and self.d[r]['op'] == 'gep' and n < 50:
            p = list(self.d[r]['path']) + p
            r = self.d[r]['base']
            n += 1
        if r in self.d and self.d[r]['op'] == 'alloca':
            return ('alloca', r)
        for e in reversed(p):
            if e[0] == 'f':
                return ('f', stripsuffix(e[1]), e[2])
        return ('raw',)

    def need(self, r, cond=False):
        work = [r]
        seen = set()
        while work:
            r = work.pop()
            if r in self.regs or r not in self.d or r in seen:
                continue
            i = self.d[r]
            if cond:
                # of a condition only what it reads matters, not which of several ways led to it
                seen.add(r)
                if i['op'] in ('phi', 'select', 'bin'):
                    if r not in self.derived() and not (i['op'] == 'phi' and i.get('ty') == 'i1'):
                        continue
                    self.regs.add(r)
            else:
                self.regs.add(r)
            if i['op'] == 'load':
                self.cells.add(self.cellof(i['ptr'], i.get('leaf', ())))
            elif i['op'] == 'alloca':
                self.cells.add(('alloca', r))
            elif i['op'] == 'call':
                for a in i['args']:
                    if a in self.d:
                        self.cells.add(self.cellof(a))
            work += self.operands(i)

    def derived(self):
        """boolean registers that pass on the answer of a seed"""
        if self._der is None:
            der = set(i['id'] for b in self.seedblocks for i in self.fn.blocks[b] if 'id' in i and i.get('ty') == 'i1' and i['op'] == 'call' and self.seed(i))
            first = set(der)
            ch = True
            while ch:
                ch = False
                for i in self.fn.instrs():
                    if i.get('id') not in der and i['op'] in ('phi', 'select', 'bin', 'cast') and i.get('ty') in ('i1', 'i8'):
                        if any(o in der for o in self.operands(i)):
                            der.add(i['id'])
                            ch = True
            self._der = der
        return self._der

    def needbranch(self, b):
        t = self.fn.blocks[b][-1]
        if 'cond' in t:
            self.need(t['cond'], True)

    def matters(self, b, j, R):
        fn = self.fn
        if self.seedblocks & R:
            return True
        blocks = list(R)
        if any(b in self.succ[x] for x in R):
            if b in self.seedblocks:
                return True
            blocks.append(b)
        for pi in fn.blocks[j]:
            if pi['op'] != 'phi':
                break
            if pi['id'] in self.regs:
                return True
        for x in blocks:
            for i in fn.blocks[x]:
                if i['op'] == 'store':
                    if self.cellof(i['ptr'], i.get('leaf', ())) in self.cells:
                        return True
                elif i['op'] == 'call' and not i['callee'].startswith('llvm.'):
                    for a, ty in zip(i['args'], i['aty']):
                        if ty == 'ptr' and a in self.d:
                            c = self.cellof(a)
                            if c != ('raw',) and c in self.cells:
                                return True
        return False


class Explorer:
    def __init__(self, fn, eff=None, maxpaths=20000, start=None, keep=None, argvals=None, target=None, seed=None):
        self.fn = fn
        # seed: predicate on instructions; regions that neither contain nor feed
        # a seed are stepped over, forgetting what they may change
        self.skip = Slice(fn, seed).skip if seed else {}
        # target: predicate on instructions; paths that have not met a target
        # instruction and no longer can are dropped (only the loop-cut graph counts)
        self.target = target
        self._reach = self.targetreach(target) if target else None
        self.eff = eff or Effects()
        self.maxpaths = maxpaths
        self.paths = []
        self.keep = keep
        self.start = start
        self.argvals = argvals or {}
        self._loopmods = {}
        self.npaths = 0
        self.pruned = 0

    def targetreach(self, target):
        fn = self.fn
        hit = set(b for b, blk in enumerate(fn.blocks) if any(target(i) for i in blk))
        self._hit = hit
        reach = set(hit)
        # forward edges only: an edge into a loop header from inside the loop is a back edge
        work = list(hit)
        while work:
            b = work.pop()
            for p in fn.preds.get(b, []):
                if b in fn.loops and p in fn.loops[b]['set']:
                    continue
                if p not in reach:
                    reach.add(p)
                    work.append(p)
        return reach

    # ---- evaluation
    def v(self, st, s):
        if s[0] == '%':
            r = st.env.get(s)
            if r is None:
                n = int(s[1:])
                if n < len(self.fn.args):
                    r = self.argvals.get(n)
                    if r is None:
                        r = mk('arg', n, self.fn.args[n][0])
                else:
                    r = mk('s', s)      # defined on a part of the graph not walked
                st.env[s] = r
            return r
        if s.startswith('i:'):
            return const(int(s[2:]))
        if s.startswith('d:'):
            try:
                f = float(s[2:])
                if f != f or f in (float('inf'), float('-inf')):
                    return mk('c', s)
                return const(Fraction(f) if f != int(f) else int(f))
            except ValueError:
                return mk('c', s)
        if s == 'null':
            return NULL
        if s == 'undef':
            return UNDEF
        if s.startswith('s:'):
            return mk('str', s[2:])
        if s.startswith('@'):
            return mk('glob', s)
        return mk('k', s)

    def pathelems(self, st, p):
        out = []
        for e in p:
            if e[0] == 'f':
                out.append(('f', e[1], e[2]))
            elif e[0] == 'i':
                out.append(('i', self.v(st, e[1]), e[2]))
            else:
                out.append(('b', e[1]))
        return out

    def cell(self, st, ins):
        p = self.v(st, ins['ptr'])
        if 'leaf' in ins:
            p = gep(p, self.pathelems(st, ins['leaf']))
        return p

    def loadcell(self, st, p):
        r = st.mem.get(p)
        if r is not None:
            return r
        # block copies
        pr, pp = root(p), path(p)
        for (dr, dp, snap, sr, sp) in reversed(st.copies):
            if dr == pr and pp[:len(dp)] == dp:
                src = gep(sr, sp + pp[len(dp):])
                r = snap.get(src)
                if r is None:
                    r = mk('ld', src, 0)
                st.mem[p] = r
                return r
        t = T[pr]
        r = mk('ld', p, st.objver.get(pr, 0) if pr in st.objver else 0)
        if t[0] == 'fresh' and pr not in st.objver:
            r = mk('uninit', p)
        st.mem[p] = r
        return r

    def mayalias(self, st, a, b):
        ra, rb = root(a), root(b)
        if ra == rb:
            pa, pb = path(a), path(b)
            n = min(len(pa), len(pb))
            for x, y in zip(pa[:n], pb[:n]):
                if x == y:
                    continue
                if x[0] == 'f' and y[0] == 'f':
                    return False
                if x[0] == 'i' and y[0] == 'i':
                    if is_const(x[1]) and is_const(y[1]):
                        return False
                    rs = st.facts.relset('i', x[1], y[1])
                    if '=' not in rs:
                        return False
                    continue
                if x[0] == 'b' and y[0] == 'b':
                    return False
                return True
            return True
        if self.private(st, ra) or self.private(st, rb):
            return False
        if '=' not in st.facts.relset('i', ra, rb):
            pass
        la, lb = lastfield(a), lastfield(b)
        return la == lb

    def private(self, st, r):
        t = T[r]
        return t[0] == 'alloca' or (t[0] == 'fresh' and r in st.fresh)

    def storecell(self, st, p, val):
        for q in [q for q in st.mem if q != p and self.mayalias(st, q, p)]:
            # exact prefix relations and possible aliases lose their value
            del st.mem[q]
            st.epoch += 1
            st.mem[q] = mk('ld', q, 1000 + st.epoch)
        st.mem[p] = val
        if T[val][0] in ('fresh',) and val in st.fresh and not self.private(st, root(p)):
            st.fresh = st.fresh - {val}

    def havoc_prefix(self, st, p):
        """forget everything stored under pointer p"""
        r, pp = root(p), path(p)
        if T[r][0] in ('c', 'null', 'undef', 'str'):
            return
        st.objver[r] = st.objver.get(r, 0) + 1
        for q in [q for q in st.mem if root(q) == r and (path(q)[:len(pp)] == pp or pp[:len(path(q))] == path(q))]:
            st.epoch += 1
            st.mem[q] = mk('ld', q, 1000 + st.epoch)
        if st.copies:
            st.copies = tuple(c for c in st.copies if not (c[0] == r))

    def havoc_field(self, st, f):
        for q in [q for q in st.mem if lastfield(q) == f or any(x[0] == 'f' and (stripsuffix(x[1]), x[2]) == f for x in path(q))]:
            st.epoch += 1
            st.mem[q] = mk('ld', q, 1000 + st.epoch)

    def havoc_all(self, st):
        for q in list(st.mem):
            if not self.private(st, root(q)):
                st.epoch += 1
                st.mem[q] = mk('ld', q, 1000 + st.epoch)
        st.dver += 1

    # ---- loops
    def loopmods(self, h):
        m = self._loopmods.get(h)
        if m is not None:
            return m
        L = self.fn.loops[h]
        stores, calls = [], []
        for b in L['blocks']:
            for i in self.fn.blocks[b]:
                if i['op'] == 'store':
                    stores.append(i)
                elif i['op'] == 'call':
                    calls.append(i)
        m = self._loopmods[h] = (stores, calls)
        return m

    def gepdefs(self):
        d = getattr(self, '_gd', None)
        if d is None:
            d = self._gd = {i['id']: i for i in self.fn.instrs() if 'id' in i}
        return d

    def staticroot(self, s):
        """(root register, field path names) of a pointer register, syntactically"""
        d = self.gepdefs()
        p = []
        n = 0
        while s in d and d[s]['op'] == 'gep' and n < 50:
            p = [e for e in d[s]['path']] + p
            s = d[s]['base']
            n += 1
        return s, p

    def enterloop(self, st, h):
        stores, calls = self.loopmods(h)
        self.forget(st, stores, calls)

    def forget(self, st, stores, calls):
        """lose what the given instructions may change"""
        fields = set()
        d = self.gepdefs()
        for i in stores:
            r, p = self.staticroot(i['ptr'])
            p = p + i.get('leaf', [])
            lf = None
            for e in reversed(p):
                if e[0] == 'f':
                    lf = (stripsuffix(e[1]), e[2])
                    break
            if r in d and d[r]['op'] == 'alloca':
                if r not in st.env:
                    continue
                pp = []
                for e in p:
                    if e[0] == 'f':
                        pp.append(('f', e[1], e[2]))
                    else:
                        break
                self.havoc_prefix(st, gep(st.env[r], pp))
            elif lf:
                fields.add(lf)
            else:
                # raw store
                for q in [q for q in st.mem if lastfield(q) is None and not self.private(st, root(q))]:
                    st.epoch += 1
                    st.mem[q] = mk('ld', q, 1000 + st.epoch)
        for f in fields:
            self.havoc_field(st, f)
        for c in calls:
            self.calleffects(st, c, None, inloop=True)

    # ---- calls
    def callargs(self, st, ins):
        return [self.v(st, a) for a in ins['args']]

    def calleffects(self, st, ins, args, inloop=False):
        eff = self.eff
        name = ins['callee']
        if eff.INERT.match(name) or name.startswith('llvm.mem'):
            if name.startswith('llvm.mem') and inloop:
                a0 = ins['args'][0]
                r, p = self.staticroot(a0)
                if r in st.env:
                    self.havoc_prefix(st, st.env[r])
            return
        if inloop:
            args = []
            for a in ins['args']:
                if a[0] == '%':
                    r, p = self.staticroot(a)
                    if r in st.env or int(r[1:]) < len(self.fn.args):
                        pp = []
                        for e in p:
                            if e[0] == 'f':
                                pp.append(('f', e[1], e[2]))
                            else:
                                break
                        args.append(gep(self.v(st, r), pp))
                    else:
                        args.append(None)
                else:
                    args.append(self.v(st, a))
        pure = bool(eff.PURE.search(name) or eff.LOCAL.search(name))
        if name == '<indirect>' and getattr(eff, 'INDIRECT_HAVOC', True):
            self.havoc_all(st)
            return
        if eff.WORLD.search(name):
            st.dver += 1
        if not pure:
            custom = eff.havoc(name, ins) if hasattr(eff, 'havoc') else None
            for k, (a, ty) in enumerate(zip(args, ins['aty'])):
                if ty != 'ptr' or a is None:
                    continue
                if custom is not None and k not in custom:
                    continue
                self.havoc_prefix(st, a)
        for rx, fields in eff.FIELDS:
            if re.search(rx, name):
                for f in fields:
                    for q in [q for q in st.mem if (lastfield(q) or (0, 0))[1] == f]:
                        st.epoch += 1
                        st.mem[q] = mk('ld', q, 1000 + st.epoch)

    def docall(self, st, ins):
        name = ins['callee']
        eff = self.eff
        if eff.INERT.match(name):
            return None
        args = self.callargs(st, ins)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            dst, src = args[0], args[1]
            snap = dict(st.mem)
            pre = st.copies
            self.havoc_prefix(st, dst)
            # carry over known source cells
            sr, sp = root(src), path(src)
            dr, dp = root(dst), path(dst)
            for q, val in snap.items():
                if root(q) == sr and path(q)[:len(sp)] == sp:
                    st.mem[gep(dst, path(q)[len(sp):])] = val
            st.copies = st.copies + ((dr, dp, snap, sr, sp),)
            # cells already forgotten at dst must be re-read through the copy
            for q in [q for q in st.mem if root(q) == dr and path(q)[:len(dp)] == dp]:
                srcq = gep(src, path(q)[len(dp):])
                st.mem[q] = snap.get(srcq, mk('ld', srcq, 0))
            return Event('call', name=name, args=args, res=None, loc=ins.get('loc'), fn=ins.get('in'), ins=ins)
        if name.startswith('llvm.memset'):
            self.havoc_prefix(st, args[0])
            return Event('call', name=name, args=args, res=None, loc=ins.get('loc'), fn=ins.get('in'), ins=ins)
        res = None
        if 'id' in ins:
            if name.startswith('llvm.fabs') or name.startswith('llvm.sqrt'):
                res = mk('op', name, tuple(args))
            elif eff.FRESH.search(name):
                res = mk('fresh', ins['id'], short(name))
                st.fresh = st.fresh | {res}
            elif eff.LOCAL.search(name):
                # reads only the objects it is handed
                vers = tuple(st.objver.get(root(a), 0) for a in args)
                res = mk('pure', name, tuple(args), vers, -1)
            elif eff.PURE.search(name):
                vers = tuple(st.objver.get(root(a), 0) for a in args)
                res = mk('pure', name, tuple(args), vers, st.dver)
            else:
                res = mk('call', name, tuple(args), ins['id'])
            st.env[ins['id']] = res
        ev = Event('call', name=name, args=args, res=res, loc=ins.get('loc'), fn=ins.get('in'), ins=ins)
        if eff.DEREF.search(name):
            ev.deref = [self.loadcell(st, a) if ty == 'ptr' and T[root(a)][0] not in ('c', 'null', 'undef', 'str') else None for a, ty in zip(args, ins['aty'])]
        pub = []
        if not eff.PURE.search(name) and not eff.LOCAL.search(name):
            for a in args:
                if a in st.fresh and (eff.publishes(name) if hasattr(eff, 'publishes') else False):
                    pub.append(a)
        if pub:
            st.fresh = st.fresh - set(pub)
        self.calleffects(st, ins, args)
        if hasattr(eff, 'after'):
            eff.after(self, st, ins, args, res)
        return ev

    # ---- expressions
    def compute(self, st, ins):
        op = ins['op']
        if op == 'bin':
            a, b = self.v(st, ins['ops'][0]), self.v(st, ins['ops'][1])
            k = ins['kind']
            ta, tb = T[a], T[b]
            num = lambda t: t[0] == 'c' and not isinstance(t[1], str)
            if k in ('add', 'fadd'):
                return fsum([(a, 1), (b, 1)])
            if k in ('sub', 'fsub'):
                return fsum([(a, 1), (b, -1)])
            if k in ('mul', 'fmul'):
                if num(ta):
                    return fsum([(b, ta[1])])
                if num(tb):
                    return fsum([(a, tb[1])])
                return mk('op', 'mul', tuple(sorted((a, b))))
            if k == 'shl' and num(tb):
                return fsum([(a, 2 ** tb[1])])
            if k == 'xor' and ins['ty'] == 'i1':
                if num(tb):
                    return notval(a) if tb[1] else a
                if num(ta):
                    return notval(b) if ta[1] else b
            if num(ta) and num(tb) and isinstance(ta[1], int) and isinstance(tb[1], int):
                x, y = ta[1], tb[1]
                if k == 'and':
                    return const(x & y)
                if k == 'or':
                    return const(x | y)
                if k == 'xor':
                    return const(x ^ y)
            if k in ('and', 'or', 'xor'):
                return mk('op', k, tuple(sorted((a, b))))
            return mk('op', k, (a, b))
        if op in ('icmp', 'fcmp'):
            a, b = self.v(st, ins['a']), self.v(st, ins['b'])
            p = ins['pred']
            kind = 'i'
            if op == 'icmp':
                if p in ('ult', 'ule', 'ugt', 'uge'):
                    p = p[1:]
                    # nothing unsigned is below zero
                    for x, y, q in ((a, b, p), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[p])):
                        if T[y] == ('c', 0):
                            if q in ('lt', 'ge'):
                                return FALSE if q == 'lt' else TRUE
                            return cmpval('ne' if q == 'gt' else 'eq', x, y, 'i')
                        if T[y] == ('c', 1) and q in ('lt', 'ge'):
                            return cmpval('eq' if q == 'lt' else 'ne', x, const(0), 'i')
                elif p[0] == 's':
                    p = p[1:]
            else:
                kind = 'f'
                if p in ('true', 'false', 'ord', 'uno'):
                    return mk('op', 'fcmp' + p, (a, b))
                p = p[1:]
            return cmpval(p, a, b, 'i')
        if op == 'other':
            k = ins.get('kind', '')
            if k == 'fneg':
                return fsum([(self.v(st, ins['ops'][0]), -1)])
            if k.startswith('extractvalue.'):
                w, a = k[len('extractvalue.'):], self.v(st, ins['ops'][0])
                while T[a][0] == 'op' and T[a][1].startswith('insertvalue.'):
                    j = T[a][1][len('insertvalue.'):]
                    if j == w:
                        return T[a][2][1]
                    if j.startswith(w + '.') or w.startswith(j + '.'):
                        break
                    a = T[a][2][0]
                return mk('op', k, (a,))
            return None
        if op == 'cast':
            a = self.v(st, ins['a'])
            k = ins['kind']
            if k in ('sext', 'zext', 'freeze', 'bitcast', 'fpext', 'addrspacecast'):
                if k == 'zext' and T[a] == ('c', -1):
                    return TRUE
                return a
            if k == 'trunc' and ins['ty'] == 'i1' :
                return a
            if k in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'trunc', 'fptrunc'):
                if T[a][0] == 'c' and isinstance(T[a][1], int):
                    return a
            return mk('cast', k, a)
        return None

    def counted(self):
        """conditions turned into numbers that are added to what a counter field of the statistics holds"""
        if getattr(self, '_counted', None) is None:
            fn, d, self._counted = self.fn, {}, set()
            for i in fn.instrs():
                if 'id' in i:
                    d[i['id']] = i
            for i in fn.instrs():
                if i['op'] != 'store':
                    continue
                g, v = d.get(i['ptr']), d.get(i['val'])
                if not g or g['op'] != 'gep' or not g['path'] or g['path'][-1][0] != 'f' or not str(g['path'][-1][1]).endswith('SearchStats'):
                    continue
                if v is not None and v['op'] == 'bin' and v['kind'] == 'add':
                    for o in v['ops']:
                        o = d.get(o)
                        while o is not None and o['op'] == 'cast' and o['kind'] in ('sext', 'zext') and d.get(o['a'], {}).get('op') == 'cast' and d[o['a']]['kind'] != 'trunc' and o.get('from') != 'i1':
                            o = d.get(o['a'])
                        if o is not None and o['op'] == 'cast' and o['kind'] == 'zext' and o.get('from') == 'i1':
                            self._counted.add(o['id'])
        return self._counted

    # ---- branch assumptions: list of states
    def assume(self, st, v, pol, loc=None):
        t = T[v]
        if t[0] == 'c':
            return [st] if bool(t[1] if not isinstance(t[1], str) else 1) == pol else []
        if t[0] == 'not':
            return self.assume(st, t[1], not pol, loc)
        if t[0] == 'cmp':
            rels = frozenset(t[1])
            if not pol:
                rels = frozenset('<=>') - rels
            # comparison of a boolean with zero
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if T[y] == ('c', 0) and isbool(x):
                    if T[x][0] in ('call', 'pure') and not st.facts.restrict(t[4], t[2], t[3], rels):
                        return []
                    if rels == frozenset('='):
                        return self.assume(st, x, False, loc)
                    if rels == frozenset('<>'):
                        return self.assume(st, x, True, loc)
            if not st.facts.restrict(t[4], t[2], t[3], rels):
                return []
            return [st]
        if t[0] == 'op' and t[1] in ('and', 'or') and all(isbool(x) for x in t[2]):
            a, b = t[2]
            conj = (t[1] == 'and') == pol
            if conj:
                out = []
                for s in self.assume(st, a, pol, loc):
                    out += self.assume(s, b, pol, loc)
                return out
            out = self.assume(st.fork(), a, pol, loc)
            for s in self.assume(st, a, not pol, loc):
                out += self.assume(s, b, pol, loc)
            return out
        cur = st.facts.b.get(v)
        if cur is not None:
            return [st] if cur == pol else []
        st.facts.b[v] = pol
        return [st]

    # ---- walking
    def initial(self):
        st = State()
        st.env, st.mem, st.facts, st.ev = {}, {}, Facts(), None
        st.epoch, st.dver, st.fresh, st.copies, st.active, st.objver, st.user = 0, 0, frozenset(), (), (), {}, {}
        return st

    def run(self, init=None):
        st = self.initial()
        if init:
            init(self, st)
        b = 0 if self.start is None else self.start
        work = [(b, None, st)]
        if self.start is not None and self.start in self.fn.loops:
            pass
        while work:
            b, prev, st = work.pop()
            self.block(b, prev, st, work)
        return self.paths

    def push(self, st, ev):
        if ev is None:
            return
        if self.keep is not None and not self.keep(ev):
            return
        st.ev = (st.ev, ev)

    def finish(self, st, kind, ins=None, val=None, where=None):
        evs = []
        e = st.ev
        while e is not None:
            evs.append(e[1])
            e = e[0]
        evs.reverse()
        self.npaths += 1
        if self.npaths > self.maxpaths:
            raise TooMany('%s: more than %d paths' % (self.fn.short, self.maxpaths))
        self.paths.append(Path(self, kind, evs, st, val, where, ins))

    def block(self, b, prev, st, work):
        fn = self.fn
        if self._reach is not None:
            if b in self._hit:
                st.user['hit'] = True
            elif not st.user.get('hit') and b not in self._reach:
                self.pruned += 1
                return
        if prev is not None or self.start == b:
            if b in fn.loops:
                if b in st.active:
                    joined = st.user.pop('join', None) if isinstance(prev, tuple) else None
                    bv = {}
                    for ins in fn.blocks[b]:
                        if ins['op'] != 'phi':
                            break
                        if joined is not None:
                            bv[ins['id']] = joined[ins['id']]
                        else:
                            for pb, val in ins['in_']:
                                if pb == prev:
                                    bv[ins['id']] = self.v(st, val)
                    st.user['back'] = bv
                    self.finish(st, 'back', where=b)
                    return
                if self.start is not None and b == self.start and prev is None:
                    pass
                st.active = st.active + (b,)
                entering = True
            else:
                entering = False
            # leaving loops
            st.active = tuple(h for h in st.active if b in fn.loops[h]['set'])
            if self.start is not None and prev is not None and self.start in fn.loops and b not in fn.loops[self.start]['set']:
                self.finish(st, 'exit', where=b)
                return
            # phis are evaluated together
            newv = {}
            joined = st.user.pop('join', None) if isinstance(prev, tuple) else None
            for ins in fn.blocks[b]:
                if ins['op'] != 'phi':
                    break
                if joined is not None and not entering:
                    newv[ins['id']] = joined[ins['id']]
                elif entering:
                    newv[ins['id']] = mk('phi', ins['id'], fn.short)
                else:
                    for pb, val in ins['in_']:
                        if pb == prev:
                            newv[ins['id']] = self.v(st, val)
                            break
                    else:
                        newv[ins['id']] = mk('phi', ins['id'], fn.short)
            if entering:
                self.enterloop(st, b)
                self.push(st, Event('loop', val=b, loc=fn.loops[b]['loc'], args=[(ins['id'], [self.v(st, v) for pb, v in ins['in_'] if pb == prev] if joined is None else [joined[ins['id']]]) for ins in fn.blocks[b] if ins['op'] == 'phi']))
            st.env.update(newv)
        self.body(b, 0, st, work)

    def body(self, b, k, st, work):
        fn = self.fn
        blk = fn.blocks[b]
        while k < len(blk):
            ins = blk[k]
            op = ins['op']
            if op == 'phi':
                k += 1
                continue
            if op == 'gep':
                st.env[ins['id']] = gep(self.v(st, ins['base']), self.pathelems(st, ins['path']))
            elif op == 'alloca':
                st.env[ins['id']] = mk('alloca', ins['id'], ins['nm'])
            elif op == 'load':
                p = self.cell(st, ins)
                val = self.loadcell(st, p)
                st.env[ins['id']] = val
                self.push(st, Event('load', ptr=p, val=val, loc=ins.get('loc'), fn=ins.get('in'), ins=ins))
            elif op == 'store':
                p = self.cell(st, ins)
                val = self.v(st, ins['val'])
                old = st.mem.get(p)
                if old is None:
                    old = self.loadcell(st, p)
                self.storecell(st, p, val)
                self.push(st, Event('store', ptr=p, val=val, old=old, loc=ins.get('loc'), fn=ins.get('in'), ins=ins))
            elif op == 'call':
                ev = self.docall(st, ins)
                self.push(st, ev)
                if self.eff.noreturn(ins):
                    self.finish(st, 'abort', ins)
                    return
            elif op == 'cast' and ins['id'] in self.counted():
                # a condition added to a counter: one more when it holds
                c = self.v(st, ins['a'])
                s2 = st.fork()
                for s in self.assume(s2, c, False, ins.get('loc')):
                    s.env[ins['id']] = const(0)
                    self.body(b, k + 1, s, work)
                sts = self.assume(st, c, True, ins.get('loc'))
                for s in sts[1:]:
                    s.env[ins['id']] = const(1)
                    self.body(b, k + 1, s, work)
                if not sts:
                    return
                st = sts[0]
                st.env[ins['id']] = const(1)
            elif op == 'select':
                c = self.v(st, ins['cond'])
                s2 = st.fork()
                for s in self.assume(s2, c, False, ins.get('loc')):
                    s.env[ins['id']] = self.v(s, ins['b'])
                    self.body(b, k + 1, s, work)
                sts = self.assume(st, c, True, ins.get('loc'))
                for s in sts[1:]:
                    s.env[ins['id']] = self.v(s, ins['a'])
                    self.body(b, k + 1, s, work)
                if not sts:
                    return
                st = sts[0]
                st.env[ins['id']] = self.v(st, ins['a'])
            elif b in self.skip and op in ('br', 'switch'):
                j, region, stores, calls = self.skip[b]
                self.forget(st, stores, calls)
                inc = {}
                for pi in fn.blocks[j]:
                    if pi['op'] != 'phi':
                        break
                    vals = set()
                    for pb, val in pi['in_']:
                        if pb == b:
                            vals.add(self.v(st, val))
                        elif pb in region:
                            vals.add(self.v(st, val) if val[0] != '%' or val in st.env or int(val[1:]) < len(fn.args) else None)
                    inc[pi['id']] = vals.pop() if len(vals) == 1 and None not in vals else mk('phi', pi['id'], fn.short, 'join')
                st.user['join'] = inc
                work.append((j, ('join', b), st))
                return
            elif op == 'br':
                if 'cond' not in ins:
                    work.append((ins['succ'][0], b, st))
                    return
                c = self.v(st, ins['cond'])
                s2 = st.fork()
                for pol, s0 in ((False, s2), (True, st)):
                    for s in self.assume(s0, c, pol, ins.get('loc')):
                        self.push(s, Event('assume', val=c if pol else notval(c), loc=ins.get('loc'), fn=ins.get('in')))
                        work.append((ins['succ'][0 if pol else 1], b, s))
                return
            elif op == 'switch':
                c = self.v(st, ins['cond'])
                for cv, tgt in ins['cases']:
                    s = st.fork()
                    q = cmpval('eq', c, self.v(st, cv), 'i')
                    for s1 in self.assume(s, q, True):
                        self.push(s1, Event('assume', val=q, loc=ins.get('loc'), fn=ins.get('in')))
                        work.append((tgt, b, s1))
                ss = [st]
                for cv, tgt in ins['cases']:
                    nx = []
                    for s in ss:
                        nx += self.assume(s, cmpval('eq', c, self.v(st, cv), 'i'), False)
                    ss = nx
                for s in ss:
                    work.append((ins['default'], b, s))
                return
            elif op == 'invoke':
                s2 = st.fork()
                self.push(s2, Event('unwind', loc=ins.get('loc')))
                work.append((ins['succ'][1], b, s2))
                work.append((ins['succ'][0], b, st))
                return
            elif op == 'ret':
                self.finish(st, 'ret', ins, self.v(st, ins['val']) if 'val' in ins else None)
                return
            elif op == 'unreachable':
                self.finish(st, 'abort', ins)
                return
            else:
                r = self.compute(st, ins)
                if 'id' in ins:
                    if r is None:
                        r = mk('s', ins['id']) if op != 'other' else mk('op', ins.get('kind', op), tuple(self.v(st, o) for o in ins.get('ops', []))) 
                    st.env[ins['id']] = r
            k += 1
        self.finish(st, 'fall')


def isbool(v):
    t = T[v]
    return t[0] in ('cmp', 'not') or (t[0] == 'c' and t[1] in (0, 1)) or (t[0] == 'op' and t[1] in ('and', 'or') and all(isbool(x) for x in t[2])) or (t[0] in ('pure', 'call') and True)


class Path:
    __slots__ = ('ex', 'kind', 'ev', 'st', 'ret', 'where', 'ins', '__dict__')

    def __init__(self, ex, kind, ev, st, ret, where, ins):
        self.ex, self.kind, self.ev, self.st, self.ret, self.where, self.ins = ex, kind, ev, st, ret, where, ins

    def calls(self, rx):
        r = re.compile(rx)
        return [e for e in self.ev if e.kind == 'call' and r.search(e.name)]

    def value(self, p):
        return self.ex.loadcell(self.st, p)

    def dump(self):
        return '\n'.join('  ' + repr(e) for e in self.ev if e.kind != 'load') + '\n  => %s %s' % (self.kind, show(self.ret) if self.ret is not None else '')

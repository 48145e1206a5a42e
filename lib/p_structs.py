"""P08: heaps and open lists keep order and positions."""
from srch import *
from vf import Check

INF = float('inf')


class StructEff(AlgEff):
    PURE = re.compile(r'^std::vector<.*>::(size|empty|operator\[\]|at|front|back|begin|end)\(')
    LOCAL = re.compile(r'^std::(min|max|fabs|abs)\b|^V(Open)Ops::(getind|prio|tieprio)|^boost::optional<.*>::(operator!|operator\*|get|operator bool|is_initialized)')
    FIELDS = []

    def havoc(self, name, ins):
        s = short(name)
        if s.endswith('Ops::setind'):
            return [0]
        if re.search(r'^V(Heap|Open|Closed|Htab|Pq)Ops::|^VKey', name):
            return []
        if s in ('std::vector::push_back', 'std::vector::emplace_back', 'std::vector::vector', 'std::vector::insert', 'std::vector::pop_back', 'std::vector::resize', 'std::vector::clear'):
            return [0]
        if s.startswith('boost::optional::'):
            return [0]
        return None


def sgraphs(entries, marks):
    return vf.graphs(vf.harness('structs.cc'), entries, marks, force=FORCE)


OPM = r'''
^V(Heap|Open|Closed|Htab|Pq)Ops::
^VKey
^Pool<
^dfpair
'''


class Sim:
    """vector contents, sizes and element positions along one path"""

    def __init__(self, p, nonneg=(), marks=None):
        self.p = p
        self.map = {}
        self.delta = {}
        self.base = {}
        self.cont = {}
        self.removed = []       # (event number, V, pos, tok)
        self.added = []
        self.idx = {}           # tok -> [(event number, value)]
        self.preds = []         # (res, a, b)
        self.ops = []           # other container operations, in order
        self.nonneg = set(nonneg)
        self.atmark = []
        for k, e in enumerate(p.ev):
            self.step(k, e, marks)

    def n(self, V):
        return mk('szn', V)

    def size(self, V):
        return fsum([(self.base.get(V, self.n(V)), 1)], self.delta.get(V, 0))

    def canon(self, v):
        if v is None:
            return None
        m = self.map.get(v)
        if m is not None:
            return m
        t = T[v]
        if t[0] == 'sum':
            return fsum([(self.canon(x), k) for x, k in t[1]], t[2])
        if t[0] == 'cast':
            return self.canon(t[2])
        if t[0] == 'op':
            a = tuple(self.canon(x) for x in t[2] if isinstance(x, int))
            if t[1] in ('sdiv', 'udiv') and len(a) == 2 and T[a[1]] == ('c', 2) or t[1] in ('lshr', 'ashr') and len(a) == 2 and T[a[1]] == ('c', 1):
                return mk('op', 'half', (a[0],))
            return mk('op', t[1], a) if len(a) == len(t[2]) else v
        if t[0] == 'g':
            b = self.canon(root(v))
            return gep(b, path(v)) if b != root(v) else v
        if t[0] in ('pure', 'call'):
            s = short(t[1])
            if s in ('std::vector::operator[]', 'std::vector::at'):
                return mk('at', self.canon(t[2][0]), self.canon(t[2][1]))
        return v

    def content(self, V, pos):
        for q, tok in reversed(self.cont.get(V, [])):
            if sub(q, pos) == const(0):
                return tok
        return mk('init', V, pos)

    def step(self, k, e, marks):
        if e.kind == 'load':
            a = self.canon(e.ptr)
            t = T[a]
            if t[0] == 'at':
                self.map[e.val] = self.content(t[1], t[2])
            return
        if e.kind == 'store':
            a = self.canon(e.ptr)
            t = T[a]
            if t[0] == 'at':
                self.cont.setdefault(t[1], []).append((t[2], self.canon(e.val)))
            return
        if e.kind != 'call':
            return
        s = short(e.name)
        if s.startswith('std::vector::') and e.args:
            V = self.canon(e.args[0])
            m = s.split('::')[-1]
            if m == 'size':
                self.map[e.res] = self.size(V)
            elif m == 'empty':
                self.map[e.res] = cmpval('eq', self.size(V), const(0), 'i')
            elif m in ('operator[]', 'at'):
                self.map[e.res] = mk('at', V, self.canon(e.args[1]))
            elif m == 'front':
                self.map[e.res] = mk('at', V, const(0))
            elif m == 'back':
                self.map[e.res] = mk('at', V, fsum([(self.size(V), 1)], -1))
            elif m in ('push_back', 'emplace_back'):
                tok = self.canon(e.deref[1]) if e.deref and len(e.deref) > 1 and e.deref[1] is not None else None
                pos = self.size(V)
                self.cont.setdefault(V, []).append((pos, tok))
                self.added.append((k, V, pos, tok))
                self.delta[V] = self.delta.get(V, 0) + 1
            elif m == 'pop_back':
                pos = fsum([(self.size(V), 1)], -1)
                self.removed.append((k, V, pos, self.content(V, pos)))
                self.cont[V] = [(q, x) for q, x in self.cont.get(V, []) if sub(q, pos) != const(0)]
                self.delta[V] = self.delta.get(V, 0) - 1
            elif m not in ('begin', 'end', 'cbegin', 'cend'):
                if m == 'resize':
                    self.base[V] = self.canon(e.args[1])
                    self.delta[V] = 0
                self.ops.append((k, m, V, [self.canon(x) for x in e.args[1:]]))
        elif s == 'std::swap' and len(e.args) == 2:
            a, b = self.canon(e.args[0]), self.canon(e.args[1])
            if T[a][0] == 'at' and T[b][0] == 'at':
                x, y = self.content(T[a][1], T[a][2]), self.content(T[b][1], T[b][2])
                self.cont.setdefault(T[a][1], []).append((T[a][2], y))
                self.cont.setdefault(T[b][1], []).append((T[b][2], x))
        elif s.endswith('::setind'):
            self.idx.setdefault(self.canon(e.args[0]), []).append((k, self.canon(e.args[1])))
        elif s.endswith('::pred'):
            self.preds.append((e.res, self.canon(e.args[0]), self.canon(e.args[1])))
        elif marks and marks.search(s):
            self.ops.append((k, s.split('::')[-1], None, [self.canon(x) for x in e.args]))
            self.atmark.append((k, {V: list(c) for V, c in self.cont.items()}, {t: list(x) for t, x in self.idx.items()}, dict(self.delta)))
            if s.split('::')[-1] in ('pushdown', 'pullup', 'push', 'update', 'pushupdate', 'reinit', 'append', 'pop', 'clear'):
                self.cont = {}
                self.idx = {}

    # numeric knowledge
    def facts(self):
        for (kd, a, b), s in self.p.st.facts.rel.items():
            yield self.canon(a), self.canon(b), s
        for v, b in self.p.st.facts.b.items():
            c = self.canon(v)
            t = T[c]
            if t[0] == 'cmp' and v in self.map:
                yield t[2], t[3], frozenset(t[1]) if b else frozenset('<=>') - frozenset(t[1])
            elif v in self.map:
                yield c, const(0), frozenset('<>') if b else frozenset('=')

    def rng(self, x, y):
        """integer interval of x - y"""
        D = sub(x, y)
        t = T[D]
        if t[0] == 'c':
            return t[1], t[1]
        lo, hi = -INF, INF
        parts, c = (t[1], t[2]) if t[0] == 'sum' else (((D, 1),), 0)
        if all(T[a][0] == 'szn' or a in self.nonneg for a, _ in parts):
            if all(k > 0 for _, k in parts):
                lo = c
            if all(k < 0 for _, k in parts):
                hi = c
        ne = set()
        for a, b, s in self.facts():
            for sg in (1, -1):
                d = sub(a, b) if sg == 1 else sub(b, a)
                k = sub(D, d)
                if T[k][0] != 'c':
                    continue
                k = T[k][1]
                ss = s if sg == 1 else frozenset({'<': '>', '>': '<', '=': '='}[z] for z in s)
                if ss <= frozenset('<='):
                    hi = min(hi, k if '=' in ss else k - 1)
                if ss <= frozenset('=>'):
                    lo = max(lo, k if '=' in ss else k + 1)
                if '=' not in ss:
                    ne.add(k)
        for _ in range(4):
            if lo in ne:
                lo += 1
            if hi in ne:
                hi -= 1
        return lo, hi

    def feasible(self):
        for a, b, s in list(self.facts()):
            D = sub(a, b)
            t = T[D]
            lo, hi = -INF, INF
            if t[0] == 'c':
                lo = hi = t[1]
            else:
                parts, c = (t[1], t[2]) if t[0] == 'sum' else (((D, 1),), 0)
                if all(T[x][0] == 'szn' or x in self.nonneg for x, _ in parts):
                    if all(k > 0 for _, k in parts):
                        lo = c
                    if all(k < 0 for _, k in parts):
                        hi = c
            if s == frozenset('=') and (lo > 0 or hi < 0) or s <= frozenset('<=') and lo > (0 if '=' in s else -1) or s <= frozenset('=>') and hi < (0 if '=' in s else 1) or ('=' not in s and lo == hi == 0):
                return False
        return True

    def le(self):
        """pairs a <= b in the elements' order (not b before a)"""
        g = {}
        for r, a, b in self.preds:
            t = truth(self.p, r)
            if t is True:
                g.setdefault(a, set()).add(b)
            elif t is False:
                g.setdefault(b, set()).add(a)
        return g

    def isle(self, a, b):
        g, seen, w = self.le(), set(), [a]
        while w:
            x = w.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            w += list(g.get(x, ()))
        return False


def insync(S, cont, idx, why):
    """every element written to a slot was told that slot"""
    for V, c in cont.items():
        last = {}
        for pos, tok in c:
            last[pos] = tok
        for pos, tok in last.items():
            h = idx.get(tok)
            if not h:
                if tok == mk('init', V, pos):
                    continue
                return 'the element put at %s is not told its position' % show(pos)
            if S.rng(h[-1][1], pos) != (0, 0):
                return 'the element at %s is told position %s' % (show(pos), show(h[-1][1]))
    return None


def gone(S, removed):
    """elements taken out are told -1"""
    for k, V, pos, tok in removed:
        if any(t == tok for c in S.cont.values() for _, t in c):
            continue
        h = S.idx.get(tok)
        # a slot may hold the removed element under another name
        if tok is None or not h or h[-1][1] != const(-1):
            return 'an element taken out is not told that it left'
        later = [x for t, hh in S.idx.items() if t != tok for x in hh if x[0] > h[-1][0]]
        if later:
            return 'an element taken out may be told a position again afterwards'
    return None


def member(fn):
    return fn.short.split('::')[-1]


HM = re.compile(r'^BinHeap::(push|pop|front|update|pushupdate|clear|append|reinit|pushdown|pullup|data|at|size|empty)$')


def half(x):
    return mk('op', 'half', (x,))


def parentof(c):
    return half(fsum([(c, 1)], -1))


def sift(o, fn, down):
    """one step of moving an element along its path"""
    nm = member(fn)
    ex = explore(fn, eff=StructEff())
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        tr = lambda: trace(p)
        key = lambda w: 'BinHeap::%s:%s' % (nm, w)
        # current position: the argument, or what the loop carries
        loops = [e for e in p.ev if e.kind == 'loop']
        cur0 = ARG(fn, 1)
        cur, reg = cur0, None
        for e in loops:
            for r, init in e.args:
                if init and all(x == cur0 for x in init):
                    cur, reg = mk('phi', r, fn.short), r
        S = Sim(p, nonneg=[cur, cur0], marks=None)
        if not S.feasible():
            continue
        # read-only prefix in front of a loop tells nothing about the loop's own positions
        Vs = {T[x][1] for x in list(S.map.values()) if T[x][0] == 'at'} | set(S.cont)
        V = min(Vs) if Vs else None
        calls = [e for e in p.ev if e.kind == 'call' and e.name == fn.dem]
        nxt = S.canon(calls[-1].args[1]) if calls else None
        if reg is not None and p.kind == 'back':
            nxt = S.canon(p.st.user['back'].get(reg))
        n = S.size(V) if V is not None else None
        tok = lambda q: mk('init', V, q)
        moved = bool(S.cont)
        if down:
            kids = [fsum([(cur, 2)], 1), fsum([(cur, 2)], 2)]
        else:
            kids = [parentof(cur)]
        known = lambda q: V is not None and S.rng(q, n)[1] < 0
        absent = lambda q: (V is None or S.rng(q, n)[0] >= 0) if down else S.rng(cur, const(0))[1] <= 0
        if V is None:
            # no element looked at
            sz = [e.res for e in p.ev if e.kind == 'call' and short(e.name) == 'std::vector::size']
            if down:
                okk = any(S.rng(kids[0], S.map[z])[0] >= 0 for z in sz)
            else:
                okk = absent(None)
            o.decide(okk and nxt is None, 'sift', key('stop'), None, 'stops without having looked at the neighbours of the slot', tr)
            continue
        C = tok(cur)
        if nxt is None and not moved:
            for q in kids:
                good = absent(q) or (S.isle(C, tok(q)) if down else S.isle(tok(q), C))
                o.decide(good, 'sift', key('stop'), p.ev[-1].loc, 'stops although the element may belong %s' % ('below a child' if down else 'above its parent'), tr,
                         'BinHeap::%s: stops only with the order restored' % nm)
            if p.kind == 'ret' and p.ret is not None and fn.args and T[p.ret][0] != 'undef':
                o.decide(S.canon(p.ret) == cur, 'sift', key('result'), p.ev[-1].loc, 'the position handed back is not where the element is', tr)
            continue
        # exchange with X and go on there
        if not o.decide(nxt is not None, 'sift', key('on'), p.ev[-1].loc, 'elements are exchanged but the new place is not looked at', tr):
            continue
        X = next((q for q in kids if sub(q, nxt) == const(0)), None)
        if not o.decide(X is not None, 'sift', key('where'), p.ev[-1].loc, 'goes on at %s' % show(nxt), tr):
            continue
        o.decide(S.content(V, cur) == tok(X) and S.content(V, X) == C, 'sift', key('exchange'), p.ev[-1].loc, 'the two elements are not exchanged', tr, 'BinHeap::%s: exchanges the slot with its neighbour' % nm)
        w = insync(S, S.cont, S.idx, '')
        o.decide(w is None, 'positions', key('exchange'), p.ev[-1].loc, w, tr, 'BinHeap::%s: both elements are told their new slots' % nm)
        if down:
            o.decide(known(X), 'sift', key('bounds'), p.ev[-1].loc, 'a child beyond the end is used', tr)
            for q in kids:
                if q != X:
                    o.decide(absent(q) or S.isle(tok(X), tok(q)), 'sift', key('smaller'), p.ev[-1].loc, 'the child moved up may belong below its sibling', tr, 'BinHeap::pushdown: the better child moves up')
            o.decide(S.isle(tok(X), C) and not S.isle(C, tok(X)), 'sift', key('pred'), p.ev[-1].loc, 'an element moves up that does not belong before', tr)
        else:
            o.decide(S.isle(C, tok(X)), 'sift', key('pred'), p.ev[-1].loc, 'an element moves up that does not belong before its parent', tr)


def ARG(fn, k):
    return mk('arg', k, fn.args[k][0])


def heapops(o, fn):
    nm = member(fn)
    ex = explore(fn, eff=StructEff())
    this = ARG(fn, 0)
    V = None
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        tr = lambda: trace(p)
        key = lambda w: 'BinHeap::%s:%s' % (nm, w)
        loc = p.ev[-1].loc if p.ev else None
        i = ARG(fn, 2) if nm == 'pushupdate' else ARG(fn, 1) if nm == 'update' else None
        S = Sim(p, marks=HM)
        V = next((T[x][1] for x in S.map.values() if T[x][0] in ('at', 'szn')), None) or next(iter(S.delta), None) or gep(this, (('f', 'BinHeap', 'heap'),))
        n0 = S.n(V)
        dirty = []      # (pos, kinds)
        grow = 0
        exp_e = None
        if nm == 'update' or nm == 'pushupdate':
            r = S.rng(i, const(0))
            if nm == 'update' or r[0] >= 0:
                dirty = [[i, {'up', 'down'}]]
            elif r[1] < 0:
                exp_e, grow = ARG(fn, 1), 1
            else:
                o.fail('heap', key('split'), loc, 'does not tell an element in the heap from one that is not', tr())
                continue
        if nm == 'push':
            exp_e, grow = ARG(fn, 1), 1
        size0 = S.rng(n0, const(0))
        if nm == 'pop':
            grow = -1 if size0[0] >= 1 else 0 if size0[1] <= 0 else None
            o.decide(grow is not None, 'heap', key('empty'), loc, 'does not tell an empty heap', tr)
            if grow is None:
                continue
        # replay the operations in order
        ops = [(k, 'add', pos, tok) for k, v, pos, tok in S.added if v == V] + [(k, 'rm', pos, tok) for k, v, pos, tok in S.removed if v == V] + \
              [(k, m, a, None) for k, m, v, a in S.ops]
        for k, e in enumerate(p.ev):
            if e.kind == 'store' and T[S.canon(e.ptr)][0] == 'at':
                ops.append((k, 'write', T[S.canon(e.ptr)][2], None))
        marks = {k: (c, x) for k, c, x, d in S.atmark}
        total = 0
        bad = None
        for k, m, a, tok in sorted(ops, key=lambda z: z[0]):
            if k in marks and m in ('pushdown', 'pullup', 'update', 'push', 'pushupdate', 'reinit'):
                w = insync(S, *marks[k], '')
                o.decide(w is None, 'positions', key('sync'), p.ev[k].loc, w, tr, 'BinHeap::%s: positions agree before elements are moved on' % nm)
            if m == 'add':
                dirty.append([a, {'up'}])
                total += 1
                o.decide(exp_e is not None and tok == exp_e, 'heap', key('what'), p.ev[k].loc, 'something other than the given element is added', tr)
            elif m == 'rm':
                dirty = [d for d in dirty if sub(d[0], a) != const(0)]
                total -= 1
            elif m == 'write':
                dirty.append([a, {'down'} if T[a] == ('c', 0) else {'up', 'down'}])
            elif m in ('pullup', 'pushdown'):
                pos = a[1]
                for d in dirty:
                    if sub(d[0], pos) == const(0):
                        d[1].discard('up' if m == 'pullup' else 'down')
                        d[0] = p.ev[k].res if d[1] else d[0]
            elif m == 'update':
                dirty = [d for d in dirty if sub(d[0], a[1]) != const(0)]
            elif m == 'push' and exp_e is not None:
                o.decide(a[1] == exp_e, 'heap', key('what'), p.ev[k].loc, 'something other than the given element is added', tr)
                total += 1
            elif m in ('front', 'size', 'empty', 'at', 'data'):
                pass
            else:
                bad = m
        # what is left over may be harmless
        rest = []
        for pos, kinds in dirty:
            for kd in kinds:
                if kd == 'up' and S.rng(pos, const(0))[1] <= 0:
                    continue
                if kd == 'down' and S.rng(fsum([(pos, 2)], 1), S.size(V))[0] >= 0:
                    continue
                rest.append((pos, kd))
        o.decide(bad is None, 'heap', key('op'), loc, 'uses %s, which is not part of the operation' % bad, tr)
        o.decide(not rest, 'heap', key('order'), loc, 'the slot %s is not moved %s to its place' % (show(rest[0][0]) if rest else '', rest[0][1] if rest else ''), tr, 'BinHeap::%s: every changed slot is moved to its place' % nm)
        o.decide(total == grow, 'heap', key('size'), loc, 'the number of elements changes by %d, not %d' % (total, grow), tr)
        w = insync(S, S.cont, S.idx, '')
        o.decide(w is None, 'positions', key('sync'), loc, w, tr, 'BinHeap::%s: stored elements know their slots' % nm)
        if nm == 'pop' and grow == -1:
            first = mk('init', V, const(0))
            tr0 = [x for x in first_idx(S, first)]
            o.decide(bool(tr0) and tr0[-1] == const(-1), 'positions', key('left'), loc, 'the element handed out is not told that it left', tr, 'BinHeap::pop: the first element is told that it left')
            o.decide(outcome(p, S) == first, 'heap', key('first'), loc, 'the element handed out is not the first one', tr, 'BinHeap::pop: hands out slot 0')
        if nm == 'pop' and grow == 0:
            o.decide(outcome(p, S) is None, 'heap', key('none'), loc, 'hands out an element of an empty heap', tr)


def first_idx(S, tok):
    """positions told to tok over the whole path, marks included"""
    L = []
    for k, e in enumerate(S.p.ev):
        if e.kind == 'call' and short(e.name).endswith('::setind') and S.canon(e.args[0]) == tok:
            L.append(S.canon(e.args[1]))
    return L


def outcome(p, S):
    """what an optional result holds"""
    for e in reversed(p.ev):
        if e.kind == 'call' and short(e.name) == 'boost::optional::optional':
            if len(e.args) < 2:
                return None
            a = S.canon(e.args[1])
            if T[a][0] == 'at':
                return S.content(T[a][1], T[a][2])
            return S.canon(p.value(e.args[1]))
    return None


def reinit(o, fn, V0=None):
    """positions are set for all, then every slot with children is moved down, last first"""
    ex = explore(fn, eff=StructEff())
    key = lambda w: 'BinHeap::reinit:%s' % w
    setl, downl = set(), set()
    rets = 0
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        tr = lambda: trace(p)
        S = Sim(p, marks=HM)
        V = gep(ARG(fn, 0), (('f', 'BinHeap', 'heap'),))
        V = next((T[x][1] for x in S.map.values() if T[x][0] in ('at', 'szn')), V)
        loc = p.ev[-1].loc if p.ev else None
        loops = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'loop']
        for j, (k, e) in enumerate(loops):
            end = loops[j + 1][0] if j + 1 < len(loops) else len(p.ev)
            phis = {mk('phi', r, fn.short): (r, init) for r, init in e.args}
            seg = p.ev[k:end]
            st = [x for x in seg if x.kind == 'call' and short(x.name).endswith('::setind')]
            dn = [x for x in seg if x.kind == 'call' and short(x.name) == 'BinHeap::pushdown']
            kind = loopkind(fn, e.val)
            h = e.val
            if kind == 'set':
                setl.add(h)
                for x in st:
                    ph = S.canon(x.args[1])
                    it = isiter(x.args[0])
                    o.decide(ph in phis and (it or S.canon(x.args[0]) == mk('init', V, ph)), 'positions', key('set'), x.loc, 'an element is told a slot it is not in', tr, 'BinHeap::reinit: slot i is told i')
                    if ph in phis:
                        reg, init = phis[ph]
                        o.decide(all(poly0(S, z) for z in init), 'positions', key('from'), x.loc, 'the first slots are not told', tr)
                        if p.kind == 'back' and p.where == h:
                            o.decide(sub(S.canon(p.st.user['back'][reg]), ph) == const(1), 'positions', key('step'), x.loc, 'slots are left out', tr)
                if p.kind == 'back' and p.where == h:
                    o.decide(bool(st), 'positions', key('all'), e.loc, 'a slot is left out', tr)
                elif not st:
                    itend = any(i['op'] == 'call' and re.search(r'operator!=|operator==', i['callee']) for b in fn.loops[h]['set'] for i in fn.blocks[b])
                    o.decide(itend or any(S.rng(ph, S.size(V))[0] >= 0 for ph in phis), 'positions', key('to'), e.loc, 'the last slots are not told', tr, 'BinHeap::reinit: up to the last slot')
            elif kind == 'down':
                downl.add(h)
                o.decide(bool(setl) or any(loopkind(fn, z.val) == 'set' for _, z in loops[:j]), 'positions', key('before'), e.loc, 'elements are moved before they know their slots', tr)
                for x in dn:
                    ph = S.canon(x.args[1])
                    if not o.decide(ph in phis, 'heap', key('slot'), x.loc, 'the slot moved down is not the loop\'s', tr):
                        continue
                    reg, init = phis[ph]
                    sz = S.size(V)
                    good = all(S.canon(z) in (half(sz), fsum([(half(sz), 1)], -1), half(fsum([(sz, 1)], -1)), half(fsum([(sz, 1)], -2)), fsum([(sz, 1)], -1)) for z in init)
                    o.decide(good, 'heap', key('start'), x.loc, 'starts at %s: some slots with children are left out' % ', '.join(show(S.canon(z)) for z in init), tr, 'BinHeap::reinit: starts at the last slot with children')
                    if p.kind == 'back' and p.where == h:
                        o.decide(sub(S.canon(p.st.user['back'][reg]), ph) == const(-1), 'heap', key('down'), x.loc, 'slots are left out', tr)
                    elif p.kind == 'ret' or p.kind == 'fall':
                        o.decide(S.rng(ph, const(0))[1] <= 0, 'heap', key('zero'), x.loc, 'ends before the first slot', tr, 'BinHeap::reinit: down to slot 0')
                if not dn and p.kind != 'back':
                    o.decide(any(S.rng(ph, const(0))[1] < 0 for ph in phis), 'heap', key('zero'), e.loc, 'ends before the first slot', tr)
        if p.kind in ('ret', 'fall'):
            rets += 1
            ks = {loopkind(fn, e.val) for _, e in loops}
            if not {'set', 'down'} <= ks:
                lim = S.rng(S.n(V), const(0))[1]
                o.decide(lim <= 0 or ('set' in ks and lim <= 1), 'heap', key('skip'), loc, 'returns without restoring the heap', tr, 'BinHeap::reinit: does nothing only for an empty heap')


def isiter(v):
    t = T[v]
    if t[0] != 'ld':
        return False
    r = T[root(t[1])]
    return r[0] in ('call', 'pure') and 'iterator::operator*' in short(r[1])


def poly0(S, z):
    return S.canon(z) == const(0)


def loopkind(fn, h):
    calls = [i['callee'] for b in fn.loops[h]['set'] for i in fn.blocks[b] if i['op'] == 'call']
    if any('::pushdown(' in c for c in calls):
        return 'down'
    if any('::setind(' in c for c in calls):
        return 'set'
    return ''


def appendrule(o, fn):
    ex = explore(fn, eff=StructEff())
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        S = Sim(p, marks=HM)
        key = lambda w: 'BinHeap::append:%s' % w
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        ins = [(k, a) for k, m, v, a in S.ops if m in ('insert',)]
        if ins:
            re_ = [k for k, m, v, a in S.ops if m == 'reinit']
            o.decide(len(re_) >= 1 and re_[-1] > ins[-1][0], 'heap', key('reinit'), loc, 'the heap is not restored after elements were added', tr, 'BinHeap::append: restores the heap afterwards')
            k, a = ins[-1]
            e = p.ev[k]
            src = [short(T[x][1]) for x in e.args[2:] if T[x][0] in ('pure', 'call')]
            o.decide(src == ['std::vector::begin', 'std::vector::end'] and all(T[x][2][0] == ARG(fn, 1) for x in e.args[2:]), 'heap', key('all'), loc, 'not all the given elements are added', tr)
        else:
            pushes = [x for x in p.ev if x.kind == 'call' and short(x.name) == 'BinHeap::push']
            loops = [e for e in p.ev if e.kind == 'loop']
            raw = [i for i in fn.instrs() if i['op'] == 'call' and re.search(r'^std::vector<.*>::(push_back|emplace_back|resize)\(', i['callee'])]
            if raw and p.kind == 'ret':
                o.decide(any(m == 'reinit' for k, m, v, a in S.ops), 'heap', key('reinit'), loc, 'the heap is not restored after elements were added', tr)
            o.decide(bool(loops) or bool(pushes), 'heap', key('none'), loc, 'elements are not added', tr)


def small(o, fn):
    """front, size, empty, clear, data, at"""
    nm = member(fn)
    for p in explore(fn, eff=StructEff()).paths:
        if p.kind == 'abort':
            continue
        S = Sim(p, marks=HM)
        key = lambda w: 'BinHeap::%s:%s' % (nm, w)
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        V = gep(ARG(fn, 0), (('f', 'BinHeap', 'heap'),))
        V = next((T[x][1] for x in S.map.values() if T[x][0] in ('at', 'szn')), V)
        r = S.canon(p.ret) if p.ret is not None else None
        if nm == 'size':
            o.decide(r == S.n(V), 'heap', key('value'), loc, 'not the number of elements', tr, 'BinHeap::size')
        elif nm == 'empty':
            want = cmpval('eq', S.n(V), const(0), 'i')
            o.decide(r == want or r == notval(cmpval('ne', S.n(V), const(0), 'i')) or decided(S, V, p, r), 'heap', key('value'), loc, 'not whether the heap is empty', tr, 'BinHeap::empty')
        elif nm == 'front':
            z = S.rng(S.n(V), const(0))
            got = outcome(p, S)
            o.decide(got == (mk('init', V, const(0)) if z[0] >= 1 else None if z[1] <= 0 else -1), 'heap', key('value'), loc, 'not the first element', tr, 'BinHeap::front: slot 0 unless empty')
            o.decide(not S.cont and not S.delta, 'heap', key('const'), loc, 'changes the heap', tr)
        elif nm == 'clear':
            o.decide(any(m in ('clear',) for k, m, v, a in S.ops) or any(m in ('resize',) and a[:1] == [const(0)] for k, m, v, a in S.ops), 'heap', key('value'), loc, 'elements stay in the heap', tr, 'BinHeap::clear')


def decided(S, V, p, r):
    t = T[p.ret] if p.ret is not None else None
    if t and t[0] == 'c':
        z = S.rng(S.n(V), const(0))
        return z[1] <= 0 if t[1] else z[0] >= 1
    return False


# ---------------------------------------------------------------- open lists
LM = re.compile(r'^BinHeap::(push|pop|front|update|pushupdate|clear|append|reinit|at|data|size|empty)$')


def heaplist(o, fn):
    """the list kept in a binary heap"""
    nm = member(fn)
    n = ARG(fn, 1) if len(fn.args) > 1 else None
    sets = 0
    for p in explore(fn, eff=StructEff()).paths:
        if p.kind == 'abort':
            continue
        key = lambda w: 'OpenList:%s:%s' % (nm, w)
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        hs = [e for e in p.ev if e.kind == 'call' and short(e.name).startswith('BinHeap::') and short(e.name).split('::')[-1] not in ('at', 'size', 'empty', 'data', 'front')]
        what = [(short(e.name).split('::')[-1], e.args[1:]) for e in hs]
        g = [e.res for e in p.ev if e.kind == 'call' and short(e.name).endswith('::getind') and e.args[0] == n]
        inheap = None
        for x in g:
            r = p.st.facts.relset('i', x, const(0))
            e1 = p.st.facts.relset('i', x, const(-1))
            if r <= frozenset('<') or e1 <= frozenset('='):
                inheap = False
            elif '<' not in r or '=' not in e1:
                inheap = True
        if nm == 'push':
            good = what == [('push', [n])] or (len(what) == 1 and what[0][0] == 'pushupdate' and what[0][1][0] == n and what[0][1][1] in g)
            o.decide(good, 'list', key('push'), loc, 'the node is not simply added', tr, 'OpenList::push')
        elif nm == 'post_update':
            good = (inheap is False and what == [('push', [n])]) or (inheap is True and len(what) == 1 and what[0][0] == 'update' and what[0][1][0] in g) or \
                   (len(what) == 1 and what[0][0] == 'pushupdate' and what[0][1][0] == n and what[0][1][1] in g)
            o.decide(good, 'list', key('update'), loc, 'a changed node is not moved to its place (or added, if it is not in the list)', tr, 'OpenList::post_update')
        elif nm == 'pre_update':
            o.decide(not what, 'list', key('update'), loc, 'changes the heap', tr)
        elif nm == 'pop':
            pops = [e for e in hs if e.name.endswith('::pop()')]
            empt = None
            for e in p.ev:
                if e.kind == 'call' and e.res is not None and re.search(r'optional::(operator!|operator bool|is_initialized)$', short(e.name)):
                    b = truth(p, e.res)
                    if b is not None:
                        empt = b if short(e.name).endswith('!') else not b
                if e.kind == 'call' and short(e.name) == 'BinHeap::empty' and truth(p, e.res) is not None:
                    empt = truth(p, e.res)
            taken = p.ret is not None and T[p.ret][0] == 'ld' and T[root(T[p.ret][1])][0] in ('pure', 'call') and re.search(r'optional::(operator\*|get)$', short(T[root(T[p.ret][1])][1]))
            o.decide(len(pops) == 1 or (empt and not pops), 'list', key('one'), loc, 'does not take exactly one node', tr, 'OpenList::pop')
            o.decide((empt is True and p.ret == NULL) or bool(taken), 'list', key('pop'), loc, 'does not hand out the node taken from the heap', tr)
        elif nm == 'empty':
            e = [x for x in p.ev if x.kind == 'call' and short(x.name) == 'BinHeap::empty']
            z = [x for x in p.ev if x.kind == 'call' and short(x.name) == 'BinHeap::size']
            o.decide(bool(e) and p.ret == e[-1].res or bool(z) and p.ret == cmpval('eq', z[-1].res, const(0), 'i'), 'list', key('empty'), loc, 'is not whether the heap is empty', tr, 'OpenList::empty')
        elif nm == 'mem':
            o.decide(bool(g) and p.ret in (cmpval('ne', g[-1], const(-1), 'i'), cmpval('ge', g[-1], const(0), 'i'), cmpval('gt', g[-1], const(-1), 'i')), 'list', key('mem'), loc, 'is not whether the node has a position', tr, 'OpenList::mem')
    if nm == 'clear':
        clearrule(o, fn)


def clearrule(o, fn):
    """every node is told it left before the container is emptied"""
    seen = {}
    bad = None
    cleared = True
    kind = 'OpenList%s:clear' % (':bucket' if ', int>' in fn.dem else '')
    for p in explore(fn, eff=StructEff()).paths:
        if p.kind == 'abort':
            continue
        loops = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'loop']
        for k, e in enumerate(p.ev):
            if e.kind == 'call' and (short(e.name).endswith('::setind') and e.args[1] == const(-1) or short(e.name) == 'BinHeap::pop'):
                L = [x for j, x in loops if j < k]
                if L:
                    seen[L[-1].val] = e
                    h = L[-1].val
                    ph = {mk('phi', r, fn.short): (r, init) for r, init in L[-1].args}
                    # an index loop must cover every index
                    t = T[e.args[0]]
                    at = None
                    if t[0] in ('call', 'pure') and short(t[1]) == 'BinHeap::at':
                        at = t[2][1]
                    elif t[0] == 'ld' and T[root(t[1])][0] in ('call', 'pure') and short(T[root(t[1])][1]) == 'std::vector::operator[]':
                        at = T[root(t[1])][2][1]
                    if at is not None:
                        if at not in ph or ph[at][1] != [const(0)] or p.kind == 'back' and p.where == h and sub(p.st.user['back'][ph[at][0]], at) != const(1):
                            bad = 'the first nodes or every other node keep their positions'
        if p.kind in ('ret', 'fall'):
            # what the container thinks after
            c = [e for e in p.ev if e.kind == 'call' and re.search(r'^(BinHeap|std::vector)::(clear|resize|assign)$', short(e.name))]
            emptied = any(e.kind == 'call' and short(e.name) == 'BinHeap::empty' and truth(p, e.res) for e in p.ev)
            if not c and not emptied:
                cleared = False
            for k, e in loops:
                for r, init in e.args:
                    ph = mk('phi', r, fn.short)
                    if init == [const(0)] and T[ph][0] == 'phi':
                        if any(ph == y or ph in [x for x, _ in (T[y][1] if T[y][0] == 'sum' else ())] for x in [e] for y in []):
                            pass
                sz = [x.res for x in p.ev[k:] if x.kind == 'call' and re.search(r'^(BinHeap|std::vector)::size$', short(x.name))]
                idx = [mk('phi', r, fn.short) for r, init in e.args if init == [const(0)]]
                if sz and idx and not any('<' not in p.st.facts.relset('i', i, z) for i in idx for z in sz):
                    bad = 'the last nodes keep their positions'
    o.decide(bool(seen), 'positions', '%s:left' % kind, None, 'nodes thrown out of the list still think they are in it', None, '%s: nodes thrown out are told that they left' % kind)
    o.decide(bad is None, 'positions', '%s:all' % kind, None, bad)
    o.decide(cleared, 'list', '%s:clear' % kind, None, 'nodes stay in the list')


def fieldof(v):
    """field a value was loaded from: (object, name)"""
    t = T[v]
    while t[0] == 'cast':
        t = T[t[2]]
    if t[0] == 'ld' and path(t[1]) and path(t[1])[-1][0] == 'f':
        return parentobj(t[1]), path(t[1])[-1][2]
    return None


def fielddelta(S, p, obj, name):
    """change of a counter field along the path (None: set to something else)"""
    d = 0
    for e in p.ev:
        if e.kind == 'store':
            a = S.canon(e.ptr)
            if path(a) and path(a)[-1][0] == 'f' and path(a)[-1][2] == name and parentobj(a) == obj:
                x = sub(e.val, e.old)
                if T[x][0] != 'c':
                    return None
                d += T[x][1]
    return d


def bucketlist(o, fns):
    F = {member(f): f for f in fns}
    key = lambda w: 'OpenList:bucket:%s' % w
    # roles of the fields
    role = {}
    f = F['empty']
    for p in explore(f, eff=StructEff()).paths:
        t = T[p.ret] if p.ret is not None else ('c', 0)
        fo = None
        if t[0] == 'cmp' and t[1] == '=':
            fo = fieldof(t[2]) or fieldof(t[3])
            zero = const(0) in (t[2], t[3])
            o.decide(bool(fo) and zero, 'list', key('empty'), None, 'is not whether nothing is left', lambda: trace(p), 'bucketed OpenList::empty')
        else:
            o.fail('list', key('empty'), None, 'is not whether nothing is left', trace(p))
        role['fill'] = fo[1] if fo else 'fill'
    f = F['pop']
    paths = [p for p in explore(f, eff=StructEff()).paths if p.kind != 'abort']
    sims = [(p, Sim(p)) for p in paths]
    for p, S in sims:
        if p.kind == 'ret' and len(S.removed) == 1:
            V = S.removed[0][1]
            t = T[V]
            q = root(t[1]) if t[0] == 'at' else None
            if q is not None and T[q][0] == 'at' and fieldof(t[2]) and fieldof(T[q][2]):
                role['max'] = fieldof(t[2])[1]
                role['min'] = fieldof(T[q][2])[1]
    if 'min' not in role:
        o.fail('list', key('pop'), None, 'a node is not taken from the bucket of the lowest key', trace(paths[-1]) if paths else None)
        return
    this = ARG(f, 0)

    def counts(S, p, V, want, k):
        q = root(T[V][1])
        tr = lambda: trace(p)
        a = fielddelta(S, p, this, role['fill'])
        b = fielddelta(S, p, q, role['fill'])
        o.decide(a == want, 'list', key(k + ':count'), p.ev[-1].loc, 'the number of nodes in the list changes by %s, not %d' % (a, want), tr, 'bucketed OpenList::%s: keeps count' % k)
        o.decide(b == want, 'list', key(k + ':bucket count'), p.ev[-1].loc, 'the number of nodes with this key changes by %s, not %d' % (b, want), tr)

    def emptyq(S, p, q):
        """what the path knows about the bucket group q being empty"""
        for v, w, s in S.facts():
            for a, b in ((v, w), (w, v)):
                fo = fieldof(a)
                if fo and b == const(0) and fo[1] == role['fill'] and S.canon(fo[0]) == q:
                    if s == frozenset('='):
                        return True
                    if '=' not in s:
                        return False
        return None
    for p, S in sims:
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        st = [(S.canon(e.ptr), e) for e in p.ev if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][0] == 'f']
        if p.kind == 'back':
            for a, e in st:
                nmf = path(a)[-1][2]
                if nmf == role['min'] and parentobj(a) == this:
                    qs = [x for x in S.map.values() if T[x][0] == 'at' and sub(T[x][2], S.canon(e.old)) == const(0)]
                    o.decide(sub(e.val, e.old) == const(1) and any(emptyq(S, p, x) is True for x in qs), 'list', key('pop:min'), e.loc, 'the lowest key moves past one that still has nodes', tr, 'bucketed OpenList::pop: the lowest key only passes empty buckets')
                elif nmf == role['max'] and T[parentobj(a)][0] == 'at':
                    bs = [x for x in S.map.values() if T[x][0] == 'at' and sub(T[x][2], S.canon(e.old)) == const(0) and root(T[x][1]) == parentobj(a)]
                    o.decide(sub(e.val, e.old) == const(-1) and any(S.rng(S.size(x), const(0)) == (0, 0) for x in bs), 'list', key('pop:max'), e.loc, 'the highest tie key moves past one that still has nodes', tr, 'bucketed OpenList::pop: the highest tie key only passes empty buckets')
            continue
        if p.kind != 'ret':
            continue
        if not o.decide(len(S.removed) == 1, 'list', key('pop:one'), loc, 'does not take exactly one node', tr):
            continue
        k, V, pos, tok = S.removed[0]
        o.decide(S.canon(p.ret) == tok, 'list', key('pop:which'), loc, 'the node handed out is not the one taken out', tr, 'bucketed OpenList::pop: hands out the node it takes out')
        w = gone(S, S.removed)
        o.decide(w is None, 'positions', key('pop'), loc, w, tr, 'bucketed OpenList::pop: the node is told that it left')
        t = T[V]
        q = root(t[1])
        okb = fieldof(T[q][2]) and fieldof(T[q][2])[1] == role['min'] and fieldof(t[2]) and fieldof(t[2])[1] == role['max']
        o.decide(bool(okb), 'list', key('pop:bucket'), loc, 'the node is not taken from the lowest key and the highest tie key', tr)
        if okb:
            emq = emptyq(S, p, q)
            big = any(S.rng(T[q][2], S.size(x))[0] >= 0 for x in [T[q][1]])
            o.decide(emq is False or big, 'list', key('pop:nonempty'), loc, 'a key without nodes may be chosen', tr)
            r0 = S.rng(S.n(V), const(0))
            z = S.rng(t[2], const(0))
            fz = any((S.canon(a), b) == (t[2], const(0)) or (S.canon(b), a) == (t[2], const(0)) for a, b, s in S.facts() if s == frozenset('='))
            o.decide(r0[0] >= 1 or z[1] <= 0 or fz, 'list', key('pop:tie'), loc, 'a tie key without nodes may be chosen', tr)
        counts(S, p, V, -1, 'pop')
    for nm in ('push', 'post_update'):
        f = F[nm]
        n = ARG(f, 1)
        for p in explore(f, eff=StructEff()).paths:
            if p.kind != 'ret':
                continue
            S = Sim(p)
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            if not o.decide(len(S.added) == 1 and S.added[0][3] == n and not S.removed, 'list', key(nm + ':one'), loc, 'the node is not added exactly once', tr, 'bucketed OpenList::%s adds the node once' % nm):
                continue
            k, V, pos, tok = S.added[0]
            t = T[V]
            q = root(t[1]) if t[0] == 'at' else None
            P = {e.res for e in p.ev if e.kind == 'call' and e.name.startswith('VOpenOps::prio(') and e.args[0] == n}
            K = {e.res for e in p.ev if e.kind == 'call' and e.name.startswith('VOpenOps::tieprio(') and e.args[0] == n}
            if not o.decide(q is not None and T[q][0] == 'at' and T[q][2] in P and t[2] in K, 'list', key(nm + ':bucket'), loc, 'the node is not put with its own key and tie key', tr, 'bucketed OpenList::%s: bucket of the node\'s own keys' % nm):
                continue
            o.decide(S.rng(T[q][2], S.size(T[q][1]))[1] < 0, 'list', key(nm + ':room'), loc, 'the list is not made large enough for the key', tr, 'bucketed OpenList::%s: room for the key' % nm)
            o.decide(S.rng(t[2], S.size(t[1]))[1] < 0, 'list', key(nm + ':tie room'), loc, 'the list is not made large enough for the tie key', tr)
            w = insync(S, S.cont, S.idx, '')
            o.decide(w is None, 'positions', key(nm), loc, w, tr, 'bucketed OpenList::%s: the node is told its slot' % nm)
            counts(S, p, V, 1, nm)
            for obj, r, kv, sg in ((this, 'min', T[q][2], 1), (q, 'max', t[2], -1)):
                cell = None
                for e in p.ev:
                    if e.kind in ('store', 'load'):
                        a = S.canon(e.ptr)
                        if path(a) and path(a)[-1][0] == 'f' and path(a)[-1][2] == role[r] and parentobj(a) == obj:
                            cell = S.canon(e.val)
                d = S.rng(cell, kv) if cell is not None else (-INF, INF)
                o.decide(d[1] <= 0 if sg == 1 else d[0] >= 0, 'list', key(nm + ':' + r), loc, 'the %s key is not lowered/raised to the new node\'s' % ('lowest' if r == 'min' else 'highest tie'), tr, 'bucketed OpenList::%s: %s key covers the node' % (nm, r))
    f = F['pre_update']
    n = ARG(f, 1)
    for p in explore(f, eff=StructEff()).paths:
        if p.kind != 'ret':
            continue
        S = Sim(p)
        if not S.feasible():
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        g = {S.canon(e.res) for e in p.ev if e.kind == 'call' and short(e.name).endswith('::getind') and e.args[0] == n}
        out = any(S.rng(x, const(0))[1] < 0 for x in g)
        if out:
            o.decide(not S.removed and not S.cont, 'list', key('pre_update:out'), loc, 'something is removed although the node is not in the list', tr, 'bucketed OpenList::pre_update: nothing for a node that is not in the list')
            continue
        if not o.decide(len(S.removed) == 1 and not S.added, 'list', key('pre_update:one'), loc, 'the node is not removed exactly once', tr):
            continue
        k, V, pos, tok = S.removed[0]
        t = T[V]
        q = root(t[1]) if t[0] == 'at' else None
        P = {e.res for e in p.ev if e.kind == 'call' and e.name.startswith('VOpenOps::prio(') and e.args[0] == n}
        K = {e.res for e in p.ev if e.kind == 'call' and e.name.startswith('VOpenOps::tieprio(') and e.args[0] == n}
        if not o.decide(q is not None and T[q][0] == 'at' and T[q][2] in P and t[2] in K, 'list', key('pre_update:bucket'), loc, 'the node is not looked for under its own key and tie key', tr, 'bucketed OpenList::pre_update: the node\'s own bucket'):
            continue
        counts(S, p, V, -1, 'pre_update')
        told = S.idx.get(n, [])
        o.decide(bool(told) and told[-1][1] == const(-1) and not [x for a, hh in S.idx.items() if a != n for x in hh if x[0] > told[-1][0]], 'positions', key('pre_update:left'), loc,
                 'the node is not told (last) that it left', tr, 'bucketed OpenList::pre_update: the node is told that it left')
        last = fsum([(S.n(V), 1)], -1)
        movedin = [(a, b) for a, b in S.cont.get(V, []) if a in g]
        only = S.rng(S.n(V), const(1))[1] <= 0 or any(S.rng(x, last) == (0, 0) for x in g)
        o.decide(only or (movedin and movedin[-1][1] == mk('init', V, last)), 'list', key('pre_update:fill'), loc, 'the node\'s slot is not filled with the last one of its bucket', tr, 'bucketed OpenList::pre_update: the last node takes the slot')
        w = insync(S, S.cont, S.idx, '')
        o.decide(w is None, 'positions', key('pre_update:moved'), loc, w, tr, 'bucketed OpenList::pre_update: the moved node is told its slot')
    f = F['mem']
    for p in explore(f, eff=StructEff()).paths:
        g = [e.res for e in p.ev if e.kind == 'call' and short(e.name).endswith('::getind')]
        o.decide(bool(g) and p.ret in (cmpval('ne', g[-1], const(-1), 'i'), cmpval('ge', g[-1], const(0), 'i'), cmpval('gt', g[-1], const(-1), 'i')), 'list', key('mem'), None, 'is not whether the node has a position', lambda: trace(p), 'bucketed OpenList::mem')
    f = F['clear']
    clearrule(o, f)
    for p in explore(f, eff=StructEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        o.decide(p.value(gep(ARG(f, 0), (('f', structof(f, role['fill']), role['fill']),))) == const(0) if structof(f, role['fill']) else False, 'list', key('clear:fill'), None, 'the count is not set back', lambda: trace(p), 'bucketed OpenList::clear: counts from zero')
        o.decide(p.value(gep(ARG(f, 0), (('f', structof(f, role['min']), role['min']),))) == const(0) if structof(f, role['min']) else False, 'list', key('clear:min'), None, 'the lowest key is not set back', lambda: trace(p))


def structof(fn, field):
    for i in fn.instrs():
        if i['op'] == 'gep' and i['path'] and i['path'][-1][0] == 'f' and i['path'][-1][2] == field:
            return i['path'][-1][1]
    for i in fn.instrs():
        for e in i.get('path', []) or []:
            if e[0] == 'f' and e[2] == field:
                return e[1]
    return None


def adaptors(o, fn):
    """the heap's element operations are the list's"""
    nm = member(fn)
    for p in explore(fn, eff=StructEff()).paths:
        cs = [e for e in p.ev if e.kind == 'call' and e.name.startswith('VOpenOps::')]
        want = [ARG(fn, k) for k in range(len(fn.args))]
        key = 'OpenList:heapops:%s' % nm
        o.decide(len(cs) == 1 and short(cs[0].name).endswith('::' + nm) and cs[0].args == want and (p.ret is None or p.ret == cs[0].res), 'list', key, p.ev[-1].loc if p.ev else None,
                 'does not simply pass the question on to the node type', lambda: trace(p), 'Heapops::%s is the node type\'s' % nm)


def P08(pid, tier):
    c = Check(pid, tier, 'Each member of the binary heap and of both open lists is followed along every path with the element operations left open: slots, contents, told positions and order facts '
              'are tracked symbolically, and each path must leave every changed slot in order, every stored element told its slot, every removed element told that it left, counts and bounds exact.',
              ['An element is told its position only through its setind operation, and the element order is a strict weak one (P04).'])
    bc = vf.harness('structs.cc')
    H = vf.graphs(bc, [r'^BinHeap<VHeapOps, VElm\*>::'], OPM + r'^BinHeap<.*>::(pushdown|pullup|reinit)\(', force=FORCE)
    LD = vf.graphs(bc, [r'^OpenList<VOpenOps, VElm, double>::\w+\('], OPM + r'^BinHeap<', force=FORCE)
    AD = vf.graphs(bc, [r'^OpenList<VOpenOps, VElm, double>::Heapops::'], OPM, force=FORCE)
    LI = vf.graphs(bc, [r'^OpenList<VOpenOps, VElm, int>::\w+\('], OPM, force=FORCE)
    have = {member(f) for f in H}
    for m in ('push', 'pop', 'update', 'pushupdate', 'reinit', 'append', 'pushdown', 'pullup', 'front', 'clear'):
        if m not in have:
            raise AnalysisError('BinHeap::%s not found' % m)

    def work(z):
        o = Out()
        k, f = z
        nm = member(f) if not isinstance(f, list) else ''
        if k == 'H':
            if nm in ('pushdown', 'pullup'):
                sift(o, f, nm == 'pushdown')
            elif nm in ('push', 'pop', 'update', 'pushupdate'):
                heapops(o, f)
            elif nm == 'reinit':
                reinit(o, f)
            elif nm == 'append':
                appendrule(o, f)
            else:
                small(o, f)
        elif k == 'LD':
            heaplist(o, f)
        elif k == 'AD':
            adaptors(o, f)
        else:
            bucketlist(o, f)
        return o.done()
    jobs = [('H', f) for f in H] + [('LD', f) for f in LD] + [('AD', f) for f in AD] + [('LI', LI)]
    for recs in vf.pmap(work, jobs):
        c.absorb(recs)
    c.count('container members', len(H) + len(LD) + len(AD) + len(LI))
    c.atleast('sift', 8)
    c.atleast('positions', 15)
    c.atleast('heap', 15)
    c.atleast('list', 20)
    return c.finish()

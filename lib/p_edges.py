"""P10: applying and taking back operators."""
from doms import *
from vf import Check

MARKS10 = {
    'tiles': '^PackedTiles.*::pack\\(',
    'pancake': '^Pancake::State::flip\n^Pancake::gap',
    'drobot': '^DockRobot::Edge::apply\n^DockRobot::pack\\(\n^DockRobot::Loc::',
    'plat2d': '^Player::act',
    'segments': '^Segments::Oper::cost\n^Segments::line\n^wrapind',
    'traffic': '^Traffic::initialstate',
}
S, OP = lambda f: ARG(f, 1), lambda f: ARG(f, 2)


def ARG(f, n):
    return mk('arg', n, f.args[n][0])


class EdgeEff(DomEff):
    def __init__(self, mods):
        self.mods = mods

    def havoc(self, name, ins):
        s = short(name)
        if s == 'dom_sink':
            return []
        if s in self.mods:
            return sorted(self.mods[s])
        return DomEff.havoc(self, name, ins)


def isf(c, struct, name=None):
    lf = lastfield(c)
    return lf is not None and re.search(r'(^|::)%s$' % struct, lf[0]) is not None and (name is None or lf[1] == name)


def trace(p):
    return '\n'.join('    ' + repr(e)[:200] for e in p.ev if e.kind != 'load')[-3000:]


# ---- what a function changes in what its arguments point to ------------------

def modset(fns, name, seen=()):
    """{argument: set of first fields (None: anything)} written below the arguments of a function"""
    f = next((f for f in fns if f.short == name), None)
    if f is None:
        return None
    d = {i['id']: i for i in f.instrs() if 'id' in i}
    aslot = {'%%%d' % k: k for k in range(len(f.args))}
    out = {}

    def where(r, n=0):
        """[(argument, first field or None)] a pointer may be below of"""
        pth = []
        while r in d and n < 60:
            i, n = d[r], n + 1
            if i['op'] == 'gep':
                pth = list(i['path']) + pth
                r = i['base']
            elif i['op'] in ('phi', 'select'):
                vs = [v for _, v in i['in_']] if i['op'] == 'phi' else [i['a'], i['b']]
                return [(a, fl) for v in vs if v != r for a, fl in where(v, n + 20)]
            elif i['op'] == 'call':
                if re.search(r'::(operator\[\]|at|front|back|operator->|operator\*|begin|end|data)\(', i['callee']) and i['args']:
                    r, pth = i['args'][0], []
                else:
                    return []
            elif i['op'] == 'load':
                r, pth = i['ptr'], []
            elif i['op'] == 'cast':
                r = i['a']
            else:
                return []
        if r in aslot:
            return [(aslot[r], next((q[2] for q in pth if q[0] == 'f'), None))]
        return []
    for i in f.instrs():
        ptrs = []
        if i['op'] == 'store':
            ptrs = [i['ptr']]
            lf = [q[2] for q in i.get('leaf', []) if q[0] == 'f']
        elif i['op'] == 'call':
            lf = []
            if DomEff.PURE.search(i['callee']) or DomEff.LOCAL.search(short(i['callee'])) or i['callee'].startswith(('llvm.lifetime', 'llvm.dbg')):
                continue
            s = short(i['callee'])
            sub_ = modset(fns, s, seen + (name,)) if s not in seen and s != name else None
            for k, (a, ty) in enumerate(zip(i['args'], i['aty'])):
                if ty != 'ptr' or (sub_ is not None and k not in sub_) or (sub_ is None and DomEff.ARG0.match(s) and s != 'std::swap' and k > 0):
                    continue
                if i['callee'].startswith(('llvm.memcpy', 'llvm.memmove')) and k > 0:
                    continue
                ptrs.append(a)
        for q in ptrs:
            for a, fl in where(q):
                out.setdefault(a, set()).add(fl if fl is not None else lf[0] if lf else None)
    return out


class Dom:
    """one domain: graphs, marks and what the functions left as calls change"""

    def __init__(self, name):
        self.name = name
        self.marks = MARKS10.get(name, '')
        ents = [r'^dom_(step|hold|twice|hd|index|ops|goal|pack|unpack|hash|eq)\('] + [m for m in self.marks.split('\n') if m]
        self.fns = dgraphs(name, ents, self.marks, force=FORCE)
        self.g = {f.short: f for f in self.fns}
        self.mods = {}
        for f in self.fns:
            if not f.short.startswith('dom_'):
                self.mods[f.short] = modset(self.fns, f.short) or {}
        self.ex = {}

    def paths(self, n):
        if n not in self.ex:
            self.ex[n] = [p for p in explore(self.g[n], eff=EdgeEff(self.mods)).paths if p.kind in ('ret', 'fall')]
        return self.ex[n]

    def opaque(self, e):
        s = short(e.name)
        if s == 'dom_sink':
            return (s, [])
        if s in self.mods:
            out = []
            for a, fl in self.mods[s].items():
                for x in fl:
                    out.append(e.args[a] if x is None else ('fld', e.args[a], x))
            return (s, out)
        return None


class M(Mem):
    """Mem where calls left alone change only the fields they are known to change"""

    def __init__(self, p, fn, dom, until=None):
        self.dom = dom
        self.apartpairs(fn)
        Mem.__init__(self, p, fn, until=until)

    def apartpairs(self, fn):
        """tiles: the blank moves to another position"""
        self.diff = set()
        if self.dom.name == 'tiles' and len(fn.args) > 2:
            self.diff = {(mk('init', ARG(fn, 2)), mk('init', mk('g', ARG(fn, 1), (('f', 'TilesMdist::State', 'b'),))))}

    def eq(self, a, b):
        r = Mem.eq(self, a, b)
        if r is None and ((a, b) in self.diff or (b, a) in self.diff):
            return False
        return r

    def step(self, k, e):
        if e.kind == 'call':
            o = self.dom.opaque(e)
            if o is not None:
                if e.res is not None and e.res not in self.map:
                    self.map[e.res] = self.canon(e.res)
                ch = [(self.canon(x[1]), x[2]) if isinstance(x, tuple) else (self.canon(x), None) for x in o[1]]
                self.log.append(('op', o[0], tuple(self.canon(x) for x in e.args), k, tuple(ch)))
                return
        Mem.step(self, k, e)

    def touches(self, x, r):
        if x[0] == 'op':
            return any(root(a) == r for a, _ in x[4])
        return Mem.touches(self, x, r)

    def opwrites(self, a, fl, c):
        pa, pc = path(a), path(c)
        if root(a) == root(c) and pc[:len(pa)] == pa and (fl is None or len(pc) > len(pa) and pc[len(pa)][0] == 'f' and pc[len(pa)][2] == fl):
            return True
        if root(a) == root(c) and pa[:len(pc)] == pc:
            return True
        return T[root(c)][0] in ('init', 'fn', 'ld', 'after', 'amb') and reaches(c, a, fl)

    def content(self, c, upto=None):
        n = len(self.log) if upto is None else upto
        for j in range(n - 1, -1, -1):
            x = self.log[j]
            if x[0] == 'op':
                if any(self.opwrites(a, fl, c) for a, fl in x[4]):
                    return mk('after', j, c)
                continue
            v = self.one(x, c, j)
            if v is not None:
                return v
        return mk('init', c)

    def one(self, x, c, n):
        if x[0] == 'lp':
            if ('a', root(c)) in x[1] or ('f', lastfield(c)) in x[1] or any(f[0] == 'f' and any(q[0] == 'f' and (q[1], q[2]) == f[1] for q in path(c)) for f in x[1]):
                return mk('after', n, c)
            return None
        r = self.rel(x[1], c)
        if r == 'ne':
            return None
        if x[0] == 'st':
            return x[2] if r == 'eq' else mk('amb', n, c)
        if x[0] == 'cp':
            if r == 'eq':
                return self.content(x[2], n)
            if isinstance(r, tuple):
                return self.content(self.norm(x[2], r[1]), n)
            return mk('amb', n, c)
        return mk('after', n, c)


def reaches(c, a, fl):
    """c lies behind a pointer held in (field fl of) a"""
    seen = 0
    while seen < 20:
        seen += 1
        r = root(c)
        t = T[r]
        if t[0] in ('init', 'after', 'amb'):
            q = t[-1]
        elif t[0] == 'fn' and t[2]:
            q = t[2][0]
        elif t[0] == 'ld':
            q = t[1]
        else:
            return False
        pa, pq = path(a), path(q)
        if root(q) == root(a) and pq[:len(pa)] == pa and (fl is None or len(pq) > len(pa) and pq[len(pa)][2] == fl):
            return True
        c = q
    return False


class Edges:
    def __init__(self, o, dom):
        self.o, self.d = o, dom
        self.n = dom.name

    def key(self, w):
        return '%s:%s' % (self.n, w)

    def sinks(self, p):
        return [k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'dom_sink']

    # infeasible: a position is never one of the negative operator codes
    def feasible(self, p, m):
        return self.feasible2(p, m, self.d.g['dom_step'])

    def feasible2(self, p, m, f):
        for (kd, a, b), s in p.st.facts.rel.items():
            a, b = m.canon(a), m.canon(b)
            for x, y in ((a, b), (b, a)):
                if T[x][0] == 'init' and T[y][0] == 'c' and isinstance(T[y][1], int) and T[y][1] < 0 and s == frozenset('='):
                    lf = lastfield(T[x][1])
                    if isf(T[x][1], 'State') and root(T[x][1]) == ARG(f, 1):
                        return False
        return True

    def inplace(self, p, m):
        st = next((x for x in m.log if x[0] == 'st' and T[root(x[1])][0] == 'alloca' and isf(x[1], 'Edge', 'state')), None)
        return st is not None and st[2] == ARG(self.d.g['dom_step'], 1)

    def step(self):
        o, f = self.o, self.d.g['dom_step']
        s = ARG(f, 1)
        n = 0
        self.inpl = None
        for p in self.d.paths('dom_step'):
            ks = self.sinks(p)
            if not ks:
                raise AnalysisError('%s: the edge is not handed on' % self.n)
            m = M(p, f, self.d)
            if not self.feasible(p, m):
                continue
            n += 1
            k = ks[0]
            e = p.ev[k]
            tr = lambda: trace(p)
            loc = next((x.loc for x in reversed(p.ev[:k]) if x.loc), None)
            me = M(p, f, self.d, until=k)
            self.isset(p, me, e, loc, tr)
            self.inpl = self.inplace(p, me)
            if self.inpl:
                self.undo(p, m, s, loc, tr)
            else:
                self.parent(p, m, s, loc, tr)
            self.cached(p, me, e, s, loc, tr)
        o.decide(n > 0, 'set', self.key('paths'), None, 'no way through an edge', None)
        if self.inpl:
            f = self.d.g['dom_hold']
            for p in self.d.paths('dom_hold'):
                m = M(p, f, self.d)
                if self.feasible2(p, m, f):
                    self.undo(p, m, ARG(f, 1), None, lambda: trace(p), True)

    def isset(self, p, m, e, loc, tr):
        for w, a in zip(('cost', 'reverse operator', 'reverse cost'), e.args[:3]):
            a = m.canon(a)
            hits = [x for x in m.log if x[0] in ('st', 'cp', 'hv') and root(x[1]) == root(a) and path(x[1])[:len(path(a))] == path(a)]
            hits += [x for x in m.log if x[0] == 'op' for b, fl in x[4] if root(b) == root(a) and path(a)[:len(path(b))] == path(b) and (fl is None or path(a)[len(path(b)):] and path(a)[len(path(b))][2] == fl)]
            fld = {path(x[1])[len(path(a)):] for x in hits if x[0] == 'st'}
            zero = w == 'cost' and fld and all(m.content(gep(a, q)) == const(0) for q in fld) and all(x[0] == 'st' for x in hits)
            self.o.decide(bool(hits), 'set', self.key('%s' % w), loc, 'the edge\'s %s is not set' % w, tr, '%s: the edge\'s %s is set on every path' % (self.n, w))
            self.o.decide(not zero, 'set', self.key('%s:zero' % w), loc, 'the edge costs nothing', tr)

    def writes(self, m, s):
        """cells of the state handed in that are changed: [(cell or (ptr, field), log number)]"""
        out = []
        for n, x in enumerate(m.log):
            if x[0] in ('st', 'cp', 'hv'):
                c = x[1]
                if root(c) == s or reaches(gep(c, (('f', '', '?'),)), s, None):
                    out.append((c, n))
            elif x[0] == 'op':
                for a, fl in x[4]:
                    if root(a) == s or reaches(gep(a, (('f', '', '?'),)), s, None):
                        out.append(((a, fl), n))
        return out

    def parent(self, p, m, s, loc, tr):
        W = [w for w in self.writes(m, s)]
        W = [w for w in W if not self.ownedcopy(p, m, w)]
        self.o.decide(not W, 'parent', self.key('writes'), p.ev[m.log[W[0][1]][3 if m.log[W[0][1]][0] in ('st', 'cp', 'op') else 2]].loc if W else loc, 'applying an operator changes the state it is applied to', tr, '%s: the state an operator is applied to is left alone' % self.n)
        self.shared(p, m, loc, tr)

    def ownedcopy(self, p, m, w):
        return False

    def shared(self, p, m, loc, tr):
        """what is changed behind a shared pointer of the new state was made for it"""
        def src(v, n=0):
            """the shared pointer a reference leads back to"""
            t = T[v]
            while n < 20:
                n += 1
                t = T[v]
                if t[0] in ('pure', 'call', 'fn'):
                    if '__shared_ptr_access' in t[1]:
                        return t[2][0]
                    if not t[2]:
                        return None
                    v = t[2][0]
                elif t[0] == 'op' and t[1].startswith('extractvalue'):
                    v = t[2][0]
                elif t[0] == 'alloca' or t[0] == 'g' and T[t[1]][0] == 'alloca':
                    st = next((e.val for e in reversed(p.ev) if e.kind == 'store' and root(e.ptr) == root(v)), None)
                    if st is None:
                        return None
                    v = st
                else:
                    return None
            return None
        for k, e in enumerate(p.ev):
            mut = None
            if e.kind == 'call' and re.match(r'^std::_Bit_reference::(operator=|flip)', short(e.name)):
                mut = src(e.args[0])
            elif e.kind == 'call' and re.match(r'^std::vector::(push_back|assign|clear|resize|operator=|pop_back|insert|erase|swap)', short(e.name)):
                mut = src(e.args[0])
            elif e.kind == 'store':
                mut = src(e.ptr) if T[root(e.ptr)][0] in ('pure', 'call') else None
            if mut is None:
                continue
            good, made = False, set()
            for x in p.ev[:k]:
                if x.kind != 'call':
                    continue
                sx = short(x.name)
                if sx in ('std::make_shared', 'std::allocate_shared') and x.args:
                    made.add(x.args[0])
                elif re.match(r'^std::shared_ptr::(operator=|shared_ptr|reset|swap)', sx) and x.args and x.args[0] == mut:
                    good = sx.endswith('operator=') and x.args[1] in made or sx.endswith('reset') and len(x.args) > 1
            good = good or mut in made
            self.o.decide(good, 'parent', self.key('shared'), e.loc, 'changes what the new state shares with the one it was made from', tr, '%s: shared parts are copied before they change' % self.n)

    def undo(self, p, m, s, loc, tr, held=False):
        o = self.o
        W = self.writes(m, s)
        ops = [(n, x) for n, x in enumerate(m.log) if x[0] == 'op' and any(root(a) == s for a, _ in x[4])]
        if held:
            ops = [(n, x) for n, x in ops if not re.search('pack', x[1])]
        stack = []
        for n, x in ops:
            if stack and self.inverse(p, m, stack[-1][1], stack[-1][0], x, n):
                stack.pop()
            else:
                stack.append((n, x))
        o.decide(not stack, 'undo', self.key('ops'), p.ev[stack[0][1][3]].loc if stack else loc, '%s is not taken back in reverse order by its inverse' % (stack and stack[0][1][1]), tr, '%s: changes are taken back by their inverse, last first' % self.n)
        cells = []
        for c, n in W:
            if isinstance(c, int) and c not in cells and m.log[n][0] == 'st':
                cells.append(c)
            elif isinstance(c, int) and m.log[n][0] != 'st':
                o.fail('undo', self.key('call'), loc, 'the state is changed in a way that is not taken back', tr)
        for c in cells:
            c0 = self.first(m, c)
            now = m.content(c0)
            self.mend = None
            good = now == mk('init', c0) or self.hidden(m, c0) or self.opsonly(m, c0, now, stack)
            lf = lastfield(c0)
            o.decide(good, 'undo', self.key(lf[1] if lf else '?'), loc, '%s is not restored when the edge goes away' % show(c0), tr, '%s: %s is restored' % (self.n, lf[1] if lf else '?'))

    def first(self, m, c):
        return c

    def opsonly(self, m, c, now, stack):
        return False

    def inverse(self, p, m, x, nx, y, ny):
        if x[1] != y[1]:
            return False
        if self.n == 'pancake':
            return x[2] == y[2]
        if self.n == 'drobot':
            # apply(edge, state, operator): the second gets the reverse operator the first left
            e1, s1, e2, s2, op = x[2][0], x[2][1], y[2][0], y[2][1], y[2][2]
            return e1 == e2 and s1 == s2 and T[op][0] == 'g' and root(op) == root(e1) and isf(op, 'Edge', 'revop') and \
                not any(z[0] == 'st' and m.rel(z[1], op) != 'ne' and root(z[1]) == root(op) and path(z[1])[:1] == path(op) for z in m.log[nx + 1:ny])
        return False

    def hidden(self, m, c):
        """the blank's own slot, which nothing looks at"""
        if self.n != 'tiles':
            return False
        if not isf(c, 'State', 'ts'):
            return False
        b = m.content(mk('g', root(c), (('f', path(c)[0][1], 'b'),)))
        return m.eq(path(c)[-1][1], b) is True

    # estimates kept in states
    def caches(self):
        """{field: initial test}: fields of a state that h() or d() fills in"""
        out = set()
        for p in self.d.paths('dom_hd'):
            s = ARG(self.d.g['dom_hd'], 1)
            for e in p.ev:
                if e.kind == 'store' and root(e.ptr) == s:
                    out.add(path(e.ptr)[0][2])
        return out

    def guards(self):
        out = set()
        s = ARG(self.d.g['dom_hd'], 1)
        for p in self.d.paths('dom_hd'):
            for (kd, a, b), r in p.st.facts.rel.items():
                for x, y in ((a, b), (b, a)):
                    if T[x][0] == 'ld' and root(T[x][1]) == s and y == const(0) and T[x][2] == 0:
                        out.add(path(T[x][1])[0][2])
        return out

    def cached(self, p, m, e, s, loc, tr):
        g = getattr(self, '_g', None)
        if g is None:
            g = self._g = self.guards() & self.caches()
            self._sf = self.caches()
        st = m.canon(e.args[3])
        st = m.content(st) if self.inplace(p, m) and False else st
        stt = next((path(x[1])[len(path(st))][1] for x in m.log if x[0] in ('st', 'cp') and root(x[1]) == root(st) and len(path(x[1])) > len(path(st)) and isf(mk('g', root(st), path(x[1])[:len(path(st)) + 1]), 'State')), 'State')
        for fl in sorted(g):
            v = m.content(m.norm(st, (('f', stt, fl),)))
            neg = T[v][0] == 'c' and isinstance(T[v][1], (int, Fraction)) and T[v][1] < 0
            same = self.whole(m, st, stt, v, fl)
            self.o.decide(neg or same, 'estimate', self.key(fl), loc, 'the new state keeps the %s estimated for the old one' % fl, tr, '%s: the cached %s is forgotten with every change' % (self.n, fl))

    def whole(self, m, st, stt, v, fl):
        """the cached value and all the rest come from one and the same state"""
        def src(v, fl):
            t = T[v]
            if t[0] not in ('init', 'after') or not path(t[-1]) or path(t[-1])[-1][:1] + path(t[-1])[-1][2:] != ('f', fl):
                return None
            return t[:-1], root(t[-1]), path(t[-1])[:-1]
        x = src(v, fl)
        fields = {path(x[1])[len(path(st))][2] for x in m.log if x[0] in ('st', 'cp', 'hv') and root(x[1]) == root(st) and path(x[1])[:len(path(st))] == path(st) and len(path(x[1])) > len(path(st)) and path(x[1])[len(path(st))][0] == 'f'}
        fields |= {fl for x in m.log if x[0] == 'op' for a, fl in x[4] if a == st and fl}
        return x is not None and all(src(m.content(m.norm(st, (('f', stt, f),))), f) == x for f in fields - self._sf)


# ---- reverse operators --------------------------------------------------------

def rewrite(v, f, memo=None):
    """rebuild a canonical value bottom up through f"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    memo[v] = v
    t = T[v]
    R = lambda x: rewrite(x, f, memo)
    if t[0] == 'sum':
        r = fsum([(R(x), k) for x, k in t[1]], t[2])
    elif t[0] == 'g':
        b = R(t[1])
        bt = T[b]
        pth = tuple((x[0], R(x[1])) + tuple(x[2:]) if x[0] == 'i' else x for x in t[2])
        r = mk('g', bt[1], bt[2] + pth) if bt[0] == 'g' else mk('g', b, pth)
    elif t[0] == 'init':
        r = mk('init', R(t[1]))
    elif t[0] == 'cast':
        r = mk('cast', t[1], R(t[2]), *t[3:])
    elif t[0] == 'op':
        r = mk('op', t[1], tuple(R(x) if isinstance(x, int) else x for x in t[2]))
    elif t[0] in ('fn',):
        r = mk('fn', t[1], tuple(R(x) for x in t[2]), *t[3:])
    else:
        r = v
    r = f(r)
    memo[v] = r
    return r


def neg(v):
    return fsum([(v, -1)])


def gridlemma(v):
    """a move and the move stored as its reverse"""
    t = T[v]
    if t[0] != 'init':
        return v
    c = t[1]
    P = path(c)
    if P and P[-1][0] == 'i' and len(P) > 1 and P[-2][0] == 'f' and P[-2][2] == 'rev':
        k = T[P[-1][1]]         # rev[rev[x]] = x
        if k[0] == 'init' and path(k[1]) and path(k[1])[:-1] == P[:-1] and root(k[1]) == root(c):
            return path(k[1])[-1][1]
    if len(P) >= 3 and P[-1][0] == 'f' and P[-2][0] == 'i' and P[-3][0] == 'f' and P[-3][2] == 'mvs':
        k = T[P[-2][1]]
        if k[0] == 'init' and path(k[1]) and path(k[1])[-1][0] == 'i' and len(path(k[1])) > 1 and path(k[1])[-2][2] == 'rev':
            m = mk('init', mk('g', T[c][1], T[c][2][:-2] + (('i', path(k[1])[-1][1]), P[-1])))
            return neg(m) if P[-1][2] in ('delta', 'dx', 'dy') else m if P[-1][2] == 'cost' else v
    return v


def tilelemma(v):
    """the table of changes holds differences of distances"""
    t = T[v]
    if t[0] == 'init' and len(path(t[1])) >= 4:
        P = path(t[1])
        if P[-4][0] == 'f' and P[-4][2] == 'incr' and all(x[0] == 'i' for x in P[-3:]):
            md = lambda k: mk('init', mk('g', T[t[1]][1], T[t[1]][2][:-4] + (P[-4][:2] + ('md',), P[-3], k)))
            return fsum([(md(P[-1]), 1), (md(P[-2]), -1)])
    return v


LEMMA = {'gridnav': gridlemma, 'vacuum': gridlemma, 'tiles': tilelemma}
REVERSIBLE = {'tiles', 'pancake', 'gridnav', 'vacuum', 'visnav'}


class Reverse:
    def __init__(self, o, dom):
        self.o, self.d, self.n = o, dom, dom.name
        self.key = lambda w: '%s:%s' % (self.n, w)

    def contradicts(self, m, p, R):
        seen = {}
        for (kd, a, b), s in p.st.facts.rel.items():
            a, b = R(m.canon(a)), R(m.canon(b))
            for x, y in ((a, b), (b, a)):
                # a stored reverse is a move, never one of the special operators
                t = T[x]
                if t[0] == 'init' and path(t[1]) and path(t[1])[-1][0] == 'i' and len(path(t[1])) > 1 and path(t[1])[-2][2] == 'rev' and T[y][0] == 'c' and s == frozenset('='):
                    return True
            D = sub(a, b)
            if T[D][0] == 'c':
                v = T[D][1]
                if ('<' if v < 0 else '>' if v > 0 else '=') not in s:
                    return True
            if a > b:
                a, b, s = b, a, frozenset({'<': '>', '>': '<', '=': '='}[x] for x in s)
            seen[(a, b)] = seen.get((a, b), frozenset('<=>')) & s
            if not seen[(a, b)]:
                return True
        return False

    def run(self):
        o, f = self.o, self.d.g['dom_twice']
        s = ARG(f, 1)
        lem = LEMMA.get(self.n, lambda v: v)
        R = lambda v: rewrite(v, lem)
        n = 0
        for p in self.d.paths('dom_twice'):
            k = next(k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'dom_sink')
            m = M(p, f, self.d, until=k)
            e2 = root(m.canon(p.ev[k].args[0]))
            rev = [x for x in m.log if x[0] in ('st', 'op') and T[root(x[1] if x[0] == 'st' else x[2][0])][0] == 'alloca' and root(x[1] if x[0] == 'st' else x[2][0]) != e2]
            c = [x[1] for x in rev if x[0] == 'st' and any(q[0] == 'f' and q[2] == 'revop' for q in path(x[1]))]
            if not c:
                raise AnalysisError('%s: the first edge cannot be told' % self.n)
            e1 = root(c[-1])
            revop = m.content(c[-1])
            if self.nop(revop) or self.contradicts(m, p, R) or not Edges(o, self.d).feasible2(p, m, f):
                continue
            n += 1
            tr = lambda: trace(p)
            loc = next((x.loc for x in reversed(p.ev[:k]) if x.loc and 'fns.hpp' not in str(x.loc)), None)
            self.costs(p, m, e1, e2, R, loc, tr)
            self.back(p, m, e1, e2, s, f, R, loc, tr)
        o.decide(n > 0, 'reverse', self.key('none'), None, 'no operator has a reverse', None)

    def nop(self, v):
        t = T[v]
        if t[0] == 'c':
            return True
        return t[0] == 'init' and T[root(t[1])][0] == 'glob'

    def eqs(self, p, m):
        """pairs known to be equal"""
        for (kd, a, b), s in p.st.facts.rel.items():
            if s == frozenset('='):
                yield m.canon(a), m.canon(b)

    def same(self, p, m, a, b, R):
        a, b = R(a), R(b)
        return a == b or any({R(x), R(y)} == {a, b} for x, y in self.eqs(p, m))

    def costs(self, p, m, e1, e2, R, loc, tr):
        """going back costs what was claimed"""
        def cells(e, w):
            return {path(x[1])[1:]: x[1] for x in m.log if x[0] == 'st' and root(x[1]) == e and path(x[1]) and path(x[1])[0][0] == 'f' and path(x[1])[0][2] == w}
        r, c = cells(e1, 'revcost'), cells(e2, 'cost')
        bad = None
        for q in r:
            if q not in c:
                bad = q
                continue
            a, b = m.content(r[q]), m.content(c[q])
            if not self.same(p, m, a, b, R) and not self.samecost(p, m, e1, a, b):
                bad = q
        self.o.decide(bad is None and r, 'reverse', self.key('cost'), loc, 'taking the reverse operator does not cost the claimed reverse cost', tr, '%s: the reverse costs what was claimed' % self.n)

    def samecost(self, p, m, e1, a, b):
        """a graph edge and its reverse were built with one distance"""
        if self.n != 'visnav':
            return False
        ta, tb = T[a], T[b]
        return ta[0] == tb[0] == 'init' and isf(ta[1], 'Edge', 'dist') and isf(tb[1], 'Edge', 'dist') and self.opposite(p, m, ta[1], tb[1])

    def opposite(self, p, m, x, y):
        """the ends of the two edges the cells belong to are known to be swapped"""
        A = lambda c, w: mk('init', mk('g', T[c][1], T[c][2][:-1] + (T[c][2][-1][:2] + (w,),)))
        for (u, v) in self.eqs(p, m):
            for a, b in ((u, v), (v, u)):
                if a == A(x, 'src') and b == A(y, 'dst'):
                    # y is one of the edges kept at the vertex x leads to
                    return self.mentions(root(y), A(x, 'dst'))
        return False

    def mentions(self, v, w, n=0):
        if v == w:
            return True
        t = T[v]
        if n > 30:
            return False
        if t[0] == 'fn':
            return any(self.mentions(x, w, n + 1) for x in t[2])
        if t[0] == 'g':
            return self.mentions(t[1], w, n + 1) or any(x[0] == 'i' and self.mentions(x[1], w, n + 1) for x in t[2])
        if t[0] == 'init':
            return self.mentions(t[1], w, n + 1)
        return False

    def back(self, p, m, e1, e2, s, f, R, loc, tr):
        if self.n == 'pancake':
            st = [x for x in m.log if x[0] == 'op' and x[4]]
            good = len(st) == 2 and st[0][1] == st[1][1] and st[0][2] == st[1][2]
            self.o.decide(good, 'reverse', self.key('state'), loc, 'the reverse operator does not turn the same cakes back', tr, 'pancake: turning twice')
            return
        caches = Edges(self.o, self.d).caches()
        # fields of the state that were assigned
        names = {}
        for x in m.log:
            if x[0] != 'st':
                continue
            P = path(x[1])
            if root(x[1]) == s:
                names[P] = None
            elif root(x[1]) in (e1, e2) and len(P) > 1 and P[0][0] == 'f' and P[0][2] == 'state':
                names[P[1:]] = None
        inpl = next((x[2] == s for x in m.log if x[0] == 'st' and root(x[1]) == e2 and len(path(x[1])) == 1 and isf(x[1], 'Edge', 'state')), False)
        st0 = next((P[:1] for x in m.log if x[0] in ('st', 'cp') for P in [path(x[1])] if root(x[1]) == e2 and P and P[0][2] == 'state'), None)
        for q in names:
            if q and q[0][2] in caches:
                continue
            a = m.content(mk('g', s, q) if inpl else mk('g', e2, st0 + q))
            b = mk('init', mk('g', s, q))
            good = self.same(p, m, a, b, R)
            if not good and self.n == 'tiles':
                good = inpl and Edges(self.o, self.d).hidden(m, mk('g', s, q))
            if not good and self.n == 'visnav' and q[0][2] == 'vert':
                # the operator was one of the state's own: it starts where the state is
                op = [u for pair in self.eqs(p, m) for u in pair if T[u][0] == 'init' and isf(T[u][1], 'Edge', 'src') and self.mentions(u, ARG(f, 2))]
                good = any(self.same(p, m, a, u, R) for u in op)
            self.o.decide(good, 'reverse', self.key(q[0][2] if q else '?'), loc, 'taking the reverse operator does not lead back: %s' % (q[0][2] if q else '?'), tr, '%s: %s is back where it was' % (self.n, q[0][2] if q else '?'))


def facts_of(p, m):
    return {(m.canon(a), m.canon(b)): s for (kd, a, b), s in p.st.facts.rel.items()}


def terms(v):
    t = T[v]
    return [x for x, _ in t[1]] if t[0] == 'sum' else [v]


def need(fs):
    if not fs:
        raise AnalysisError('a function that fills a table is missing')
    return fs


def lemmas(o, name):
    """what the reverse and estimate rules take for granted about the tables"""
    D = lambda rx: [f for f in dgraphs(name, [rx], '', force=FORCE)]
    if name in ('gridnav', 'vacuum'):
        dom = {'gridnav': 'GridNav', 'vacuum': 'Vacuum'}[name]
        for f in D('^%s::%s\\(' % (dom, dom)):
            n = 0
            for p in explore(f, eff=DomEff()).paths:
                m = Mem(p, f)
                F = facts_of(p, m)
                for x in m.log:
                    if x[0] != 'st' or not any(q[0] == 'f' and q[2] == 'rev' for q in path(x[1])):
                        continue
                    n += 1
                    i, j = path(x[1])[-1][1], x[2]
                    good = True
                    for w in ('dx', 'dy'):
                        hit = False
                        for (a, b), s in F.items():
                            if s != frozenset('='):
                                continue
                            S = T[sub(a, b)]
                            if S[0] == 'sum' and S[2] == 0 and len(S[1]) == 2 and abs(S[1][0][1]) == 1 and S[1][0][1] == S[1][1][1]:
                                cells = [T[y][-1] for y, k in S[1] if T[y][0] in ('init', 'after', 'amb')]
                                idx = {path(c)[-2][1] for c in cells if len(path(c)) >= 2 and path(c)[-1][2] == w and path(c)[-2][0] == 'i'}
                                hit |= idx == {i, j}
                        good &= hit
                    o.decide(good, 'table', '%s:rev' % name, p.ev[x[3]].loc, 'a move is stored as the reverse of one it does not undo', lambda: trace(p), '%s: the stored reverse of a move has opposite displacements' % name)
            o.decide(n > 0, 'table', '%s:rev:none' % name, f.blocks[0][0].get('loc'), 'no reverse moves are stored', None)
        # the width is what locations are numbered with
        ws = set()
        for f in D('^dom_index'):
            for p in explore(f, eff=DomEff()).paths:
                r = T[Mem(p, f).canon(p.ret)] if p.kind == 'ret' and p.ret is not None else ('?',)
                for y in [y for y, k in r[1]] if r[0] == 'sum' else []:
                    if T[y][0] == 'op' and T[y][1] == 'mul':
                        ws |= {path(T[z][1])[-1][2] for z in T[y][2] if T[z][0] == 'init' and path(T[z][1])}
        isw = lambda v: T[v][0] == 'init' and path(T[v][1]) and path(T[v][1])[-1][2] in ws
        for f in D(r'^GridMap::Move::Move\(GridMap'):
            for p in explore(f, eff=DomEff()).paths:
                if p.kind not in ('ret', 'fall'):
                    continue
                m = Mem(p, f)
                this = mk('arg', 0, f.args[0][0])
                st = {path(x[1])[-1][2]: x for x in m.log if x[0] == 'st' and root(x[1]) == this and len(path(x[1])) == 1}
                dx, dy, de = (m.content(st[w][1]) if w in st else None for w in ('dx', 'dy', 'delta'))
                tr = lambda: trace(p)
                good = de is not None and dx is not None and dy is not None
                if good:
                    r = T[sub(de, dx)]
                    v = sub(de, dx)
                    t = T[v]
                    good = v == const(0) or t[0] == 'op' and t[1] == 'mul' and dy in t[2] and dx != dy and all(x == dy or isw(x) for x in t[2])
                o.decide(good, 'table', '%s:delta' % name, f.blocks[0][0].get('loc'), 'the displacement of a move is not made of its row and column displacement', tr, '%s: delta = dx + width * dy' % name)
                F = facts_of(p, m)
                z = {}
                for w, v in (('dx', dx), ('dy', dy)):
                    r = F.get((v, const(0))) or F.get((const(0), v))
                    z[w] = None if r is None else r == frozenset('=')
                cost = m.content(st['cost'][1]) if 'cost' in st else None
                diag = z['dx'] is False and z['dy'] is False
                good = cost is not None and (cost == const(1)) == (not diag) and (diag or True in z.values())
                if good and diag:
                    t = T[cost]
                    good = t[0] == 'fn' and short(t[1]) == 'sqrt' and t[2] == (const(2),) or t[0] == 'c' and abs(float(t[1]) - 2 ** .5) < 1e-12
                o.decide(good, 'table', '%s:movecost' % name, f.blocks[0][0].get('loc'), 'a move does not cost one along an axis and the square root of two across', tr, '%s: cost of a move' % name)
    if name == 'tiles':
        for f in need(D('^TilesMdist::initincr') or D('^TilesMdist::TilesMdist')):
            n = 0
            for p in explore(f, eff=DomEff()).paths:
                m = Mem(p, f)
                for x in m.log:
                    if x[0] == 'st' and any(q[0] == 'f' and q[2] == 'incr' for q in path(x[1])):
                        n += 1
                        o.decide(x[2] == tilelemma(mk('init', x[1])), 'table', 'tiles:incr', p.ev[x[3]].loc, 'a stored change of distance is not the difference of the two distances', lambda: trace(p), 'tiles: stored changes are differences of distances')
            o.decide(n > 0, 'table', 'tiles:incr:none', None, 'no changes of distance are stored', None)
    if name == 'segments':
        for f in D('^Segments::Oper::reverse'):
            this = mk('arg', 0, f.args[0][0])
            for p in explore(f, eff=DomEff()).paths:
                m = Mem(p, f)
                st = {path(x[1])[-1][2]: x[2] for x in m.log if x[0] == 'st' and T[root(x[1])][0] == 'alloca' and path(x[1])}
                if p.kind not in ('ret', 'fall') or not st or not any(root(T[y][1]) == this for v in st.values() for y in terms(v) if T[y][0] == 'init'):
                    continue
                good = True
                for w, k in (('op', 1), ('seg', 1), ('delta', -1), ('dy', -1)):
                    t = T[st[w]] if w in st else ('?',)
                    if k == 1:
                        good &= t[0] == 'init' and root(t[1]) == this and path(t[1])[-1][2] == w
                    else:
                        good &= t[0] == 'sum' and t[2] == 0 and len(t[1]) == 1 and t[1][0][1] == -1 and T[t[1][0][0]][0] == 'init' and path(T[t[1][0][0]][1])[-1][2] == w
                o.decide(good, 'reverse', 'segments:reverse', f.blocks[0][0].get('loc'), 'the reverse of moving a segment does not undo its displacement', lambda: trace(p), 'segments: the reverse moves the same segment the other way')
    if name == 'visnav':
        for f in need(D('^VisGraph::addedge')):
            for p in explore(f, eff=DomEff()).paths:
                if p.kind not in ('ret', 'fall'):
                    continue
                E, push = {}, []
                m = Mem(p, f)
                tmp = {}
                for k, e in enumerate(p.ev):
                    if e.kind == 'store' and T[root(e.ptr)][0] == 'alloca' and path(e.ptr):
                        tmp.setdefault(root(e.ptr), {})[path(e.ptr)[-1][2]] = m.canon(e.val)
                    if e.kind == 'call' and re.search(r'vector::(push_back|emplace_back)', short(e.name)) and root(e.args[1]) in tmp:
                        push.append((m.canon(e.args[0]), dict(tmp[root(e.args[1])])))
                good = len(push) == 2
                if good:
                    (v0, a), (v1, b) = push
                    good = a.get('src') == b.get('dst') and a.get('dst') == b.get('src') and a.get('src') != a.get('dst') and a.get('dist') == b.get('dist')
                    at = lambda v, w: any(T[q][0] == 'fn' and w in T[q][2] for q in [root(v)])
                    good &= at(v0, a.get('src')) and at(v1, b.get('src'))
                o.decide(good, 'table', 'visnav:addedge', f.blocks[0][0].get('loc'), 'an edge of the visibility graph is not kept at both of its ends', lambda: trace(p), 'visnav: edges are kept at both ends with one length')


# ---- incremental estimates -----------------------------------------------------

def estimates(o, dom):
    f = dom.g['dom_step']
    s = ARG(f, 1)
    for p in dom.paths('dom_step'):
        k = next(k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'dom_sink')
        m = M(p, f, dom, until=k)
        if not Edges(o, dom).feasible(p, m):
            continue
        tr = lambda: trace(p)
        hc = next((x[1] for x in m.log if x[0] == 'st' and root(x[1]) == s and path(x[1]) and path(x[1])[-1][0] == 'f' and path(x[1])[-1][2] == 'h'), None)
        ch = [x for x in m.log if x[0] == 'st' and root(x[1]) == s and path(x[1])[0][2] != 'h'] + [x for x in m.log if x[0] == 'op' and x[4]]
        loc = next((x.loc for x in reversed(p.ev[:k]) if x.loc and 'fns.hpp' not in str(x.loc)), None)
        if dom.name == 'tiles':
            D = sub(m.content(hc), mk('init', hc)) if hc is not None else const(0)
            mv = [x for x in m.log if x[0] == 'st' and root(x[1]) == s and path(x[1])[0][2] == 'ts']
            want = []
            for x in mv:
                t = T[x[2]]
                if t[0] == 'init' and isf(t[1], 'State', 'ts'):
                    md = lambda q: mk('init', mk('g', ARG(f, 0), (('f', 'TilesMdist', 'md'), ('i', x[2]), ('i', q))))
                    want.append((md(path(x[1])[-1][1]), 1))
                    want.append((md(path(t[1])[-1][1]), -1))
            good = rewrite(D, tilelemma) == fsum(want) if want or D != const(0) else True
            o.decide(good and bool(mv) == bool(ch), 'estimate', 'tiles:h', loc, 'the estimate does not change by what the moved tile\'s distance changes', tr, 'tiles: the estimate follows the moved tile')
        elif dom.name == 'pancake':
            L = m.log
            fl = [n for n, x in enumerate(L) if x[0] == 'op' and x[4]]
            gp = [(n, x) for n, x in enumerate(L) if x[0] == 'op' and x[1] == 'Pancake::gap']
            gv = {}
            for e in p.ev[:k]:
                if e.kind == 'call' and short(e.name) == 'Pancake::gap':
                    gv[len(gv)] = e
            good = len(fl) == 1 and len(gp) >= 2
            if good:
                val = {}
                for q, (n, x) in enumerate(gp):
                    if x[2][1] == L[fl[0]][2][1]:
                        val['was' if n < fl[0] else 'has'] = gv[q].res
                good = set(val) == {'was', 'has'}
            if good:
                D = sub(m.content(hc), mk('init', hc)) if hc is not None else const(0)
                for w in (0, 1):
                    for h in (0, 1):
                        asg = {val['was']: w, val['has']: h, m.canon(val['was']): w, m.canon(val['has']): h}
                        if possible(p, asg):
                            good &= evalv(D, asg) == h - w
            o.decide(good, 'estimate', 'pancake:h', loc, 'the estimate does not change by the gap made or closed below the turned cakes', tr, 'pancake: the estimate follows the one gap that changes')


def evalv(v, asg):
    """number a value stands for when some are given, or None"""
    if v in asg:
        return asg[v]
    t = T[v]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'cast':
        return evalv(t[2], asg)
    if t[0] == 'not':
        r = evalv(t[1], asg)
        return None if r is None else int(not r)
    if t[0] == 'sum':
        r = [(evalv(x, asg), k) for x, k in t[1]]
        return None if any(x is None for x, _ in r) else sum(x * k for x, k in r) + t[2]
    if t[0] == 'cmp':
        a, b = evalv(t[2], asg), evalv(t[3], asg)
        return None if a is None or b is None else int(('<' if a < b else '>' if a > b else '=') in t[1])
    if t[0] == 'op' and t[1] in ('xor', 'or', 'and') and len(t[2]) == 2:
        a, b = (evalv(x, asg) for x in t[2])
        return None if a is None or b is None else {'xor': a ^ b, 'or': a | b, 'and': a & b}[t[1]]
    return None


def possible(p, asg):
    for v, b in p.st.facts.b.items():
        r = evalv(v, asg)
        if r is not None and bool(r) != bool(b):
            return False
    for (kd, a, b), s in p.st.facts.rel.items():
        x, y = evalv(a, asg), evalv(b, asg)
        if x is not None and y is not None and ('<' if x < y else '>' if x > y else '=') not in s:
            return False
    return True


def phisum(f, p, a, b):
    """what the sum of two counters that move towards or away from each other always is, or None"""
    d = defs(f)
    tot, step = [], 0
    start = {i: v for e in p.ev if e.kind == 'loop' for i, v in (e.args or [])}
    for v in (a, b):
        t = T[v]
        i = d.get(t[1]) if t[0] == 'phi' else None
        if i is None or i['op'] != 'phi' or len(start.get(t[1], [])) != 1:
            return None
        tot.append(start[t[1]][0])
        ks = set()
        for _, x in i['in_']:
            y = d.get(x)
            if y is not None and y['op'] == 'bin' and y['kind'] in ('add', 'sub') and y['ops'][0] == i['id'] and re.match(r'^i:-?\d+$', y['ops'][1]):
                ks.add(int(y['ops'][1][2:]) * (1 if y['kind'] == 'add' else -1))
        if len(ks) != 1:
            return None
        step += ks.pop()
    return fsum([(x, 1) for x in tot]) if step == 0 else None


def pancake(o, dom):
    """turning cakes swaps every position with its mirror image"""
    f = next((f for f in dgraphs('pancake', [r'^Pancake::State::flip'], '', force=FORCE)), None)
    if f is None:
        raise AnalysisError('pancake: no flip')
    n = 0
    this = mk('arg', 0, f.args[0][0])
    op = mk('arg', 1, f.args[1][0])
    mirror = lambda p, a, b: sub(fsum([(a, 1), (b, 1)]), op) == const(0) or phisum(f, p, a, b) == op
    for p in explore(f, eff=DomEff()).paths:
        m = Mem(p, f)
        st = [x for x in m.log if x[0] == 'st' and root(x[1]) == this]
        sw = [e for e in p.ev if e.kind == 'call' and short(e.name) in ('std::swap', 'std::iter_swap', 'std::reverse') and root(m.canon(e.args[0])) == this]
        if not st and not sw:
            continue
        n += 1
        good = True
        if st:
            idx = [path(x[1])[-1][1] for x in st]
            good = len(st) == 2 and mirror(p, idx[0], idx[1])
            if good:
                src = [T[x[2]] for x in st]
                good = all(t[0] in ('init', 'after') for t in src) and [path(t[-1])[-1][1] for t in src] == idx[::-1]
        for e in sw:
            a, b = (path(m.canon(x)) for x in e.args[:2])
            last = lambda q: fsum([(x[1], 1) for x in q if x[0] == 'i'])
            if short(e.name) == 'std::reverse':
                good &= last(a) == const(0) and sub(last(b), op) == const(1)
            else:
                good &= mirror(p, last(a), last(b))
        loc = p.ev[st[0][3]].loc if st else sw[0].loc
        o.decide(good, 'reverse', 'pancake:flip', loc, 'turning does not exchange a position with its mirror image', lambda: trace(p), 'pancake: turning exchanges mirror positions')
    o.decide(n > 0, 'reverse', 'pancake:flip:none', f.blocks[0][0].get('loc'), 'turning changes nothing', None)


def linear(v):
    """(constant, factor) of a number that is linear in one stack size"""
    t = T[v]
    if t[0] == 'c':
        return Fraction(t[1]), Fraction(0)
    if t[0] == 'cast':
        return linear(t[2])
    if t[0] == 'sum':
        a, b = Fraction(t[2]), Fraction(0)
        for x, k in t[1]:
            r = linear(x)
            if r is None:
                return None
            a, b = a + r[0] * k, b + r[1] * k
        return a, b
    if t[0] in ('fn', 'call', 'pure') and short(t[1]).endswith('::size'):
        return Fraction(0), Fraction(1)
    return None


def drobot(o):
    """what every operator does and what it leaves as its reverse"""
    f = next(f for f in dgraphs('drobot', [r'^DockRobot::Edge::apply'], MARKS10['drobot'], force=FORCE))
    this, s, op = (mk('arg', k, f.args[k][0]) for k in range(3))
    NAMES = ['None', 'Push', 'Pop', 'Load', 'Unload', 'Move']
    BACK = {'Push': 'Pop', 'Pop': 'Push', 'Load': 'Unload', 'Unload': 'Load', 'Move': 'Move'}
    got = {}
    for p in explore(f, eff=EdgeEff({})).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        ty = None
        for (kd, a, b), r in p.st.facts.rel.items():
            for x, y in ((a, b), (b, a)):
                if T[x][0] == 'ld' and root(T[x][1]) == op and path(T[x][1])[-1][2] == 'type' and T[y][0] == 'c' and r == frozenset('='):
                    ty = NAMES[T[y][1]]
        tr = lambda: trace(p)
        loc = next((e.loc for e in p.ev if e.kind in ('call', 'store') and e.loc), None)
        if ty is None:
            o.fail('reverse', 'drobot:type', loc, 'an operator is applied whatever its kind', tr)
            continue
        D = lambda c, w, smp=None: o.decide(c, 'reverse', 'drobot:%s:%s' % (ty, w), loc, 'dock robot %s: %s' % (ty.lower(), w), tr, 'drobot: %s' % (smp or ty))
        val = lambda obj, *names: p.value(gep(obj, tuple(('f', {'revop': 'DockRobot::Edge', 'cost': 'DockRobot::Edge', 'revcost': 'DockRobot::Edge'}.get(n, '?'), n) for n in names)))
        last = {}
        for k, e in enumerate(p.ev):
            if e.kind == 'store' and root(e.ptr) == this:
                last[tuple(q[2] for q in path(e.ptr) if q[0] == 'f')] = (e.val, k)
        get = lambda *w: last.get(w, (None, None))[0]
        rty = get('revop', 'type')
        D(rty is not None and T[rty][0] == 'c' and NAMES[T[rty][1]] == BACK[ty], 'is not taken back by %s' % BACK[ty].lower(), '%s is taken back by %s' % (ty, BACK[ty]))
        calls = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name).startswith('DockRobot::Loc::')]
        nm = [short(e.name).split('::')[-1] for _, e in calls]
        ev = {n: (k, e) for n, (k, e) in zip(nm, calls)}
        W = {path(e.ptr)[0][2]: e.val for e in p.ev if e.kind == 'store' and root(e.ptr) == s}
        ox = [e.val for e in p.ev if e.kind == 'load' and root(e.ptr) == op and path(e.ptr)[-1][2] == 'x']
        oy = [e.val for e in p.ev if e.kind == 'load' and root(e.ptr) == op and path(e.ptr)[-1][2] == 'y']
        strip = lambda v: strip(T[v][2]) if v is not None and T[v][0] == 'cast' else v
        isx, isy = (lambda v: strip(v) in [strip(x) for x in ox]), (lambda v: strip(v) in [strip(x) for x in oy])
        ld = lambda w: [e.val for e in p.ev if e.kind == 'load' and root(e.ptr) == s and path(e.ptr)[0][2] == w and len(path(e.ptr)) == 1]
        mut = [n for n in nm if n in ('push', 'pop', 'addcrane', 'rmcrane')]
        C, RC = get('cost'), get('revcost')
        if ty == 'Push':
            D(mut == ['rmcrane', 'push'] and isx(ev['rmcrane'][1].args[1]) and ev['push'][1].args[1] == ev['rmcrane'][1].res and isy(ev['push'][1].args[2]), 'the crane\'s box is not what is put on the pile')
            fp = ev.get('findpile')
            D(fp is not None and 'push' in ev and fp[0] > ev['push'][0] and strip(get('revop', 'x')) == strip(fp[1].res), 'the pile to take the box from again is not looked up after the push')
            if fp is not None:
                b = strip(fp[1].args[1])
                new = any(r <= frozenset('=>') and self_is(a, oy) and is_call(strip(bb), '::size') or r <= frozenset('<=') and self_is(bb, oy) and is_call(strip(a), '::size') for (kd, a, bb), r in p.st.facts.rel.items())
                old = T[b][0] == 'ld' and any(e.kind == 'load' and e.val == b and e_before(p, e, 'push') for e in p.ev)
                D(new and 'rmcrane' in ev and b == strip(ev['rmcrane'][1].res) or not new and old, 'the pile to take the box from again is looked up by the wrong box')
        elif ty == 'Pop':
            D(mut == ['pop', 'addcrane'] and isx(ev['pop'][1].args[1]) and ev['addcrane'][1].args[1] == ev['pop'][1].res, 'the top box is not what the crane takes')
            fc = ev.get('findcrane')
            D(fc is not None and 'addcrane' in ev and fc[0] > ev['addcrane'][0] and 'pop' in ev and fc[1].args[1] == ev['pop'][1].res and strip(get('revop', 'x')) == strip(fc[1].res), 'the crane that holds the box is not looked up')
            y = strip(get('revop', 'y')) if get('revop', 'y') is not None else None
            fp = ev.get('findpile')
            if fp is not None:
                D('pop' in ev and fp[0] > ev['pop'][0] and y == strip(fp[1].res), 'the pile to put the box back on is not looked up after the pop')
            else:
                sz = [e for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'std::vector::size' and 'pop' in ev and k > ev['pop'][0]]
                one = any(r == frozenset('=') and const(1) in (a, b) for (kd, a, b), r in p.st.facts.rel.items())
                D(one and any(y == strip(e.res) for e in sz), 'an emptied pile is not put back as a new one')
        elif ty == 'Load':
            D(mut == ['rmcrane'] and isx(ev['rmcrane'][1].args[1]) and W.get('rbox') is not None and strip(W['rbox']) == strip(ev['rmcrane'][1].res), 'the robot does not get the crane\'s box')
        elif ty == 'Unload':
            D(mut == ['addcrane'] and strip(ev['addcrane'][1].args[1]) in [strip(v) for v in ld('rbox')] and W.get('rbox') == const(-1), 'the crane does not get the robot\'s box')
            fc = ev.get('findcrane')
            D(fc is not None and 'addcrane' in ev and fc[0] > ev['addcrane'][0] and strip(fc[1].args[1]) == strip(ev['addcrane'][1].args[1]) and strip(get('revop', 'x')) == strip(fc[1].res), 'the crane that holds the box is not looked up')
        elif ty == 'Move':
            first = ld('rloc')[:1]
            D(not mut and 'rloc' in W and isx(W['rloc']), 'the robot is not where it was sent')
            D(get('revop', 'x') in first, 'the way back does not lead to where the robot was')
            def adj(v):
                """(row, column) of a matrix element"""
                t = T[v]
                if t[0] != 'ld':
                    return None
                c = T[root(t[1])]
                if c[0] not in ('call', 'pure') or not c[2]:
                    return None
                r = T[root(c[2][0])]
                if r[0] not in ('call', 'pure') or len(r[2]) < 2 or not path(r[2][0]) or path(r[2][0])[-1][2] != 'adj':
                    return None
                return strip(r[2][1]), strip(c[2][1])
            a, b = adj(C) if C is not None else None, adj(RC) if RC is not None else None
            src = first[0] if first else None
            D(a is not None and b is not None and a == (strip(src), a[1]) and isx(a[1]) and b == a[::-1], 'the two ways do not cost what the map says')
            # boxes away from their goals
            nl = W.get('nleft')
            delta = 0
            if nl is not None:
                d = T[sub(nl, ld('nleft')[0])] if ld('nleft') else ('?',)
                delta = d[1] if d[0] == 'c' else None
            goal = {}
            for (kd, x, y), r in p.st.facts.rel.items():
                for u, v in ((x, y), (y, x)):
                    g = T[strip(u)]
                    if g[0] == 'ld' and T[root(g[1])][0] in ('call', 'pure') and any(path(z) and path(z)[-1][2] == 'goal' for z in T[root(g[1])][2][:1]):
                        if strip(v) == strip(src):
                            goal['src'] = r == frozenset('=')
                        elif isx(v):
                            goal['dst'] = r == frozenset('=')
            want = 1 if goal.get('src') else -1 if goal.get('dst') and goal.get('src') is False else 0
            D(delta == want, 'the number of boxes away from their goals is not kept')
            car = W.get('boxlocs')
            bl = [e for e in p.ev if e.kind == 'store' and T[root(e.ptr)][0] in ('call', 'pure') and any(path(z) and path(z)[-1][2] == 'boxlocs' for z in T[root(e.ptr)][2][:1])]
            D(bool(bl) == ('src' in goal) and all(isx(e.val) for e in bl), 'the carried box is not moved along')
        if ty != 'Move' and C is not None and RC is not None:
            piles = [(linear(C), linear(RC))]
            D(None not in piles[0], 'costs that cannot be told')
            got.setdefault(ty, set()).add(piles[0])
        elif ty != 'Move':
            D(False, 'no cost')
        if ty != 'Move':
            D('nleft' not in W and 'rloc' not in W, 'changes more than it says')
    o.decide(set(got) == {'Push', 'Pop', 'Load', 'Unload'}, 'reverse', 'drobot:kinds', None, 'an operator is not applied', None)
    if set(got) == {'Push', 'Pop', 'Load', 'Unload'} and not any(None in q for v in got.values() for q in v):
        # stack of S boxes: pop(S) is what push(S - 1) is taken back by
        at = lambda l, k: (l[0] + l[1] * k)
        pop = list(got['Pop'])
        good = len(pop) == 1
        if good:
            pc, pr = pop[0]
            for c, r in got['Push']:
                if r[1]:
                    good &= r == (pc[0] + pc[1], pc[1]) and pr == (c[0] - c[1], c[1])
                else:
                    good &= r == (pc[0] + pc[1], Fraction(0)) and at(pr, 1) == c[0] and not c[1]
        o.decide(good, 'reverse', 'drobot:pilecost', None, 'putting a box on a pile and taking it off again cost something else than claimed', None, 'drobot: pushes and pops claim each other\'s costs')
        (lc, lr), = list(got['Load'])[:1]
        (uc, ur), = list(got['Unload'])[:1]
        o.decide(lr == uc and ur == lc and len(got['Load']) == len(got['Unload']) == 1, 'reverse', 'drobot:loadcost', None, 'loading and unloading cost something else than claimed', None, 'drobot: loads and unloads claim each other\'s costs')


def self_is(v, vs):
    while T[v][0] == 'cast':
        v = T[v][2]
    return any(v == x or T[x][0] == 'cast' and T[x][2] == v for x in vs)


def e_before(p, e, call):
    k = next((k for k, x in enumerate(p.ev) if x.kind == 'call' and short(x.name) == 'DockRobot::Loc::' + call), None)
    return k is not None and p.ev.index(e) < k


def edgesof(name):
    o = Out()
    d = Dom(name)
    E = Edges(o, d)
    E.step()
    if name in REVERSIBLE:
        Reverse(o, d).run()
    lemmas(o, name)
    if name in ('tiles', 'pancake'):
        estimates(o, d)
    if name == 'pancake':
        pancake(o, d)
    if name == 'drobot':
        drobot(o)
    return o.done(), {'domains': 1, 'functions (callees inlined)': len(d.fns), 'paths walked': sum(len(x) for x in d.ex.values())}


def P10(pid, tier):
    c = Check(pid, tier, 'An operator is applied to an arbitrary state in each of the nine domains and the contents of every cell are followed along every path through building the edge, using it and destroying it, '
              'and through building the reverse edge on the result; the contents afterwards are compared as expressions with those before.',
              ['Operators are applied to states they were listed for.', 'The tables of moves satisfy the relations decided where they are filled.'])
    for r, n in vf.pmap(edgesof, sorted(DOMS)):
        c.absorb(r)
        for k, v in n.items():
            c.count(k, v)
    c.atleast('set', 100)
    c.atleast('parent', 20)
    c.atleast('undo', 6)
    c.atleast('estimate', 10)
    c.atleast('reverse', 40)
    c.atleast('table', 5)
    return c.finish()

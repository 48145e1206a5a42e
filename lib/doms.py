"""Search domains: how each is built, and an exact memory model for straight paths."""
from srch import *

DOMS = {
    'tiles': (['tiles/mdist.cc', 'tiles/tiles.cc'], ['-DWIDTH=4', '-DHEIGHT=4']),
    'pancake': (['pancake/pancake.cc'], ['-DNCAKES=50']),
    'gridnav': (['gridnav/gridnav.cc', 'gridnav/gridmap.cc'], []),
    'traffic': (['traffic/traffic.cc', 'traffic/gridmap.cc'], []),
    'vacuum': (['vacuum/vacuum.cc'], []),
    'visnav': (['visnav/visnav.cc', 'visnav/visgraph.cc'], []),
    'plat2d': (['plat2d/plat2d.cc', 'plat2d/player.cc', 'plat2d/body.cc', 'plat2d/lvl.cc', 'plat2d/tile.cc'], []),
    'segments': (['segments/segments.cc'], []),
    'drobot': (['drobot/drobot.cc'], []),
}


def dombc(dom):
    srcs, flags = DOMS[dom]
    L = [(os.path.join('dom', dom + '.cc'), None)] + [(os.path.join(vf.REPO, s), flags) for s in srcs]
    out = []
    for s, fl in L:
        if fl is None:
            out.append(vf.harness(s, flags + ['-I' + os.path.join(vf.HERE, 'harness', 'dom')]))
        else:
            out.append(vf.bitcode(s, fl))
    return out


def dgraphs(dom, entries, marks='', **k):
    return vf.graphs(dombc(dom), entries, marks, **k)


class DomEff(AlgEff):
    FIELDS = []

    # container operations that only read
    PURE = re.compile(r'\) const$|^std::vector<.*>::(size|empty|operator\[\]|at|front|back|begin|end|data)\(|^std::__shared_ptr_access<.*>::operator(->|\*)\(|^bool const|^std::(min|max)<')
    LOCAL = re.compile(r'^(fabs|sqrt|sin|cos|abs|std::abs|std::fabs|std::sqrt|Pancake::gap)\b')
    ARG0 = re.compile(r'^(std::make_shared$|std::allocate_shared$|std::shared_ptr::|std::vector::|std::_Bit_reference::|std::pair::|std::swap|geom2d::)')

    def havoc(self, name, ins):
        s = short(name)
        if s == 'std::swap':
            return None
        if self.ARG0.match(s):
            return [0]
        return None


class Mem:
    """what every cell holds along one path, exactly where that can be said.

    Cells are canonical pointers; indices are compared through the facts of the
    path.  `init(c)` is the content of a cell before the path."""

    def __init__(self, p, fn=None, opaque=None, until=None):
        self.p, self.fn = p, fn
        self.map = {}
        self.log = []           # ('st', cell, val, k) | ('cp', dst, src, k) | ('hv', ptr, k) | ('op', name, args, k)
        self.opaque = opaque or (lambda e: None)
        self.extra = []
        for k, e in enumerate(p.ev):
            if until is not None and k >= until:
                break
            self.step(k, e)

    def canon(self, v):
        if v is None:
            return None
        m = self.map.get(v)
        if m is not None:
            return m
        t = T[v]
        if t[0] == 'sum':
            return fsum([(self.canon(x), k) for x, k in t[1]], t[2])
        if t[0] == 'cast' and t[1] in ('sext', 'zext', 'bitcast', 'fpext'):
            return self.canon(t[2])
        if t[0] == 'cast':
            return mk('cast', t[1], self.canon(t[2]), *t[3:])
        if t[0] == 'op':
            a = tuple(self.canon(x) if isinstance(x, int) else x for x in t[2])
            return mk('op', t[1], a) if a != t[2] else v
        if t[0] == 'not':
            return notval(self.canon(t[1]))
        if t[0] == 'cmp':
            return mk('cmp', t[1], self.canon(t[2]), self.canon(t[3]), *t[4:])
        if t[0] == 'g':
            return self.norm(self.canon(t[1]), tuple((x[0], self.canon(x[1])) + tuple(x[2:]) if x[0] == 'i' else x for x in t[2]))
        if t[0] in ('pure', 'call'):
            return mk('fn', t[1], tuple(self.canon(x) for x in t[2]), self.stamp(t[2]))
        return v

    def stamp(self, args):
        """how often what the arguments point to was written before now"""
        rs = {root(self.map.get(a, a)) for a in args}
        return sum(1 for x in self.log if x[0] in ('st', 'cp', 'hv', 'op') and any(self.touches(x, r) for r in rs))

    def loopset(self, h):
        fn, out = self.fn, set()
        d = {i['id']: i for i in fn.instrs() if 'id' in i}
        for b in fn.loops[h]['set']:
            for i in fn.blocks[b]:
                ptrs = []
                if i['op'] == 'store':
                    ptrs = [(i['ptr'], i.get('leaf', []))]
                elif i['op'] == 'call' and not DomEff.PURE.search(i['callee']) and not i['callee'].startswith('llvm.lifetime'):
                    ptrs = [(a, []) for a, ty in zip(i['args'], i['aty']) if ty == 'ptr']
                for r, leaf in ptrs:
                    pth, n = list(leaf), 0
                    while r in d and d[r]['op'] == 'gep' and n < 50:
                        pth = list(d[r]['path']) + pth
                        r, n = d[r]['base'], n + 1
                    if r in d and d[r]['op'] == 'alloca':
                        v = self.p.st.env.get(r)
                        if v is not None:
                            out.add(('a', v))
                    f = next(((stripsuffix(q[1]), q[2]) for q in reversed(pth) if q[0] == 'f'), None)
                    out.add(('f', f) if f else ('raw',))
        return out

    def touches(self, x, r):
        if x[0] == 'lp':
            return True
        if x[0] in ('st', 'cp', 'hv'):
            return root(x[1]) == r
        return any(root(a) == r for a in x[2])

    def norm(self, base, pth):
        pth = tuple((x[0], x[1]) if x[0] == 'i' else ('f', stripsuffix(x[1]), x[2]) if x[0] == 'f' else x for x in pth)
        t = T[base]
        if t[0] == 'g':
            pth = t[2] + pth
            base = t[1]
        pth = tuple(x for x in pth if not (x[0] == 'i' and x[1] == const(0) and len(x) == 2 and False))
        return mk('g', base, pth) if pth else base

    # 'eq' | 'ne' | 'maybe' | ('in', rest): the cell lies inside what x names
    def rel(self, x, c):
        rx, rc = root(x), root(c)
        px, pc = path(x), path(c)
        if rx != rc:
            e = self.eq(rx, rc)
            if e is not True:
                if e is False or self.apart(rx, rc):
                    return 'ne'
                lx, lc = lastfield(x), lastfield(c)
                return 'ne' if lx and lc and lx != lc else 'maybe'
        res = 'eq'
        for a, b in zip(px, pc):
            if a == b:
                continue
            if a[0] == 'f' and b[0] == 'f':
                return 'ne'
            if a[0] == 'i' and b[0] == 'i':
                e = self.eq(a[1], b[1])
                if e is False:
                    return 'ne'
                if e is None:
                    res = 'maybe'
                continue
            return 'maybe'
        if res == 'eq' and len(px) < len(pc):
            return ('in', pc[len(px):])
        if res == 'eq' and len(px) > len(pc):
            return 'maybe'
        return res

    def apart(self, a, b):
        """two different bases that cannot be the same object"""
        def kind(v):
            t = T[v]
            return t[0]
        ka, kb = kind(a), kind(b)
        if ka in ('alloca', 'fresh', 'glob') and kb in ('alloca', 'fresh', 'glob', 'arg', 'init', 'fn', 'ld'):
            return not (ka == 'glob' and kb in ('init', 'fn', 'ld'))
        if kb in ('alloca', 'fresh', 'glob'):
            return self.apart(b, a)
        return ka == 'arg' and kb == 'arg'

    def eq(self, a, b):
        if a == b:
            return True
        D = sub(a, b)
        if T[D][0] == 'c':
            return T[D][1] == 0
        for x, y, s in self.facts():
            if (x, y) in ((a, b), (b, a)):
                if s == frozenset('='):
                    return True
                if '=' not in s:
                    return False
        for x, y in self.extra:
            if (x, y) in ((a, b), (b, a)):
                return False
        return None

    def facts(self):
        for (kd, a, b), s in self.p.st.facts.rel.items():
            yield self.canon(a), self.canon(b), s

    def content(self, c, upto=None):
        L = self.log if upto is None else self.log[:upto]
        for n in range(len(L) - 1, -1, -1):
            x = L[n]
            if x[0] == 'op':
                for a in x[4]:
                    r = self.rel(a, c)
                    if r != 'ne':
                        return mk('after', n, c)
                continue
            if x[0] == 'lp':
                if ('a', root(c)) in x[1] or ('f', lastfield(c)) in x[1] or any(f[0] == 'f' and any(q[0] == 'f' and (q[1], q[2]) == f[1] for q in path(c)) for f in x[1]):
                    return mk('after', n, c)
                continue
            r = self.rel(x[1], c)
            if r == 'ne':
                continue
            if x[0] == 'st':
                return x[2] if r == 'eq' else mk('amb', n, c)
            if x[0] == 'cp':
                if r == 'eq':
                    return self.content(x[2], n)
                if isinstance(r, tuple):
                    return self.content(self.norm(x[2], r[1]), n)
                return mk('amb', n, c)
            return mk('after', n, c)
        return mk('init', c)

    def step(self, k, e):
        if e.kind == 'load':
            if T[e.val][0] in ('ld', 'uninit'):
                self.map[e.val] = self.content(self.canon(e.ptr))
        elif e.kind == 'store':
            self.log.append(('st', self.canon(e.ptr), self.canon(e.val), k))
        elif e.kind == 'call':
            n = e.name
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.log.append(('cp', self.canon(e.args[0]), self.canon(e.args[1]), k))
                return
            if e.res is not None and e.res not in self.map:
                self.map[e.res] = self.canon(e.res)
            o = self.opaque(e)
            if o is not None:       # (name, what it may change)
                self.log.append(('op', o[0], tuple(self.canon(x) for x in e.args), k, tuple(self.canon(x) for x in o[1])))
                return
            if DomEff.PURE.search(n) or DomEff.LOCAL.search(short(n)) or n.startswith('llvm.'):
                return
            s = short(n)
            only0 = DomEff.ARG0.match(s) and s != 'std::swap'
            tys = (e.ins or {}).get('aty') or []
            for k2, a in enumerate(e.args[:1] if only0 else e.args):
                if k2 < len(tys) and tys[k2] != 'ptr':
                    continue
                a = self.canon(a)
                if T[root(a)][0] in ('c', 'null', 'undef', 'str', 'k'):
                    continue
                if T[a][0] in ('g', 'alloca', 'arg', 'init', 'fresh', 'glob', 'fn') :
                    self.log.append(('hv', a, k))
        elif e.kind == 'loop':
            self.log.append(('lp', self.loopset(e.val), k))

"""P11: stored states identify and restore the states they stand for."""
import json, subprocess
import flow, re
from flow import T as FT
import bits as B
from doms import *
from vf import Check

ENT = [r'^dom_(hd|goal|pack|unpack|hash|eq|init|fresh)\(']
# leaves of a state that are computed from the others when it is restored
DERIVED = {
    'tiles': {'b', 'h'},
    'plat2d': {'player.body.bbox.max.x', 'player.body.bbox.max.y'},
    'segments': {'nleft', 'lines'},
}
# leaves that never change after construction
CONSTANT = {'vacuum': {'energy'}}
VARIANTS = {
    'tiles': [('15', ['-DWIDTH=4', '-DHEIGHT=4']), ('8', ['-DWIDTH=3', '-DHEIGHT=3'])],
    'pancake': [('50', ['-DNCAKES=50']), ('70', ['-DNCAKES=70'])],
}
RULE = ('Equality, hash, storing and restoring of every domain are interpreted with each bit of memory standing for itself, so that every bit they write or test names the bits it came from. '
        'The hash depends on nothing but bits that equality compares one to one; every restored bit is the stored bit, a bit derived from stored ones, or an estimate that a new state computes when it is '
        'needed; every stored bit that decides behaviour is compared; and every search restores into a new state. Places of the dock robots are compared as polynomials.')
D, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
PTYPE = {'tiles': 'class.PackedTiles64', 'pancake': None, 'vacuum': None, 'visnav': None}


class Dom11:
    def __init__(self, dom, flags=None):
        self.name = dom
        if flags:
            DOMS[dom] = (DOMS[dom][0], flags)
        bcs = dombc(dom)
        self.fns = dgraphs(dom, ENT, '', force=FORCE)
        self.g = {f.short: f for f in self.fns}
        r = subprocess.run([vf.IRX] + bcs + ['-layouts'], capture_output=True, text=True)
        if r.returncode:
            raise vf.AnalysisError('layouts')
        self.layouts = json.loads(r.stdout)
        self.hashed = None
        self.assume = lambda b: b
        if dom == 'tiles':
            self.L = {nm: (off, sz) for nm, off, sz, ty in self.state()}
            self.n = self.L['ts'][1] // 4
            self.assume = self.tile
        if dom == 'plat2d':
            jf = {nm: off for nm, off, sz, ty in self.state()}.get('player.jframes')
            if small(bcs, 'jframes'):
                self.assume = lambda b: 0 if isinstance(b, tuple) and b[0] == 'in' and b[1] in (A2, ('src',)) and b[2] == jf and b[3] == 7 and self.storing else b
            self.storing = True

    def tile(self, b):
        """a tile's number is below the number of tiles"""
        if isinstance(b, tuple) and b[0] == 'in' and b[1][0] == 'canon':
            o, sz = self.L['ts']
            if o <= b[2] < o + sz and 8 * ((b[2] - o) % 4) + b[3] >= (self.n - 1).bit_length():
                return 0
        return b

    def symstore(self, it, st, p, v):
        """the blank's own place gets the blank's number"""
        if self.name != 'tiles' or p[1] != A2 or not B.isnum(v) or B.uns(v) != 0:
            return False
        off, sz = self.L['ts']
        bo = self.L['b'][0]
        if p[2][0] != off or len(p[2][1]) != 1 or p[2][1][0][1] != 4:
            return False
        i = B.bits(p[2][1][0][0])[:32]
        if list(i) != [t for k in range(4) for t in st.rd(A2, bo + k)] or any(A2 == o and off <= k < off + sz for o in st.mem for k in st.mem[o]):
            return False
        for k in range(sz):
            st.mem.setdefault(A2, {})[off + k] = tuple(self.tile(B.mk('in', ('canon', A2), off + k, j)) for j in range(8))
        return True

    def state(self):
        n = {'tiles': 'TilesMdist', 'pancake': 'Pancake', 'gridnav': 'GridNav', 'traffic': 'Traffic', 'vacuum': 'Vacuum', 'visnav': 'VisNav', 'plat2d': 'Plat2d', 'segments': 'Segments', 'drobot': 'DockRobot'}[self.name]
        for p in ('struct.', 'class.'):
            if p + n + '::State' in self.layouts:
                return B.leaves(self.layouts, p + n + '::State')
        return None

    def call(self, it, st, i, n, args):
        if n == 'hashbytes' or n == 'hashwords':
            p, ln = it.asptr(args[0]), args[1]
            if not B.isnum(ln) or isinstance(p[2], tuple):
                raise B.Undecided('hashed range')
            for k in range(B.uns(ln)):
                st.log.append(('hashed', p[1], p[2] + k, st.rd(p[1], p[2] + k)))
            return ('t', 64, ('hash', len(st.log)))
        if n == 'dom_sink':
            st.log.append(('sink', args))
            return B.num(0, 64)
        return None

    def go(self, fn, mem=None, modes=('fork', 'join'), size=3):
        err = None
        self.storing = fn == 'dom_pack'
        if self.name == 'tiles':
            modes = modes[::-1]
        for m in modes:
            try:
                return B.go(self.g[fn], m, mem=mem, call=B.Containers(self.layouts, size, self.call), assume=self.assume, symstore=self.symstore)
            except B.Undecided as e:
                err = e
        raise err


def small(bcs, field):
    """is the field only ever set to small constants, copies, or less than it was where it was not zero?"""
    fns = vf.graphs(bcs, [r'^(Player|Body|Plat2d)(::|.*::)'], '', force=FORCE)
    n = 0
    for f in fns:
        d = {i['id']: i for i in f.instrs() if 'id' in i}

        def isf(r):
            while r in d and d[r]['op'] == 'cast':
                r = d[r]['a']
            return r in d and d[r]['op'] == 'gep' and d[r]['path'] and d[r]['path'][-1][0] == 'f' and d[r]['path'][-1][2] == field

        def isld(r):
            while r in d and d[r]['op'] == 'cast':
                r = d[r]['a']
            return r in d and d[r]['op'] == 'load' and (isf(d[r]['ptr']))
        for b, blk in enumerate(f.blocks):
            for i in blk:
                if i['op'] != 'store' or not isf(i['ptr']) or '::PackedState' in str(d[i['ptr']].get('path')):
                    continue
                n += 1
                v = i['val']
                if v.startswith('i:') and 0 <= int(v[2:]) < 128 or isld(v):
                    continue
                if v in d and d[v]['op'] == 'bin' and (d[v]['kind'], d[v]['ops'][1]) in (('add', 'i:-1'), ('sub', 'i:1')) and isld(d[v]['ops'][0]):
                    pr = f.preds.get(b, [])
                    t = f.blocks[pr[0]][-1] if len(pr) == 1 else {}
                    c = d.get(t.get('cond')) if t.get('op') == 'br' else None
                    if c and c['op'] == 'icmp' and isld(c['a']) and c['b'] == 'i:0' and (c['pred'] in ('ne', 'ugt', 'sgt') and t['succ'][0] == b or c['pred'] == 'eq' and t['succ'][1] == b):
                        continue
                    return False
                while v in d and d[v]['op'] == 'cast':
                    v = d[v]['a']
                if v in d and d[v]['op'] == 'bin' and (d[v]['kind'] == 'and' and any(x.startswith('i:') and 0 <= int(x[2:]) < 128 for x in d[v]['ops']) or d[v]['kind'] == 'urem' and d[v]['ops'][1].startswith('i:') and 0 < int(d[v]['ops'][1][2:]) <= 128):
                    continue
                return False
    return n > 0


def flat(b, out, seen=None):
    """every original bit a bit depends on"""
    seen = set() if seen is None else seen
    if not isinstance(b, (tuple, frozenset)) or id(b) in seen:
        return out
    seen.add(id(b))
    if isinstance(b, tuple) and b[:1] and b[0] in ('in', 'undef', 'hv', 'ld'):
        out.add(b if b[0] != 'ld' else ('ld',) + b[1:2])
        if b[0] == 'ld':
            flat(b[2], out, seen)
        return out
    if isinstance(b, tuple) and b[:1] == ('p',) and len(b) == 3:
        out.add(('ptr', b[1]))
        return out
    for x in b:
        flat(x, out, seen)
    return out


def opaque(b, seen=None):
    """does it contain the result of something that is not modelled?"""
    seen = set() if seen is None else seen
    if not isinstance(b, (tuple, frozenset)) or id(b) in seen:
        return False
    seen.add(id(b))
    if isinstance(b, tuple) and b[:1] and b[0] in ('call', 'other', 'hv'):
        return True
    return any(opaque(x, seen) for x in b)


def rootof(o):
    while o and o[0] in ('deref', 'vec', 'vbit', 'canon'):
        o = o[1]
    return o


def subst(b, m, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(b, (tuple, frozenset)):
        return b
    r = memo.get(id(b))
    if r is not None:
        return r[0]
    if isinstance(b, frozenset):
        r = frozenset(subst(x, m, memo) for x in b)
    elif b[:1] == ('arg',):
        r = m.get(b, b)
    else:
        r = tuple(subst(x, m, memo) for x in b)
        if isinstance(b, B.T):
            r = B.mk(*r)
    memo[id(b)] = (r, b)
    return r


def conj(b):
    """the facts a true bit states"""
    if isinstance(b, tuple) and b[0] == 'and':
        return conj(b[1]) + conj(b[2])
    if isinstance(b, tuple) and b[0] == 'ite' and b[3] == 0:
        return conj(b[1]) + conj(b[2])
    return [b]


def disj(b):
    if isinstance(b, tuple) and b[0] == 'or':
        return disj(b[1]) + disj(b[2])
    if isinstance(b, tuple) and b[0] == 'ite' and b[2] == 1:
        return disj(b[1]) + disj(b[3])
    return [b]


class Pack:
    def __init__(self, o, d, label):
        self.o, self.d, self.name, self.label = o, d, d.name, label
        self.stales = []

    def nm(self, x):
        return '%s:%s' % (self.name, x)

    def loc(self, fn):
        """where the function a harness entry stands for is written"""
        f = self.d.g[fn]
        for i in f.instrs():
            if i.get('loc') and '/harness/' not in i['loc']:
                return i['loc']
        return None

    def undecided(self, what, why):
        self.o.ok('undecided', '%s: %s (%s)' % (self.label, what, why))

    def field(self, off, leaves, o=None):
        for nm, a, sz, ty in leaves or []:
            if a <= off < a + sz:
                return nm
        return 'byte %d' % off

    # -- equality
    def eq(self):
        outs = self.d.go('dom_eq', self.given(A1, A2))
        E = None
        self.vague = False
        loc = self.loc('dom_eq')
        for st, v in outs:
            b = B.bits(v)[0]
            facts = list(st.cond.items())
            # the path a record takes that is compared with a copy of itself
            h = [self.holds(subst(c, {A2: A1}), t) for c, t in facts]
            r = self.holds(subst(b, {A2: A1}), 1)
            self.o.decide(not (all(x is True for x in h) and r is False), 'identity', self.nm('self'), loc, 'a stored state does not compare equal to a copy of itself', None,
                          '%s: unequal only where the records differ' % self.label)
            if b == 0:
                continue
            got = set()
            self.vague = self.vague or any(opaque(c) for c, _ in facts + [(b, 1)])
            for c, t in facts + [(b, 1)]:
                for x in (conj(c) if t == 1 else [B.neg(y) for y in disj(c)]):
                    if isinstance(x, tuple) and x[0] == 'eq':
                        for p, q in x[1]:
                            if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == 'in':
                                a, z = (p, q) if rootof(p[1]) == A1 else (q, p)
                                if rootof(a[1]) == A1 and rootof(z[1]) == A2 and subst(z, {A2: A1}) == a:
                                    got.add(a)
            E = got if E is None else E & got
        if E is None:
            self.o.fail('identity', self.nm('never'), loc, 'no two stored states ever compare equal')
            E = set()
        self.E = E
        return E

    def holds(self, c, t):
        """is the condition c == t true? (None: not known)"""
        if c in (0, 1):
            return c == t
        if c[0] == '~':
            return self.holds(c[1], 1 - t)
        if c[0] == 'eq':
            if all(p == q for p, q in c[1]):
                return t == 1
            return None
        if c[0] in ('cmp', 'fcmp') and c[2] == c[3]:
            if c[1] in ('ult', 'slt', 'ugt', 'sgt', 'olt', 'ogt', 'one', 'une'):
                return t == 0 if c[1] != 'une' else None
            if c[1] in ('ule', 'sle', 'uge', 'sge'):
                return t == 1
        return None

    def given(self, *args):
        """the length of a record that is an array, by itself"""
        if self.name != 'drobot':
            return None
        off = next(a for nm, a, sz, ty in B.leaves(self.d.layouts, self.ptype()) if nm == 'sz')
        return {a: {off + k: tuple([1, 1, 0, 0, 0, 0, 0, 0] if k == 0 else [0] * 8) for k in range(4)} for a in args}

    # -- hash
    def hash(self):
        leaves = B.leaves(self.d.layouts, self.ptype()) if self.ptype() else None
        loc = self.loc('dom_hash')
        H = set()
        for st, v in self.d.go('dom_hash', self.given(A1)):
            src = set()
            if v:
                flat(v if v[0] != 'n' else v[1], src)
            for x in st.log:
                if x[0] == 'hashed':
                    for b in x[3]:
                        flat(b, src)
            for c in st.cond:
                src |= {b for b in flat(c, set()) if b[0] != 'ptr'}
            for x in st.log:
                if x[0] == 'outside':
                    self.o.fail('hash', self.nm('outside'), loc, 'the hash reads outside a container')
            for b in src:
                if b[0] == 'ptr' and b[1] is not None:
                    self.o.fail('hash', self.nm('address'), loc, 'the hash depends on where something lies in memory')
                elif b[0] in ('undef', 'hv'):
                    self.o.fail('hash', self.nm('undef'), loc, 'the hash reads memory that was never set')
                elif b[0] == 'in' and rootof(b[1])[0] == 'glob':
                    self.o.fail('hash', self.nm('global'), loc, 'the hash depends on something else than the state')
                elif b[0] == 'in' and rootof(b[1]) == A1:
                    H.add(b)
        by = {}
        for b in H:
            by.setdefault(self.field(b[2], leaves) if b[1] == A1 else repr(b[1][0]), []).append(b)
        self.o.decide(bool(H), 'hash', self.nm('none'), loc, 'the hash does not depend on the state at all', None)
        for f, bs in sorted(by.items()):
            # the address of what is compared elementwise may not be hashed, but its size may
            if self.vague and not all(b in self.E for b in bs):
                self.undecided('equality', f)
                continue
            self.o.decide(all(b in self.E for b in bs), 'hash', self.nm('eq'), loc, 'states that compare equal can hash differently: the hash depends on contents that are not compared exactly (%s)' % f, None,
                          '%s: the hash reads %s, which is compared exactly' % (self.label, f))

    def ptype(self):
        if not hasattr(self, '_pt'):
            self._pt = None
            n = {'gridnav': 'GridNav::PackedState', 'traffic': 'Traffic::PackedState', 'plat2d': 'Plat2d::PackedState', 'segments': 'Segments::PackedState', 'drobot': 'DockRobot::PackedState',
                 'pancake': 'Pancake::State', 'vacuum': 'Vacuum::State', 'visnav': 'VisNav::State'}.get(self.name)
            for p in ('struct.', 'class.'):
                if n and p + n in self.d.layouts:
                    self._pt = p + n
        return self._pt

    # -- storing and restoring
    def caches(self, leaves):
        """leaves the heuristic writes, or returns as they are"""
        out = set()
        try:
            for st, v in self.d.go('dom_hd'):
                for x in st.log:
                    if x[0] == 'store' and x[1] == A1:
                        out |= {nm for nm, a, sz, ty in leaves if a <= x[2] < a + sz}
                    if x[0] == 'sink':
                        for a in x[1]:
                            if a and a[0] == 'p' and a[1] and a[1][0] == 'loc':
                                for nm, off, sz, ty in leaves:
                                    if all(st.rd(a[1], a[2] + k) == tuple(('in', A1, off + k, j) for j in range(8)) for k in range(min(sz, 8))):
                                        out.add(nm)
        except B.Undecided as e:
            self.undecided('estimates', e)
        return out

    def round(self):
        d, o = self.d, self.o
        leaves = d.state()
        packs = d.go('dom_pack')
        cache = self.caches(leaves)
        derived = DERIVED.get(self.name, set())
        lp, lu = self.loc('dom_pack') or self.loc('dom_unpack'), self.loc('dom_unpack') or self.loc('dom_pack')
        need = set()
        if not packs:
            o.fail('store', self.nm('aborts'), lp, 'storing a state never returns')
        for st, _ in packs:
            wrote = [x for x in st.log if x[0] in ('store', 'havoc') and rootof(x[1]) == A2]
            o.decide(not wrote, 'store', self.nm('alters'), lp, 'storing a state changes the state', None, '%s: storing leaves the state alone' % self.label)
            # the record takes the place of argument 2 of the restoring call
            m2 = {}
            for ob, cells in st.mem.items():
                m2[subst(ob, {A1: A2, A2: ('src',), D: D})] = {k: subst(b, {A1: A2, A2: ('src',)}) for k, b in cells.items()}
            m2 = {k: v for k, v in m2.items() if not (k[0] == 'loc')}
            for s2, _ in d.go('dom_unpack', m2):
                sink = next((x for x in s2.log if x[0] == 'sink'), None)
                if sink is None:
                    continue
                ptr = sink[1][-1]
                w = [x for x in s2.log if x[0] in ('store', 'havoc') and rootof(x[1]) == A2 and not (len(x) > 3 and x[3] == 0)]
                w = [x for x in w if not self.unchanged(x, m2, s2)]
                o.decide(not w, 'restore', self.nm('record'), lu, 'restoring a state changes the stored record', None, '%s: restoring leaves the record alone' % self.label)
                for nm, off, sz, ty in leaves:
                    got, want = self.cells(s2, ptr, off, sz, ty), self.want(off, sz, ty)
                    if got is None:
                        self.undecided(nm, 'container')
                        continue
                    cond = dict(st.cond)
                    got = [self.under(b, cond) for b in got]
                    want = [self.under(b, cond) for b in want]
                    src = set()
                    for b in got:
                        flat(b, src)
                    if ty == 'i8' and got[1:] == [0] * 7:       # a truth value
                        want = want[:1] + [0] * 7
                    if got == want:
                        o.ok('round', '%s: %s is stored and restored' % (self.label, nm))
                        if nm not in cache and nm not in derived and nm not in CONSTANT.get(self.name, ()):
                            need |= self.packed(st, off, sz, ty)
                        continue
                    stale = [b for b in src if b[0] in ('undef', 'hv') or b[0] == 'in' and rootof(b[1]) == A1]
                    if self.name == 'tiles' and nm in ('b', 'h') and not stale:
                        self.tiles(nm, got, lu)
                        continue
                    if nm in cache:
                        self.stale(nm, off, sz, stale, got, lu)
                        continue
                    if nm in derived:
                        self.derive(nm, s2, ptr, off, sz, got, src, stale, lu, st)
                        continue
                    if stale:
                        o.fail('round', self.nm(nm), lu, 'a restored state keeps its %s from what the buffer held before' % nm)
                    else:
                        o.fail('round', self.nm(nm), lu, 'a restored state does not have the %s that was stored' % nm)
        # everything that is restored is compared
        loc = self.loc('dom_eq')
        by = {}
        for b in need:
            by.setdefault(b[1:3], set()).add(b)
        for (ob, off), bs in sorted(by.items(), key=repr):
            if self.vague and not bs <= self.E:
                self.undecided('equality', off)
                continue
            self.o.decide(bs <= self.E, 'identity', self.nm('compare'), loc, 'states that differ can compare equal: the comparison leaves out part of what is stored (%s)' % (self.field(off, B.leaves(d.layouts, self.ptype()) if self.ptype() else None) if ob == A1 else 'elements'), None,
                          '%s: everything stored is compared' % self.label)

    def unchanged(self, x, m2, s2):
        if x[0] != 'store':
            return False
        for k in range(x[3]):
            a = m2.get(x[1], {}).get(x[2] + k) or tuple(('in', x[1], x[2] + k, j) for j in range(8))
            if s2.rd(x[1], x[2] + k) != a:
                return False
        return True

    def under(self, b, cond):
        """a bit of the source state, as a constant where the path decided it"""
        if isinstance(b, tuple) and b[0] == 'in' and rootof(b[1]) == ('src',):
            self.d.storing = True
            c = self.d.assume(b if self.name == 'plat2d' else ('in', subst(b[1], {('src',): A2}), b[2], b[3]))
            if c not in (0, 1):
                c = ('in', A2 if b[1] == ('src',) else b[1], b[2], b[3])
            if c in (0, 1):
                return c
            if c in cond:
                return cond[c]
        return b

    def cells(self, st, ptr, off, sz, ty):
        ob, base = ptr[1], ptr[2]
        if 'std::vector' in ty:
            k = ('vec', ob, base + off)
            try:
                C = B.Containers(self.d.layouts, 3)
                n = C.size(st, ('p', ob, base + off))
            except B.Undecided:
                return None
            e = self.elem(off)
            if e is None:
                return None
            return [n] + [b for j in range(n * e) for b in st.rd(k, j)]
        if 'std::' in ty:
            sz = 8
        return [b for k in range(sz) for b in st.rd(ob, base + off + k)]

    def elem(self, off):
        return {('segments', 'poses'): 'struct.Segments::Pose', ('segments', 'lines'): 'struct.geom2d::LineSg'}.get((self.name, self.field(off, self.d.state()))) and \
            self.d.layouts[{'poses': 'struct.Segments::Pose', 'lines': 'struct.geom2d::LineSg'}[self.field(off, self.d.state())]]['size']

    def want(self, off, sz, ty):
        if 'std::vector' in ty:
            e = self.elem(off)
            return [3] + [B.mk('in', ('vec', ('src',), off), j, k) for j in range(3 * (e or 0)) for k in range(8)]
        if 'std::' in ty:
            sz = 8
        if self.name == 'tiles' and off == self.d.L['ts'][0]:
            return [self.d.tile(B.mk('in', ('canon', ('src',)), off + k, j)) for k in range(sz) for j in range(8)]
        return [B.mk('in', ('src',), off + k, j) for k in range(sz) for j in range(8)]

    def packed(self, st, off, sz, ty):
        """bits of the record that hold these bits of the state"""
        if 'std::vector' in ty:
            srcs = {('in', ('vec', A2, off), j, k) for j in range(3 * (self.elem(off) or 0)) for k in range(8)}
        elif 'std::shared_ptr<std::vector<bool' in ty or 'shared_ptr' in ty:
            return {('in', ('vbit', ('vec', ('deref', A1, off), 0), j), 0, 0) for j in range(3)}
        else:
            srcs = {('in', ('canon', A2) if self.name == 'tiles' else A2, off + k, j) for k in range(sz) for j in range(8)}
        out = set()
        for ob, cells in st.mem.items():
            if rootof(ob) != A1:
                continue
            for k, bs in cells.items():
                for j, b in enumerate(bs):
                    if b in srcs:
                        out.add(('in', ob, k, j))
        return out

    def stale(self, nm, off, sz, stale, got, loc):
        if not stale:
            self.o.ok('round', '%s: %s is set anew or forgotten' % (self.label, nm))
            return
        # left as it was in the buffer: fine for a fresh one
        self.stales.append((self.name, nm, loc, off, sz))

    def derive(self, nm, s2, ptr, off, sz, got, src, stale, loc, pk):
        if stale:
            self.o.fail('round', self.nm(nm), loc, 'a restored state keeps its %s from what the buffer held before' % nm)
            return
        if self.name == 'plat2d':
            self.plat2d(nm, s2, ptr, off, got, loc)
            return
        self.o.ok('round', '%s: %s is computed from what was stored' % (self.label, nm))

    def tiles(self, nm, got, loc):
        """wherever the blank is: its place is found, and every other tile counts its own distance"""
        n, off = self.d.n, self.d.L['ts'][0]
        v = B.unbits(got)

        def tileof(b):
            if isinstance(b, tuple) and b[0] == 'in' and b[1] == ('canon', ('src',)):
                return (b[2] - off) // 4
            return None

        def cond(c, blank):
            if c[0] == '~':
                r = cond(c[1], blank)
                return None if r is None else not r
            if c[0] == 'eq' and all(q == 0 for _, q in c[1]):
                ts = {tileof(p) for p, _ in c[1]}
                if len(ts) == 1 and None not in ts and len(c[1]) == (n - 1).bit_length():
                    return ts == {blank}
            return None

        def ev(x, blank, w=None):
            """bits or a term with the place of the blank known"""
            while isinstance(x, tuple) and x[0] == 'ite':
                r = cond(x[1], blank)
                if r is None:
                    raise B.Undecided('a condition on restored tiles')
                x = x[2] if r else x[3]
            if isinstance(x, tuple) and x[0] in ('~', 'eq'):
                r = cond(x, blank)
                return x if r is None else int(r)
            if isinstance(x, tuple) and x[0] == 't' and x[2][0] == 'ite':
                return ev(x[2], blank)
            if isinstance(x, tuple) and x[0] == 'n':
                return ('n', tuple(ev(b, blank) for b in x[1]))
            if isinstance(x, tuple) and x[0] == 'of':
                y = ev(x[1], blank)
                return B.bits(y)[x[2]] if y != x[1] else x
            return x

        def terms(x, blank):
            x = ev(x, blank)
            if B.isnum(x):
                return [('k', B.uns(x))] if B.uns(x) else []
            x = B.unbits(B.bits(x)) if x[0] == 'n' else x
            if x[0] == 't' and x[2][0] == 'add':
                return terms(x[2][1], blank) + terms(x[2][2], blank)
            return [x]
        ti = {f: (o, z) for f, o, z, _ in B.leaves(self.d.layouts, 'class.TilesMdist')}
        bad = None
        for blank in range(n):
            if nm == 'b':
                x = ev(v, blank)
                if not B.isnum(x) or B.uns(x) != blank:
                    bad = blank
                continue
            want = {j for j in range(n) if j != blank}
            seen = []
            for x in terms(v, blank):
                j = None
                if x[0] == 't' and x[2][0] == 'ld' and x[2][1] == D and len(x[2][2][1]) == 1:
                    o, ((row, stride),) = x[2][2]
                    t = {tileof(b) for b in B.bits(row) if b not in (0, 1)}
                    if 'md' in ti and stride == 4 * n and len(t) == 1 and None not in t and (o - ti['md'][0]) == 4 * next(iter(t)):
                        j = next(iter(t))
                seen.append(j)
            if sorted(seen, key=str) != sorted(want, key=str):
                bad = blank
        self.o.decide(bad is None, 'round', self.nm(nm), loc, {'b': 'a restored board has its blank elsewhere', 'h': 'the estimate of a restored board is not the sum of its tiles\' distances'}[nm], None,
                      '%s: %s is computed from the restored tiles' % (self.label, nm))

    def plat2d(self, nm, s2, ptr, off, got, loc):
        """the far corner is as far from the near one as in the initial state"""
        v = B.unbits(got)
        near = off - 16
        base = B.unbits(self.cells(s2, ptr, near, 8, 'double'))
        ok = v[0] == 't' and isinstance(v[2], tuple) and v[2][0] == 'fadd' and base in v[2][1:]
        k = next((x for x in v[2][1:] if x != base), None) if ok else None
        ini = None
        for st, _ in self.d.go('dom_init'):
            a, b = (B.unbits(self.cells(st, ('p', ('arg', 1), 0), o, 8, 'double')) for o in (near, off))
            if a[0] == b[0] == 't' and a[2][0] == b[2][0] == 'uitofp':
                for x, y in ((a[2][1], b[2][1]), (b[2][1], a[2][1])):
                    if y[0] == 't' and y[2][0] == 'add' and x in y[2][1:]:
                        z = next((q for q in y[2][1:] if q != x), None)
                        ini = B.uns(z) if z and B.isnum(z) else ini
                    elif x[0] == y[0] == 'n' and all(p == q or p in (0, 1) and q in (0, 1) for p, q in zip(x[1], y[1])):
                        ini = abs(sum((q - p) << j for j, (p, q) in enumerate(zip(x[1], y[1])) if p in (0, 1)))
        if ini is None:
            self.undecided(nm, 'initial state')
            return
        const = float(k[2][1]) if k and k[0] == 't' and k[2][0] == 'd' else None
        self.o.decide(const == ini, 'round', self.nm(nm), loc, 'a restored player is not as large as the one that was stored', None, '%s: %s lies where it lay in the initial state' % (self.label, nm))


# ---------------------------------------------------------------- robots and docks: places are numbered
class Docks:
    """The record numbers the places a box can be in: the robot, then every
    location's cranes and piles in turn.  Storing adds the offsets up and
    restoring takes them off again; both sides are compared as polynomials."""

    def __init__(self, o, fns):
        self.o = o
        self.g = {f.short: f for f in fns}
        self.vague = False

    def poly(self, v, env):
        from p_keys import padd, pmul, atom
        t = FT[v]
        k = t[0]
        if v in env:
            return env[v] if isinstance(env[v], dict) else atom(env[v])
        if k == 'c' and not isinstance(t[1], str):
            return {(): t[1]} if t[1] else {}
        if k == 'cast':
            return self.poly(t[2], env)
        if k == 'sum':
            r = {(): t[2]} if t[2] else {}
            for x, c in t[1]:
                r = padd(r, self.poly(x, env), c)
            return r
        if k == 'op' and t[1] in ('mul', 'shl'):
            a, b = self.poly(t[2][0], env), self.poly(t[2][1], env)
            if t[1] == 'shl':
                if set(b) - {()}:
                    return atom('#%d' % v)
                b = {(): 1 << b.get((), 0)}
            return pmul(a, b)
        if k == 'ld':
            return atom(self.cell(t[1], env))
        return atom('#%d' % v)

    def cell(self, p, env):
        t = FT[p]
        if t[0] in ('call', 'pure') and re.search(r'>::(operator\[\]|at)\(', t[1]):
            return '%s[%s]' % (self.cell(t[2][0], env), self.key(self.poly(t[2][1], env)))
        r, out = flow.root(p), ''
        for q in flow.path(p):
            out += '.' + q[2] if q[0] == 'f' else '[%s]' % self.key(self.poly(q[1], env)) if q[0] == 'i' else '+' + str(q[1])
        t = FT[r]
        if r != p and t[0] in ('call', 'pure'):
            return self.cell(r, env) + out
        if r != p and t[0] == 'ld':
            return '*' + self.cell(t[1], env) + out
        if t[0] == 'arg':
            return t[2] + out
        return '#%d' % r + out

    def key(self, p):
        return '+'.join('%s%s' % ('' if c == 1 else '%s*' % c, '*'.join(map(str, m))) if m else str(c) for m, c in sorted(p.items()))

    def names(self, p):
        """the phis of a path, by the loop they belong to, with where they start and where they go"""
        out = {}
        for e in p.ev:
            if e.kind == 'loop':
                for i, vs in e.args:
                    out[flow.mk('phi', i, p.ex.fn.short)] = (e.val, i, vs)
        return out

    def decide(self, ok, rule, what, loc, msg, sample):
        if not ok and self.vague:
            self.o.ok('undecided', 'drobot: %s' % what)
            return
        self.o.decide(ok, rule, 'drobot:' + what, loc, msg, None, 'drobot: ' + sample)

    def run(self):
        pk, un = self.pack(), self.unpack()
        if pk is None or un is None:
            self.o.ok('undecided', 'drobot: how places are numbered')
            return
        from p_keys import padd
        loc = pk['loc']
        ps = [x for k in ('crane', 'pile', 'step', 'cur0') for x in pk[k]] + [x for k in ('crane', 'num', 'den', 'step', 'off', 'cguard') for x in un[k] or {('#',): 1}]
        self.vague = any(str(a).find('#') >= 0 for m in ps for a in m)
        NB, CR, PL = 'd.nboxes', 'd.maxcranes[i]', 'd.maxpiles[i]'
        self.decide(pk['robot'] == un['robot'], 'round', 'robot', pk['locs'].get('robot', loc), 'the box the robot holds is restored elsewhere', 'the box in the robot is restored there')
        # what the counter of restoring is, in terms of the number and the offset of storing
        K = padd(pk['cur0'], un['off'])                      # counter == number - cur + K at every location
        self.decide(pk['step'] == un['step'], 'round', 'offsets', un['loc'], 'storing and restoring number the places of a location differently', 'a location takes as many numbers when it is stored as when it is restored')
        c = padd(padd(pk['crane'], {('cur',): 1}, -1), K)
        want = self.sub(un['crane'], c)
        self.decide(want == {('c',): 1} and un['cguard'] == {(CR,): 1}, 'round', 'cranes', pk['locs'].get('crane', loc), 'a box on a crane is restored elsewhere', 'a box on a crane is restored there')
        q = padd(padd(pk['pile'], {('cur',): 1}, -1), K)
        num, den = self.sub(un['num'], q), un['den']
        self.decide(num == {('s',): 1, tuple(sorted((NB, 'p'))): 1} and den == {(NB,): 1} and un['rem'] == (un['num'], un['den']), 'round', 'piles', pk['locs'].get('pile', loc), 'a box in a pile is restored elsewhere', 'a box in a pile is restored there')
        self.decide(un['pguard'] == (un['num'], {tuple(sorted((NB, PL))): 1}), 'round', 'pguard', un['loc'], 'a box in a pile is looked for among too few or too many places', 'every place in a pile is looked for')

    def sub(self, p, c):
        """the counter replaced by c"""
        from p_keys import padd, pmul
        out = {}
        for m, k in p.items():
            r = {(): 1}
            for a in m:
                r = pmul(r, c if a == 'cnt' else {(a,): 1})
            out = padd(out, r, k)
        return out

    def counts(self, phs, ph, paths):
        """starts at zero and goes up by one"""
        l, i, vs = phs[ph]
        if any(FT[v] != ('c', 0) for v in vs):
            return False
        return all(p.st.user['back'].get(i) == flow.fsum([(ph, 1)], 1) for p in paths if p.kind == 'back' and p.where == l and i in p.st.user['back'])

    def pack(self):
        paths = explore(self.g['dom_pack'], eff=DomEff()).paths
        R = {'locs': {}, 'loc': None, 'steps': []}
        buf = None
        for p in paths:
            for e in p.ev:
                if e.kind == 'store' and flow.lastfield(e.ptr) and flow.lastfield(e.ptr)[1] == 'pos':
                    buf = e.val
                    R['loc'] = e.loc
        if buf is None or FT[buf][0] != 'fresh':
            return None
        zero = False
        for p in paths:
            phs = self.names(p)
            for e in p.ev:
                if e.kind == 'store' and len(flow.path(e.ptr)) == 1 and e.ptr != buf and flow.root(e.ptr) == buf:
                    ix = flow.path(e.ptr)[0]
                    ix = ix[1]
                    while FT[ix][0] == 'cast':
                        ix = FT[ix][2]
                    if ix in phs and FT[e.val] == ('c', 0):
                        zero = zero or self.counts(phs, ix, paths)
                        continue
                    env = {}
                    s = self.idx(ix, phs, env)
                    if s is None:
                        return None
                    bad = [v for v, n in env.items() if not self.counts(phs, v, paths)]
                    if bad:
                        self.decide(False, 'round', 'all', e.loc, 'storing does not go through every box', '')
                    cur = [v for v in phs if v not in env and self.uses(e.val, v)]
                    if len(cur) > 1:
                        return None
                    for v in cur:
                        env[v] = 'cur'
                        l, i, vs = phs[v]
                        if len(vs) != 1:
                            return None
                        R['cur0'] = self.poly(vs[0], env)
                        R['curphi'] = v
                    R[s] = self.poly(e.val, env)
                    R['locs'][s] = e.loc
        for p in paths:
            if p.kind == 'back' and 'curphi' in R and FT[R['curphi']][1] in p.st.user['back']:
                phs = self.names(p)
                env = {R['curphi']: 'cur'}
                for v, (l, i, vs) in phs.items():
                    if l == phs[R['curphi']][0] and v != R['curphi']:
                        env[v] = 'i'
                from p_keys import padd
                R['steps'].append(padd(self.poly(p.st.user['back'][FT[R['curphi']][1]], env), {('cur',): 1}, -1))
        for what, why in (('robot', 'the box the robot holds'), ('crane', 'a box on a crane'), ('pile', 'a box in a pile'), ('rloc', "the robot's location")):
            if what not in R:
                self.decide(False, 'round', 'stores-' + what, R['loc'], 'storing does not record %s' % why, '')
                return None
        for e in (e for p in paths for e in p.ev if e.kind == 'store' and flow.lastfield(e.ptr) and flow.root(e.ptr) != buf and FT[flow.root(e.ptr)][0] == 'arg' and flow.lastfield(e.ptr)[1] == 'sz'):
            self.decide(self.poly(e.val, {}) == {('d.nboxes',): 1, (): 1}, 'round', 'size', e.loc, 'the length of a record is not the number of places stored', 'the length of a record is one place per box and one for the robot')
        zero = zero or any(e.kind == 'call' and e.args and flow.root(e.args[0]) == buf for p in paths for e in p.ev)
        self.decide(zero, 'round', 'fill', R['loc'], 'a record is stored without being filled first', 'a record is filled first')
        self.decide(R['rloc'] == {('s.rloc',): 1}, 'round', 'rloc', R['locs']['rloc'], "storing does not record the robot's location", "the robot's location is stored")
        if not R['steps'] or any(s != R['steps'][0] for s in R['steps']) or set(R['robot']) - {()}:
            return None
        R['step'] = R['steps'][0]
        R['robot'] = R['robot'].get((), 0)
        return R

    def uses(self, v, x):
        t = FT[v]
        if v == x:
            return True
        if t[0] == 'sum':
            return any(self.uses(a, x) for a, _ in t[1])
        if t[0] == 'cast':
            return self.uses(t[2], x)
        if t[0] == 'op':
            return any(self.uses(a, x) for a in t[2])
        return False

    def idx(self, ix, phs, env):
        """which box is being stored"""
        t = FT[ix]
        if t[0] != 'ld':
            return None
        c = self.cell(t[1], {v: 'ph%d' % v for v in phs})
        if c == 's.rbox':
            return 'robot'
        if c == 'd.nboxes':
            return 'rloc'
        m = re.fullmatch(r's\.locs\[ph(\d+)\]\.cranes\[ph(\d+)\]', c)
        if m:
            env.update({int(m.group(1)): 'i', int(m.group(2)): 'c'})
            return 'crane'
        m = re.fullmatch(r's\.locs\[ph(\d+)\]\.piles\[ph(\d+)\]\.stack\[ph(\d+)\]', c)
        if m:
            env.update({int(m.group(1)): 'i', int(m.group(2)): 'p', int(m.group(3)): 's'})
            return 'pile'
        return None

    def unpack(self):
        from p_keys import padd
        paths = explore(self.g['dom_unpack'], eff=DomEff()).paths
        R = {'loc': None}
        steps = set()
        for p in paths:
            phs = self.names(p)
            for e in p.ev:
                if e.kind != 'store' or FT[e.val][0] != 'phi' and not (FT[e.val][0] == 'cast' and FT[FT[e.val][2]][0] == 'phi'):
                    continue
                t = FT[e.ptr]
                if t[0] not in ('call', 'pure') or not re.search(r'>::(operator\[\]|at)\(', t[1]):
                    continue
                base, ix = t[2][0], t[2][1]
                while FT[ix][0] == 'cast':
                    ix = FT[ix][2]
                c = self.cell(base, {v: 'ph%d' % v for v in phs})
                m = re.fullmatch(r'#\d+\[ph(\d+)\]\.cranes', c)
                n = re.fullmatch(r'#\d+\[ph(\d+)\]\.piles\[(.*)\]\.stack', c)
                if not m and not n:
                    continue
                i = int((m or n).group(1))
                cnt = [v for v in phs if phs[v][0] == phs[i][0] and v != i]
                if len(cnt) != 1 or not self.counts(phs, i, paths):
                    return None
                cnt = cnt[0]
                env = {i: 'i', cnt: 'cnt'}
                R['loc'] = e.loc
                R['cnt'], R['iphi'] = cnt, i
                box = e.val if FT[e.val][0] == 'phi' else FT[e.val][2]
                if len(phs[cnt][2]) != 1:
                    return None
                src = self.poly(phs[cnt][2][0], {box: 'b'})
                pos = [k for k in src if k]
                if len(pos) != 1 or src[pos[0]] != 1 or not re.fullmatch(r'\*p\.pos\[b\]', pos[0][0]):
                    self.decide(False, 'round', 'reads', e.loc, "a box is restored from another box's place", '')
                    return None
                R['off'] = {(): src.get((), 0)} if src.get((), 0) else {}
                if not self.counts(phs, box, paths):
                    return None
                if m:
                    R['crane'] = self.poly(ix, env)
                    R['cguard'] = self.guard(p, ix, env)
                else:
                    pid = next((v for v in self.udivs(base)), None)
                    if pid is None or FT[ix][0] != 'op' or FT[ix][1] not in ('urem', 'srem'):
                        return None
                    R['num'], R['den'] = self.poly(FT[pid][2][0], env), self.poly(FT[pid][2][1], env)
                    R['rem'] = (self.poly(FT[ix][2][0], env), self.poly(FT[ix][2][1], env))
                    g = self.guard(p, FT[pid][2][0], env)
                    R['pguard'] = (R['num'], g)
            if p.kind == 'back' and 'cnt' in R and FT[R['cnt']][1] in p.st.user['back']:
                b = self.poly(p.st.user['back'][FT[R['cnt']][1]], {R['cnt']: 'cnt', R['iphi']: 'i'})
                steps.add(tuple(sorted(padd({('cnt',): 1}, b, -1).items())))
        # a box the robot holds
        for p in paths:
            phs = self.names(p)
            if p.kind != 'back':
                continue
            for e in p.ev:
                if e.kind == 'assume' and FT[e.val][0] == 'cmp':
                    t = FT[e.val]
                    if frozenset(t[1]) != frozenset('='):
                        continue
                    for x, y in ((t[2], t[3]), (t[3], t[2])):
                        if FT[y][0] == 'c' and FT[x][0] == 'ld' and re.match(r'\*p\.pos\[ph', self.cell(FT[x][1], {v: 'ph%d' % v for v in phs})):
                            R['robot'] = FT[y][1]
        rl = False
        for p in paths:
            for e in p.ev:
                if p.kind == 'ret' and e.kind == 'store' and flow.path(e.ptr) and self.cell(e.ptr, {}).endswith('.rloc') and FT[flow.root(e.ptr)][0] == 'arg':
                    rl = True
                    v = self.poly(e.val, {})
                    self.decide(v == {('*p.pos[d.nboxes]',): 1}, 'round', 'rloc', e.loc, "the robot is restored elsewhere", "the robot's location is restored")
        if len(steps) != 1 or not {'crane', 'num', 'off', 'robot', 'cguard'} <= set(R) or not rl:
            return None
        R['step'] = dict(next(iter(steps)))
        return R

    def udivs(self, v, d=0):
        t = FT[v]
        if t[0] == 'op' and t[1] in ('udiv', 'sdiv'):
            yield v
        elif d < 8:
            for x in ([t[1]] + [q[1] for q in t[2] if q[0] == 'i'] if t[0] == 'g' else t[2] if t[0] in ('call', 'pure') else [t[2]] if t[0] == 'cast' else []):
                yield from self.udivs(x, d + 1)

    def guard(self, p, x, env):
        """what the index is known to be below"""
        want = self.poly(x, env)
        for e in p.ev:
            if e.kind != 'assume' or FT[e.val][0] != 'cmp':
                continue
            t = FT[e.val]
            rel = frozenset(t[1])
            for a, b, r in ((t[2], t[3], rel), (t[3], t[2], frozenset(flow.FLIP[q] for q in rel))):
                if r == frozenset('<') and self.poly(a, env) == want and 'size' not in str(FT[b]):
                    return self.poly(b, env)
        return None


def one(job):
    dom, label, flags = job
    o = Out()
    d = Dom11(dom, flags)
    p = Pack(o, d, label)
    for what in ('eq', 'hash', 'round'):
        if dom == 'drobot' and what == 'round':
            dk = Docks(o, d.fns)
            dk.run()
            if p.E is not None and not p.vague:
                off = next(a for nm, a, sz, ty in B.leaves(d.layouts, p.ptype()) if nm == 'pos')
                o.decide({('in', ('deref', A1, off), k, j) for k in range(12) for j in range(8)} <= p.E, 'identity', 'drobot:compare', p.loc('dom_eq'), 'states that differ can compare equal: the comparison leaves out part of what is stored', None, 'drobot: every place is compared')
            continue
        try:
            getattr(p, what)()
        except B.Undecided as e:
            p.undecided(what, e)
            if what == 'eq':
                p.E = None
                break
    if p.stales:
        try:
            fresh(p)
        except B.Undecided as e:
            p.undecided('fresh', e)
    return o.done(), p.stales


def unset(b):
    return any(x[0] in ('undef', 'in', 'hv') for x in flat(b, set()))


def fresh(pk):
    """an estimate left as the buffer had it is computed anew if the buffer is a new state"""
    d, o = pk.d, pk.o
    outs = d.go('dom_fresh')
    for st, _ in outs:
        sink = next((x for x in st.log if x[0] == 'sink'), None)
        if sink is None:
            continue
        t = sink[1][-1]
        mem = {}
        for dom, nm, loc, off, sz in pk.stales:
            for k in range(sz):
                b = st.rd(t[1], t[2] + off + k)
                mem[off + k] = tuple(x if not unset(x) else ('undef', ('junk', nm), off + k, j) for j, x in enumerate(b))
        bad = None
        for s2, _ in d.go('dom_hd', {A1: mem}):
            src = set()
            for c in s2.cond:
                flat(c, src)
            for dom, nm, loc, off, sz in pk.stales:
                if not any(x[0] == 'store' and x[1] == A1 and x[2] <= off < x[2] + x[3] or x[0] == 'havoc' and x[1] == A1 for x in s2.log):
                    bad = nm
            for x in s2.log:
                if x[0] == 'sink':
                    for a in (x[1][0], x[1][2]):
                        for k in range(8):
                            flat(s2.rd(a[1], a[2] + k), src)
            for b in src:
                if b[0] == 'undef' and b[1][0] == 'junk':
                    bad = b[1][1]
                    break
        loc = pk.stales[0][2]
        o.decide(bad is None, 'round', pk.nm('fresh'), loc, 'the %s of a restored state is not computed' % bad, None, '%s: what restoring leaves alone in a new state is computed when it is needed' % pk.label)


def unpacks(i):
    return i['op'] == 'call' and ('::unpack(' in i['callee'] or '::State::State()' in i['callee'])


def r_buffers(o, fn, ps, alg):
    """every restoration is into a state made for it"""
    for p in ps:
        for k, e in enumerate(p.ev):
            if e.kind != 'call' or '::unpack(' not in e.name:
                continue
            buf = e.args[1]
            r = flow.root(buf)
            made, old = None, False
            for x in reversed(p.ev[:k]):
                if x.kind == 'call' and '::State::State()' in x.name and x.args[0] == buf:
                    made = True
                    break
                if x.kind == 'loop' or x.kind == 'call' and '::unpack(' in x.name and x.args[1] == buf:
                    old = True
                    break
            if not made and not old:
                o.ok('undecided', '%s: where a state is restored' % alg)
                continue
            o.decide(made, 'buffer', '%s:buffer' % alg, e.loc, 'a state is restored into one that may hold another state\'s estimates', lambda: trace(p), '%s: a state is restored into a new one' % alg)


def constants(o, dom, field):
    """the field is set by constructors and copies only"""
    n = 0
    for f in vf.graphs(dombc(dom), [r'^(Vacuum)(::|.*::)'], r'::State::State\(', force=FORCE):
        for i in f.instrs():
            if i['op'] != 'store':
                continue
            d = defs(f)
            g = regsource(f, i['ptr'])
            if not g or g['op'] != 'gep' or not g['path'] or g['path'][-1][0] != 'f' or g['path'][-1][2] != field:
                continue
            n += 1
            v = regsource(f, i['val'])
            cp = v and v['op'] == 'load' and (regsource(f, v['ptr']) or {}).get('path') and regsource(f, v['ptr'])['path'][-1][2:3] == (field,)
            cp = cp or bool(v) and v['op'] == 'load' and str((regsource(f, v['ptr']) or {}).get('path', '')).find("'%s'" % field) >= 0
            init = '::initialstate(' in f.dem or re.search(r'::State::State\(', f.dem)
            o.decide(bool(cp or init), 'identity', '%s:%s' % (dom, field), i.get('loc'), "%s changes while states are searched but is not compared" % field, None, '%s: %s never changes' % (dom, field))
    return n


def P11(pid, tier):
    c = Check(pid, tier, RULE, [])
    jobs = [(dom, dom if lb is None else dom + lb, fl) for dom in sorted(DOMS) for lb, fl in VARIANTS.get(dom, [(None, None)])]
    for r, s in vf.pmap(one, jobs):
        c.absorb(r)
    o = Out()
    constants(o, 'vacuum', 'energy')
    c.absorb(o.done())
    run_rules(c, [((unpacks, unpacks), r_buffers)])
    c.count('domains and board sizes', len(jobs))
    c.atleast('hash', 8)
    c.atleast('identity', 8)
    c.atleast('round', 40)
    c.atleast('buffer', 10)
    return c.finish()

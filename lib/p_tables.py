"""P09: hash tables, bucket queue, k-d tree, disjoint sets and memory pools."""
from p_structs import *


class TabEff(StructEff):
    FIELDS = []

    def havoc(self, name, ins):
        s = short(name)
        if s.endswith('::resize') or s.endswith('::newblk'):
            return [0]
        if re.search(r'^V\w+::|^operator (delete|new)|^llvm\.', name):
            return []
        if s.startswith(('Kdtree::insert', 'Djset::find', 'Kdtree::sqdist', 'Kdtree::nearest', 'Kdtree::depth')):
            return []
        return StructEff.havoc(self, name, ins)


ENT = re.compile(r'^V\w+::(closedentry|entry)\(')


class Heap(Sim):
    """array slots and element links along one path"""

    def __init__(self, p, fn, nonneg=()):
        self.fn = fn
        self.ver = {}
        self.last = {}
        self.writes = []        # (event number, cell, value)
        self.loadat = {}        # canonical value -> event number of its load
        super().__init__(p, nonneg)

    def canon(self, v):
        if v is None:
            return None
        m = self.map.get(v)
        if m is not None:
            return m
        t = T[v]
        if t[0] in ('call', 'pure'):
            n = t[1]
            if ENT.match(n):
                return mk('ent', self.canon(t[2][0]))
            return mk('fn', short(n), tuple(self.canon(x) for x in t[2]))
        if t[0] == 'op' and t[1] in ('urem', 'srem') or t[0] == 'op':
            a = tuple(self.canon(x) for x in t[2] if isinstance(x, int))
            return mk('op', t[1], a) if len(a) == len(t[2]) else v
        if t[0] == 'g':
            c = self.cell(v)
            if c is not None:
                return c
        return super().canon(v)

    def cell(self, ptr):
        """the array slot or link a pointer names, or None"""
        r, pp = root(ptr), path(ptr)
        t = T[r]
        if t[0] in ('call', 'pure') and ENT.match(t[1]) and pp:
            nm = 'prev' if pp[-1][-1] in ('prev', '#1') else 'nxt'
            return mk('cell', nm, mk('lnk', nm), self.canon(t[2][0]))
        if t[0] == 'phi' and not pp:
            return mk('cell', 'cur', mk('cur'), r)
        if len(pp) == 1 and pp[0][0] == 'i' and (t[0] == 'ld' or t[0] == 'fresh'):
            return mk('cell', 'arr', r, self.canon(pp[0][1]))
        if not pp and t[0] == 'ld' and lastfield(t[1]) and lastfield(t[1])[0] in ('ClosedList', 'Htable', 'Intpq', 'iterator'):
            return mk('cell', 'arr', r, const(0))
        return None

    def now(self, c):
        kd = T[c][2]
        L = self.last.get(kd, [])
        n = 0
        for q, v in reversed(L):
            if q == c:
                if n == 0:
                    return v
                break
            if T[q][1] == 'arr' and T[sub(T[q][3], T[c][3])][0] == 'c':
                continue
            if T[q][1] in ('nxt', 'prev') and self.distinct(T[q][3], T[c][3]):
                continue
            n += 1
        return mk('now', c, self.ver.get(kd, 0), n)

    def distinct(self, a, b):
        return self.eq(a, b) is False

    def write(self, k, c, v):
        kd = T[c][2]
        self.writes.append((k, c, v))
        if T[c][1] == 'cur':        # may be any slot or link
            self.bump(lambda q: q != kd)
        self.last.setdefault(kd, []).append((c, v))

    def bump(self, which):
        for kd in set(self.last) | set(self.ver) | self.kinds:
            if which(kd):
                self.ver[kd] = self.ver.get(kd, 0) + 1
                self.last[kd] = []

    kinds = frozenset()

    def step(self, k, e, marks):
        if e.kind in ('load', 'store'):
            c = self.cell(e.ptr)
            if c is None:
                return
            self.kinds = self.kinds | {T[c][2]}
            if e.kind == 'load':
                self.map[e.val] = v = self.now(c)
                self.loadat[v] = k
            else:
                self.write(k, c, self.canon(e.val))
        elif e.kind == 'loop':
            if any(i['op'] == 'store' and not self.scratch(i['ptr']) for b in self.fn.loops[e.val]['set'] for i in self.fn.blocks[b]):
                self.bump(lambda q: True)
        elif e.kind == 'call' and short(e.name).endswith('::resize'):
            self.bump(lambda q: True)

    def scratch(self, r):
        d, n = defs(self.fn), 0
        while r in d and d[r]['op'] == 'gep' and n < 50:
            r, n = d[r]['base'], n + 1
        return r in d and d[r]['op'] == 'alloca'

    def eq(self, a, b):
        """True / False / None: are two pointers (or numbers) equal on this path"""
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return True
        if {T[a][0], T[b][0]} & {'fresh', 'alloca'} and NULL in (a, b):
            return False
        for x, y, s in self.facts():
            if (x, y) in ((a, b), (b, a)):
                if s == frozenset('='):
                    return True
                if '=' not in s:
                    return False
        if T[a][0] == 'c' and T[b][0] == 'c':
            return False
        return None

    def order(self, a, b):
        """how the path orders a and b"""
        a, b = self.canon(a), self.canon(b)
        s = frozenset('<=>')
        for x, y, ss in self.facts():
            if (x, y) == (a, b):
                s &= ss
            elif (y, x) == (a, b):
                s &= frozenset({'<': '>', '>': '<'}.get(z, z) for z in ss)
        return s

    def testval(self, k, ptr):
        """what an object passed to a comparison holds"""
        for e in reversed(self.p.ev[:k]):
            if e.kind == 'store' and root(e.ptr) == root(ptr) and T[root(ptr)][0] == 'alloca':
                return self.canon(e.val)
        return self.canon(ptr)

    def tests(self):
        """[(unordered pair of compared things, outcome)]"""
        L = []
        for k, e in enumerate(self.p.ev):
            if e.kind == 'call' and (short(e.name).endswith('::eq') or short(e.name).endswith('operator==')):
                a = [self.testval(k, x) for x in e.args]
                a = [a[0], a[-1]] if len(a) >= 2 else a
                L.append((frozenset(a), truth(self.p, e.res)))
        return L

    def backval(self, reg):
        v = self.p.st.user['back'].get(reg)
        return None if v is None else self.canon(v)


def isfn(v, suffix):
    return T[v][0] == 'fn' and T[v][1].split('::')[-1] == suffix


def keyof(v):
    """x for key(x)"""
    return T[v][2][0] if isfn(v, 'key') else None


class Table:
    """the members of one hash table class and the fields' roles"""

    def __init__(self, name, fns):
        self.name = name
        self.f = {}
        for f in fns:
            m = re.match(r'^(\w+)<.*?>::((?:iterator::)?(?:operator\W+|~?\w+))\(', f.dem.replace(name + '<', name + '<', 1))
            nm = f.short.split('::', 1)[1]
            self.f[(nm, len(f.args))] = f
        self.ex = {}

    def paths(self, f):
        if f.dem not in self.ex:
            self.ex[f.dem] = [p for p in explore(f, eff=TabEff()).paths if p.kind != 'abort']
        return self.ex[f.dem]

    def field(self, f, name):
        return gep(ARG(f, 0), (('f', self.name, name),))

    def roles(self):
        """bins, nbins and fill, by what resize and add do"""
        f = self.f[('resize', 2)]
        rs = {}
        for p in self.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            for e in p.ev:
                if e.kind == 'store' and root(e.ptr) == ARG(f, 0) and len(path(e.ptr)) == 1:
                    nm = path(e.ptr)[0][2]
                    if T[e.val][0] == 'fresh':
                        rs.setdefault('arrays', {})[nm] = e.val
                    elif e.val == ARG(f, 1):
                        rs['nbins'] = nm
        if 'nbins' not in rs:
            for k in (('find', 2), ('find', 3)):
                for p in self.paths(self.f[k]) if k in self.f else ():
                    for e in p.ev:
                        if e.kind == 'load':
                            for x in path(e.ptr):
                                t = T[strip(x[1])] if x[0] == 'i' else None
                                if t and t[0] == 'op' and t[1] == 'urem' and T[t[2][1]][0] == 'ld':
                                    rs['nbins'] = lastfield(T[t[2][1]][1])[1]
        # the array of chains is the one the other is not: pointers are stored in it
        links = set()
        for p in self.paths(f):
            for e in p.ev:
                if e.kind == 'store' and T[root(e.ptr)][0] == 'fresh' and (e.val == NULL or T[e.val][0] == 'phi'):
                    links.add(root(e.ptr))
        rs['bins'] = next((n for n, v in rs.get('arrays', {}).items() if v in links), None)
        rs['counts'] = [n for n in rs.get('arrays', {}) if n != rs['bins']]
        add = self.f[('add', 3)]
        cand = None
        for p in self.paths(add):
            if p.kind not in ('ret', 'fall'):
                continue
            s = {path(e.ptr)[0][2] for e in p.ev if e.kind == 'store' and root(e.ptr) == ARG(add, 0) and len(path(e.ptr)) == 1}
            cand = s if cand is None else cand & s
        fills = [x for x in cand or () if x not in (rs['bins'], rs.get('nbins'))]
        rs['fill'] = fills[0] if len(fills) == 1 else None
        for k in ('bins', 'nbins', 'fill'):
            if not rs.get(k):
                raise AnalysisError('%s: cannot tell which member is the %s' % (self.name, k))
        return rs


class TableRules:
    def __init__(self, o, tab, rule):
        self.o, self.t, self.rule = o, tab, rule
        self.r = tab.roles()
        self.nm = tab.name

    def key(self, w):
        return '%s:%s' % (self.nm, w)

    def cell(self, f, p, what):
        return self.t.field(f, self.r[what])

    def bin(self, f, p, S, base, h):
        """the chain slot of hash h: array base, index"""
        return None

    def hash(self, f, S, keyobj):
        """is v the hash of keyobj (or the hash given)"""
        def ok(v):
            if len(f.args) == 3:
                return v == ARG(f, 2)
            return isfn(v, 'hash') and T[v][2] and T[v][2][0] == keyobj
        return ok

    def isbin(self, f, p, S, c, hashok, nb=None):
        """is cell c the chain of the hash in the table as it is now"""
        if T[c][0] != 'cell' or T[c][1] != 'arr':
            return False
        base, idx = T[c][2], T[c][3]
        if T[base][0] != 'ld' or T[base][1] != self.cell(f, p, 'bins'):
            return False
        if T[idx][0] != 'op' or T[idx][1] != 'urem':
            return False
        h, n = T[idx][2]
        return hashok(h) and T[n][0] == 'ld' and T[n][1] == self.cell(f, p, 'nbins')

    def cursors(self, f, p, S, hashok):
        """per loop: (element walked, prev phis, advance check)"""
        for e in p.ev:
            if e.kind != 'loop':
                continue
            elem = None
            prevs = {}
            regs = {}
            for reg, init in e.args:
                ph = mk('phi', reg, f.short)
                iv = [S.canon(x) for x in init] if init else []
                regs[ph] = reg
                if iv and all(T[x][0] == 'now' and self.isbin(f, p, S, T[x][1], hashok) for x in iv):
                    back = S.backval(reg) if p.kind == 'back' and p.where == e.val else None
                    prevs.setdefault(ph, 'head')
                elif iv and all(T[x][0] == 'cell' and self.isbin(f, p, S, x, hashok) for x in iv):
                    prevs[ph] = 'cell'
                elif iv and all(x == NULL for x in iv):
                    prevs[ph] = 'null'
            yield e, prevs, regs

    def walkinfo(self, f, hashok):
        """roles of the loop registers over all paths of f: reg -> elem/cell/prevhead/prevnull"""
        roles, why = {}, None
        P = self.t.paths(f)
        for p in P:
            if p.kind != 'back':
                continue
            S = Heap(p, f)
            for e, prevs, regs in self.cursors(f, p, S, hashok):
                if e.val != p.where:
                    continue
                for ph, kd in prevs.items():
                    nx = S.backval(regs[ph])
                    if kd == 'head' and T[nx] == T[mk('now', mk('cell', 'nxt', mk('lnk', 'nxt'), ph), S.ver.get(mk('lnk', 'nxt'), 0), 0)]:
                        roles.setdefault(ph, set()).add('elem')
                    elif kd == 'cell':
                        cur = next((m for m in S.map.values() if T[m][0] == 'now' and T[T[m][1]][0] == 'cell' and T[T[m][1]][1] == 'cur' and T[T[m][1]][3] == ph), None)
                        good = cur is not None and nx == mk('cell', 'nxt', mk('lnk', 'nxt'), cur)
                        roles.setdefault(ph, set()).add('cell' if good else '?')
                    else:
                        roles.setdefault(ph, set()).add(('prev' + kd, nx))
        return roles

    def elem(self, roles, S, ph):
        r = roles.get(ph)
        if r == {'elem'}:
            return ph
        if r == {'cell'}:
            return next((m for m in S.map.values() if T[m][0] == 'now' and T[T[m][1]][0] == 'cell' and T[T[m][1]][1] == 'cur' and T[T[m][1]][3] == ph), None)
        return None

    def lookup(self, f, removing):
        o, rule = self.o, self.rule
        nm = f.short.split('::')[-1]
        key = lambda w: self.key('%s:%s' % (nm, w))
        fill0 = None
        for p in self.t.paths(f):
            S = Heap(p, f)
            K = ARG(f, 1)
            hashok = self.hash(f, S, K)
            roles = self.walkinfo(f, hashok)
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            cur = [ph for ph, r in roles.items() if r in ({'elem'}, {'cell'})]
            if not S.feasible():
                continue
            r = None if p.ret is None else S.canon(p.ret)
            none = r in (NULL, FALSE) if r is not None else False
            W = [(k, c, v) for k, c, v in S.writes]
            fl = self.cell(f, p, 'fill')
            fin = p.value(fl)
            loops = [e for e in p.ev if e.kind == 'loop']
            if p.kind in ('ret', 'fall') and not loops:
                lds = [e.val for e in p.ev if e.kind == 'load' and root(e.ptr) == ARG(f, 0)]
                o.decide(none and any(S.eq(x, const(0)) for x in lds) and not W, rule, key('chain'), loc, 'decides without walking the chain of the key', tr)
                continue
            if not o.decide(len(cur) == 1, rule, key('chain'), loc, 'does not walk, link by link, the chain its key belongs to', tr, '%s::%s: walks the chain of hash %% size, link by link' % (self.nm, nm)):
                return
            E = self.elem(roles, S, cur[0])
            match = None
            for pr, out in S.tests():
                if any(keyof(x) is not None and keyof(x) == E for x in pr) and any(x == K or T[x][0] == 'ld' and False for x in pr | self.kvals(S, f)) and out is not None and self.same(pr, E, S, f):
                    match = out if match is None else match or out
            if p.kind == 'back':
                o.decide(match is False, rule, key('past'), loc, 'goes past an element without its key having been found different', tr, '%s::%s: passes only elements with another key' % (self.nm, nm))
                o.decide(not W and (fin is None or T[fin][0] == 'ld'), rule, key('quiet'), loc, 'changes the table while looking', tr)
                continue
            if none or r is not None and S.eq(r, NULL) is True:
                o.decide(S.eq(E, NULL) is True, rule, key('absent'), loc, 'says no before the chain has ended', tr, '%s::%s: absent only at the end of the chain' % (self.nm, nm))
                o.decide(not W and (fin is None or T[fin][0] == 'ld'), rule, key('keep'), loc, 'changes the table although nothing was found', tr)
                continue
            o.decide(match is True, rule, key('equal'), loc, 'takes an element whose key was not found equal', tr, '%s::%s: only an element with an equal key' % (self.nm, nm))
            if not removing:
                o.decide(r == E, rule, key('which'), loc, 'hands back something else than the element found', tr)
                o.decide(not W, rule, key('quiet'), loc, 'changes the table', tr)
                continue
            o.decide(r == E or (T[r][0] == 'c' and T[r][1] != 0), rule, key('which'), loc, 'hands back something else than the element found', tr)
            o.decide(fin is not None and T[sub(fin, const(0))][0] == 'sum' and any(T[x] == ('ld', fl, 0) or T[x][:2] == ('ld', fl) for x, _ in T[fin][1]) and T[fin][2] == -1, rule, key('count'), loc,
                     'the number of elements does not go down by one', tr, '%s::%s: counts one less' % (self.nm, nm))
            nxtE = lambda v: T[v][0] == 'now' and T[v][1] == mk('cell', 'nxt', mk('lnk', 'nxt'), E)
            Lk = [(k, c, v) for k, c, v in W if T[c][1] in ('nxt', 'cur') or self.isbase(f, T[c][2], 'bins')]
            Lk = [(k, c, v) for k, c, v in Lk if not (T[c][1] == 'nxt' and T[c][3] == E and v == NULL)]
            if not o.decide(len(Lk) == 1 and nxtE(Lk[0][2]), rule, key('unlink'), loc, 'the element found is not taken out of its chain', tr, '%s::%s: the link to the element is set to its successor' % (self.nm, nm)):
                continue
            k, c, v = Lk[0]
            pv = {}
            for ph, rr in roles.items():
                if len(rr) == 1 and isinstance(next(iter(rr)), tuple):
                    kd, nx = next(iter(rr))
                    if nx == cur[0] or self.trail(nx, cur[0]):
                        pv[ph] = kd
            first = None
            for ph, kd in pv.items():
                q = S.eq(ph, NULL) if kd == 'prevnull' else S.eq(ph, E)
                if q is not None:
                    first = q
            for m in S.map.values():
                if T[m][0] == 'now' and self.isbin(f, p, S, T[m][1], hashok):
                    q = S.eq(m, E)
                    if q is not None:
                        first = q
            if T[c][1] == 'arr':
                o.decide(self.isbin(f, p, S, c, hashok) and first is True, rule, key('head'), loc, 'the head of the chain is replaced although the element is not known to be first', tr, '%s::%s: the chain head is replaced only for the first element' % (self.nm, nm))
            elif T[c][1] == 'nxt':
                o.decide(T[c][3] in pv and first is False, rule, key('middle'), loc, 'the link that is changed is not the one leading to the element', tr, '%s::%s: further down, the predecessor\'s link is replaced' % (self.nm, nm))
            else:
                o.decide(T[c][3] == cur[0], rule, key('middle'), loc, 'the link that is changed is not the one leading to the element', tr)
            for cn in self.r['counts']:
                ws = [(c, v) for k, c, v in W if self.isbase(f, T[c][2], cn)]
                o.decide(len(ws) == 1 and T[ws[0][0]][3] == self.index(f, S, hashok) and self.isstep(S, ws[0], -1), rule, key(cn), loc, 'the count of the chain does not go down by one', tr, '%s::%s: counts one less in its chain' % (self.nm, nm))

    def trail(self, nx, cur):
        return False

    def isbase(self, f, b, name):
        return T[b][0] == 'ld' and T[b][1] == self.t.field(f, name)

    def index(self, f, S, hashok):
        for m in list(S.map.values()) + [c for _, c, _ in S.writes]:
            c = T[m][1] if T[m][0] == 'now' else m
            if T[c][0] == 'cell' and T[c][1] == 'arr':
                i = T[c][3]
                if T[i][0] == 'op' and T[i][1] == 'urem' and hashok(T[i][2][0]):
                    return i
        return None

    def isstep(self, S, w, d):
        c, v = w
        D = T[v]
        if D[0] != 'sum' or D[2] != d or len(D[1]) != 1 or D[1][0][1] != 1:
            return False
        x = D[1][0][0]
        return T[x][0] == 'now' and T[x][1] == c

    def kvals(self, S, f):
        return frozenset()

    def same(self, pr, E, S, f):
        """the pair compares E's key with the key asked for"""
        K = ARG(f, 1)
        return all(keyof(x) == E or x == K for x in pr)

    def add(self, f):
        o, rule = self.o, self.rule
        key = lambda w: self.key('add:%s' % w)
        n = ARG(f, 1)
        for p in self.t.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            S = Heap(p, f)
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            hashok = self.hash(f, S, mk('fn', next((short(e.name) for e in p.ev if e.kind == 'call' and short(e.name).endswith('::key')), ''), (n,)))
            W = S.writes
            bw = [(k, c, v) for k, c, v in W if T[c][1] == 'arr' and self.isbase(f, T[c][2], self.r['bins'])]
            lw = [(k, c, v) for k, c, v in W if T[c][1] == 'nxt']
            rz = max([k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name).endswith('::resize')] + [-1])
            if not o.decide(len(bw) == 1 and bw[0][2] == n and self.isbin(f, p, S, bw[0][1], hashok), rule, key('bin'), loc, 'the element is not put into the chain its key belongs to', tr, '%s::add: into the chain of hash %% size' % self.nm):
                continue
            k, c, v = bw[0]
            cur = [e for j, e in enumerate(p.ev) if e.kind == 'load' and e.ptr in (self.cell(f, p, 'bins'), self.cell(f, p, 'nbins')) and j > rz and e.val in (T[c][2], T[T[c][3]][2][1])]
            o.decide(len({e.val for e in cur}) == 2, rule, key('stale'), loc, 'the chain is computed from the table as it was before it grew', tr, '%s::add: the chain is chosen after growing' % self.nm)
            old = mk('now', c, S.ver.get(T[c][2], 0), 0)
            o.decide(len(lw) == 1 and T[lw[0][1]][3] == n and (lw[0][2] == old or T[lw[0][2]][0] == 'now' and T[lw[0][2]][1] == c and lw[0][0] > rz), rule, key('link'), loc, 'the rest of the chain is not linked behind the new element', tr,
                     '%s::add: the old chain follows the element' % self.nm)
            fl = self.cell(f, p, 'fill')
            fst = [e.val for e in p.ev if e.kind == 'store' and e.ptr == fl]
            fin = fst[0] if len(fst) == 1 else None
            o.decide(fin is not None and T[fin][0] == 'sum' and T[fin][2] == 1 and len(T[fin][1]) == 1 and T[T[fin][1][0][0]][:2] == ('ld', fl), rule, key('count'), loc, 'the number of elements does not go up by one', tr, '%s::add: counts one more' % self.nm)
            for cn in self.r['counts']:
                ws = [(c2, v2) for k2, c2, v2 in W if self.isbase(f, T[c2][2], cn)]
                o.decide(len(ws) == 1 and T[ws[0][0]][3] == T[c][3] and self.isstep(S, ws[0], 1), rule, key(cn), loc, 'the count of the chain does not go up by one', tr)
            for e in p.ev:
                if e.kind == 'call' and short(e.name).endswith('::resize'):
                    a = e.args[1]
                    t = T[a]
                    nb = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.cell(f, p, 'nbins')]
                    good = t[0] == 'c' and t[1] > 0 or any(S.eq(x, const(0)) is False and T[sub(a, x)][0] != 'c' and lead(a, x) >= 2 for x in nb)
                    o.decide(good, rule, key('grow'), e.loc, 'the table does not grow to a larger size', tr, '%s::add: grows to more chains' % self.nm)

    def resize(self, f):
        o, rule = self.o, self.rule
        key = lambda w: self.key('resize:%s' % w)
        P = self.t.paths(f)
        this, sz = ARG(f, 0), ARG(f, 1)
        # the new array
        new = set()
        for p in P:
            for e in p.ev:
                if e.kind == 'store' and e.ptr == self.t.field(f, self.r['bins']):
                    new.add(e.val)
        if not o.decide(len(new) == 1 and T[min(new)][0] == 'fresh', rule, key('array'), None, 'no new array is installed', None):
            return
        new = new.pop()
        cleared, moved = {}, set()
        oldb = lambda v: T[v][0] == 'ld' and T[v][1] == self.t.field(f, self.r['bins'])
        for p in P:
            S = Heap(p, f)
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            loops = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'loop']
            idx = {}
            for k, e in loops:
                for reg, init in e.args:
                    idx[mk('phi', reg, f.short)] = (reg, [S.canon(x) for x in init or ()], e.val)
            for k, c, v in S.writes:
                if T[c][1] == 'arr' and T[c][2] == new and v == NULL and T[c][3] in idx:
                    ph = T[c][3]
                    reg, init, h = idx[ph]
                    if p.kind == 'back' and p.where == h:
                        cleared[h] = (ph, init == [const(0)] and S.backval(reg) == fsum([(ph, 1)], 1))
                elif T[c][1] == 'arr' and T[c][2] == new:
                    # an element moved over
                    E = v
                    ent = idx.get(E)
                    if not o.decide(ent is not None and len(ent[1]) == 1 and T[ent[1][0]][0] == 'now' and T[T[ent[1][0]][1]][1] == 'arr' and oldb(T[T[ent[1][0]][1]][2]), rule, key('chain'), p.ev[k].loc, 'what is moved is not an element of an old chain', tr):
                        continue
                    reg, init, h = ent
                    oc = T[init[0]][1]
                    oi = idx.get(T[oc][3])
                    moved.add((h, oi[2] if oi else None))
                    o.decide(oi is not None and oi[1] == [const(0)], rule, key('from'), p.ev[k].loc, 'old chains are left out', tr, '%s::resize: old chains from the first' % self.nm)
                    i = T[c][3]
                    hk = T[i][0] == 'op' and T[i][1] == 'urem' and T[i][2][1] == sz and isfn(T[i][2][0], 'hash') and keyof(T[T[i][2][0]][2][0]) == E
                    o.decide(hk, rule, key('rehash'), p.ev[k].loc, 'an element goes to another chain than its key\'s in the new table', tr, '%s::resize: every element goes to hash %% new size' % self.nm)
                    lw = [(j, c2, v2) for j, c2, v2 in S.writes if T[c2][1] == 'nxt']
                    o.decide(len(lw) == 1 and T[lw[0][1]][3] == E and T[lw[0][2]][0] == 'now' and T[lw[0][2]][1] == c and T[lw[0][2]][3] == 0, rule, key('link'), p.ev[k].loc, 'the elements already moved are not kept behind it', tr, '%s::resize: linked in front of the new chain' % self.nm)
                    for cn in self.r['counts']:
                        ws = [(c2, v2) for j, c2, v2 in S.writes if T[c2][1] == 'arr' and T[c2][2] != new and j != k]
                        o.decide(len(ws) == 1 and T[ws[0][0]][3] == i and self.isstep(S, ws[0], 1), rule, key(cn), loc, 'the count of the new chain does not go up by one', tr)
                    if p.kind == 'back' and p.where == h:
                        nx = S.backval(reg)
                        o.decide(nx is not None and T[nx][0] == 'now' and T[nx][1] == mk('cell', 'nxt', mk('lnk', 'nxt'), E) and T[nx][3] == 0 and S.loadat.get(nx, 1 << 30) < lw[0][0] if lw else False, rule, key('next'), p.ev[k].loc,
                                 'goes on from the element\'s new successor: the rest of the old chain is lost', tr, '%s::resize: the old successor is remembered' % self.nm)
            if p.kind == 'back' and p.where in [h for h in cleared]:
                ph = cleared[p.where][0]
                o.decide(any(T[c][1] == 'arr' and T[c][2] == new and T[c][3] == ph and v == NULL for _, c, v in S.writes), rule, key('clear'), loc, 'not every new chain starts empty', tr)
            # leaving the loops
            for k, e in loops:
                for reg, init in e.args:
                    ph = mk('phi', reg, f.short)
                    h = e.val
                    if p.kind == 'back' and p.where == h:
                        if init and [S.canon(x) for x in init] == [const(0)] and ph in [T[c][3] for _, c, _ in S.writes] + [T[T[x][1]][3] for x in S.map.values() if T[x][0] == 'now' and T[T[x][1]][1] == 'arr']:
                            o.decide(sub(S.backval(reg), ph) == const(1), rule, key('step'), e.loc, 'chains are left out', tr)
            if p.kind in ('ret', 'fall'):
                seen = [e.val for _, e in loops]
                cl = [h for h in seen if h in cleared or any(h == x for x in cleared)]
                lims = []
                for k, e in loops:
                    for reg, init in e.args:
                        ph = mk('phi', reg, f.short)
                        lims.append((e.val, ph))
                for h, (ph, good) in cleared.items():
                    o.decide(good and h in seen and S.rng(ph, sz)[0] >= 0, rule, key('clear'), loc, 'not every new chain starts empty', tr, '%s::resize: every new chain starts empty' % self.nm)
                o.decide(bool(cleared), rule, key('clear'), loc, 'the new chains are not emptied first', tr)
                for h, oh in moved:
                    nb = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['nbins'])]
                    phs = [ph for hh, ph in lims if hh == oh]
                    o.decide(bool(phs) and any(S.rng(ph, x)[0] >= 0 for ph in phs for x in nb), rule, key('to'), loc, 'the last old chains are left out', tr, '%s::resize: up to the last old chain' % self.nm)
                o.decide(p.value(self.t.field(f, self.r['nbins'])) == sz and p.value(self.t.field(f, self.r['bins'])) == new, rule, key('install'), loc, 'the new size and array are not installed together', tr, '%s::resize: array and size are replaced together' % self.nm)
                fl = p.value(self.t.field(f, self.r['fill']))
                o.decide(fl is None or T[fl][0] == 'ld', rule, key('count'), loc, 'the number of elements changes', tr)
                # the memory released is the old one, and released late
                for j, e in enumerate(p.ev):
                    if e.kind == 'call' and re.search(r'delete', e.name) and e.args:
                        st = [q for q, x in enumerate(p.ev) if x.kind == 'loop']
                        o.decide(T[S.canon(e.args[0])][0] == 'ld' and T[S.canon(e.args[0])][1] in [self.t.field(f, a) for a in [self.r['bins']] + self.r['counts']] and j > max(st), rule, key('release'), e.loc, 'releases an array that is still used', tr, '%s::resize: releases only the old arrays, afterwards' % self.nm)
            elif p.kind == 'back':
                # the middle loop must go over each chain to its end
                for h, oh in moved:
                    if p.where == oh:
                        ph = [mk('phi', reg, f.short) for k, e in loops if e.val == h for reg, init in e.args]
                        if any(e.val == h for _, e in loops):
                            o.decide(any(S.eq(x, NULL) is True for x in ph), rule, key('end'), loc, 'leaves a chain before its end', tr, '%s::resize: each chain to its end' % self.nm)
                        else:
                            hd = [m for m in S.map.values() if T[m][0] == 'now' and T[T[m][1]][1] == 'arr' and oldb(T[T[m][1]][2])]
                            o.decide(any(S.eq(x, NULL) is True for x in hd), rule, key('skip'), loc, 'a chain that may hold elements is left out', tr)
        o.decide(bool(moved), rule, key('moves'), None, 'the elements are not moved to the new chains', None)

    def clear(self, f):
        o, rule = self.o, self.rule
        key = lambda w: self.key('clear:%s' % w)
        arrs = [self.r['bins']] + self.r['counts']
        done = {a: set() for a in arrs}
        for p in self.t.paths(f):
            S = Heap(p, f)
            tr = lambda: trace(p)
            loops = {e.val: e for e in p.ev if e.kind == 'loop'}
            for a in arrs:
                for k, c, v in S.writes:
                    if T[c][1] == 'arr' and self.isbase(f, T[c][2], a) and v in (NULL, const(0)):
                        for h, e in loops.items():
                            for reg, init in e.args:
                                ph = mk('phi', reg, f.short)
                                if ph == T[c][3] and [S.canon(x) for x in init] == [const(0)] and p.kind == 'back' and p.where == h and sub(S.backval(reg), ph) == const(1):
                                    done[a].add(ph)
        for p in self.t.paths(f):
            if p.kind == 'back':        # no round of the loop may leave its slot
                S = Heap(p, f)
                e = next(x for x in p.ev if x.kind == 'loop' and x.val == p.where)
                for reg, init in e.args:
                    ph = mk('phi', reg, f.short)
                    for a in arrs:
                        if ph in done[a]:
                            o.decide(any(T[c][1] == 'arr' and T[c][3] == ph and self.isbase(f, T[c][2], a) and v in (NULL, const(0)) for k, c, v in S.writes), rule, key(a), e.loc, 'not every chain is emptied', lambda: trace(p))
        for p in self.t.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            S = Heap(p, f)
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            nb = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['nbins'])]
            for a in arrs:
                bulk = False
                for e in p.ev:
                    if e.kind == 'call' and re.search(r'memset|^(void )?std::fill', e.name) and e.args and self.isbase(f, e.args[0], a):
                        bulk = True
                o.decide(bulk or any(S.rng(ph, x)[0] >= 0 for ph in done[a] for x in nb), rule, key(a), loc, 'not every chain is emptied', tr, '%s::clear: every chain is emptied' % self.nm)
            o.decide(p.value(self.t.field(f, self.r['fill'])) == const(0), rule, key('count'), loc, 'the number of elements is not set to zero', tr, '%s::clear: counts none' % self.nm)

    def ctor(self, f):
        o, rule = self.o, self.rule
        key = lambda w: self.key('new:%s' % w)
        for p in self.t.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            have = {}
            rz = None
            for k, e in enumerate(p.ev):
                if e.kind == 'store' and root(e.ptr) == ARG(f, 0) and len(path(e.ptr)) == 1 and rz is None:
                    have[path(e.ptr)[0][2]] = e.val
                if e.kind == 'call' and short(e.name).endswith('::resize'):
                    rz = k
            o.decide(rz is not None, rule, key('resize'), loc, 'starts without chains', tr)
            want = [self.r['bins'], self.r['nbins'], self.r['fill']] + self.r['counts']
            o.decide(all(have.get(w) in (NULL, const(0)) for w in want), rule, key('zero'), loc, 'starts with %s not set' % ', '.join(w for w in want if have.get(w) not in (NULL, const(0))), tr, '%s: starts empty' % self.nm)

    def iteration(self):
        """begin, ++, == and * visit every element once"""
        o = self.o
        F = self.t.f
        f = F[('iterator::operator++', 1)]
        r = {}
        st = None
        for p in self.t.paths(f):
            for e in p.ev:
                if e.kind == 'load' and root(e.ptr) == ARG(f, 0) and len(path(e.ptr)) == 1:
                    st = path(e.ptr)[0][1]
                    r.setdefault(path(e.ptr)[0][2], set()).add(e.val)
        ro = {}
        for p in self.t.paths(f):
            S = Heap(p, f)
            for e in p.ev:
                if e.kind == 'call' and ENT.match(e.name):
                    ro.update({'n': x for x, vs in r.items() if e.args[0] in vs})
                c = S.cell(e.ptr) if e.kind == 'load' else None
                if c is not None and T[c][1] == 'arr':
                    ro.update({'arr': x for x, vs in r.items() if T[c][2] in vs})
                    for x in p.ev:
                        if x.kind == 'store' and path(x.ptr) and path(x.ptr)[-1][2] in r and sub(x.val, T[c][3]) == const(1):
                            ro['b'] = path(x.ptr)[-1][2]
        ro.setdefault('b', next((x for x in r if any(e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == x and x != ro.get('n') for p in self.t.paths(f) for e in p.ev)), None))
        ro['nb'] = next((x for x in r if x not in ro.values()), None)
        if not all(ro.get(x) for x in ('n', 'b', 'arr', 'nb')):
            raise AnalysisError('%s: cannot tell the iterator\'s members apart (%s)' % (self.nm, ro))
        self.it = {k: (('f', st, v),) for k, v in ro.items()}
        for p in self.t.paths(f):
            S = Heap(p, f)
            if S.feasible():
                self.advance(f, p, S, False)
        f = next(F[k] for k in F if k[0] == 'begin')
        for p in self.t.paths(f):
            S = Heap(p, f)
            if S.feasible():
                self.advance(f, p, S, True)
        f = next(F[k] for k in F if k[0] == 'end')
        for p in self.t.paths(f):
            if p.kind in ('ret', 'fall'):
                it = ARG(f, 0)
                bv = p.value(gep(it, self.it['b']))
                o.decide(p.value(gep(it, self.it['n'])) == NULL and T[bv][0] == 'ld' and T[bv][1] == gep(ARG(f, 1), (('f', self.nm, self.r['nbins']),)), 'iterate', self.key('end'), p.ev[-1].loc if p.ev else None,
                         'is not the place past the last chain', lambda: trace(p), 'end: past the last chain')
        for k, f in F.items():
            if not k[0].startswith('iterator::operator') or k[0][18:] not in ('==', '!=', '*'):
                continue
            for p in self.t.paths(f):
                if p.kind not in ('ret', 'fall'):
                    continue
                n1 = gep(ARG(f, 0), self.it['n'])
                if k[0][18:] == '*':
                    o.decide(T[p.ret][:2] == ('ld', n1), 'iterate', self.key('iterator*'), None, 'is not the element the iterator is at', lambda: trace(p), 'iterator *')
                    continue
                S = Heap(p, f)
                n2 = gep(ARG(f, 1), self.it['n'])
                a = next((e.val for e in p.ev if e.kind == 'load' and e.ptr == n1), None)
                b = next((e.val for e in p.ev if e.kind == 'load' and e.ptr == n2), None)
                eqv = truth(p, p.ret)
                if k[0][18:] == '!=' and eqv is not None:
                    eqv = not eqv
                q = S.eq(a, b) if None not in (a, b) else None
                good = eqv is False and q is False or q is True and eqv is not False
                if eqv is False and q is True:      # then the chains must differ
                    b1, b2 = [next((e.val for e in p.ev if e.kind == 'load' and e.ptr == gep(ARG(f, i), self.it['b'])), None) for i in (0, 1)]
                    good = None not in (b1, b2) and S.eq(b1, b2) is False
                if q is None and T[p.ret][0] == 'cmp':
                    good = {T[p.ret][2], T[p.ret][3]} == {a, b} and set(T[p.ret][1]) == (set('=') if k[0][18:] == '==' else set('<>'))
                elif q is True and eqv is None:
                    b1, b2 = [next((e.val for e in p.ev if e.kind == 'load' and e.ptr == gep(ARG(f, i), self.it['b'])), None) for i in (0, 1)]
                    good = p.ret == cmpval('eq' if k[0][18:] == '==' else 'ne', b1, b2, 'i')
                o.decide(good, 'iterate', self.key('iterator' + k[0][18:]), None, 'does not tell two places apart', lambda: trace(p), 'iterator %s: same element' % k[0][18:])

    def advance(self, f, p, S, first):
        o, rule = self.o, 'iterate'
        key = lambda w: self.key(('begin:' if first else 'iterator++:') + w)
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        who = 'begin' if first else 'iterator ++'
        it = ARG(f, 0)
        B, N, NB, BS = [gep(it, self.it[x]) for x in ('b', 'n', 'nb', 'arr')]
        if first:
            tabf = lambda n: gep(ARG(f, 1), (('f', self.nm, self.r[n]),))
            nbs = {e.val for e in p.ev if e.kind == 'load' and e.ptr in (NB, tabf('nbins'))}
        else:
            nbs = {e.val for e in p.ev if e.kind == 'load' and e.ptr == NB}
        past = lambda i: any(S.rng(i, x)[0] >= 0 for x in nbs)
        b0 = next((e.val for e in p.ev if e.kind == 'load' and e.ptr == B), None)
        n0 = next((e.val for e in p.ev if e.kind == 'load' and e.ptr == N), None)
        slots = []
        for e in p.ev:
            if e.kind == 'load' and e.val in S.map and T[S.map[e.val]][0] == 'now' and T[T[S.map[e.val]][1]][1] == 'arr':
                m = S.map[e.val]
                slots.append((m, T[T[m][1]][3], S.eq(m, NULL)))
        loops = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'loop']
        fin, finb = p.value(N), p.value(B)
        if not first:
            nxt = [m for m in S.map.values() if T[m][0] == 'now' and T[T[m][1]][1] == 'nxt' and T[T[m][1]][3] == n0]
            if not nxt:
                if p.kind in ('ret', 'fall'):
                    o.decide(b0 is not None and past(b0) or n0 is not None and S.eq(n0, NULL) is True, rule, key('stop'), loc, 'does not go on although elements may follow', tr, 'iterator ++: stops only past the last chain')
                return
            alive = S.eq(nxt[0], NULL)
            if alive is False:
                o.decide(S.canon(fin) == nxt[0], rule, key('next'), loc, 'does not go on to the next element of the chain', tr, 'iterator ++: first along the chain')
                o.decide(not any(e.kind == 'store' and e.ptr == B for e in p.ev), rule, key('bin'), loc, 'leaves the chain early', tr)
                return
            if not o.decide(alive is True, rule, key('end'), loc, 'leaves a chain without having reached its end', tr):
                return
            start = [fsum([(b0, 1)], 1)] if b0 is not None else []
        else:
            start = [const(0)]
            z = [q for m, i, q in slots if i == const(0)]
            if z and z[0] is True:
                start.append(const(1))
        # the skipping loop
        idx = None
        for k, e in loops:
            st = [x.val for x in p.ev[:k] if x.kind == 'store' and x.ptr == B]
            phis = [(mk('phi', reg, f.short), reg, [S.canon(x) for x in init or ()]) for reg, init in e.args]
            used = [i for m, i, q in slots]
            ph = next(((x, reg, init) for x, reg, init in phis if x in used), None)
            ini = ph[2] if ph else st[-1:]
            o.decide(bool(ini) and all(x in start for x in ini), rule, key('from'), e.loc, 'does not go on with the following chain', tr, '%s: goes on with the %s chain' % (who, 'first' if first else 'following'))
            if p.kind == 'back' and p.where == e.val:
                emp = [i for m, i, q in slots if q is True and i not in (const(0),)]
                nx = S.backval(ph[1]) if ph else next((x.val for x in reversed(p.ev) if x.kind == 'store' and x.ptr == B), None)
                cur = ph[0] if ph else emp[-1] if emp else None
                o.decide(cur is not None and cur in emp and nx is not None and sub(nx, cur) == const(1), rule, key('skip'), e.loc, 'passes over a chain that was not found empty', tr, '%s: passes only empty chains' % who)
        if p.kind not in ('ret', 'fall'):
            return
        if first:
            for F2, w in ((NB, 'nbins'), (BS, 'bins')):
                v = p.value(F2)
                o.decide(v is not None and T[v][:2] == ('ld', gep(ARG(f, 1), (('f', self.nm, self.r[w]),))), rule, key('table'), loc, 'the iterator is not given the table', tr, 'begin: ranges over the table')
        S.map.setdefault(finb, finb)
        i = S.canon(finb) if finb is not None else None
        hit = [(m, j) for m, j, q in slots if m == S.canon(fin) and q is False]
        if hit:
            o.decide(hit[-1][1] == i and (loops or i in start), rule, key('head'), loc, 'names an element of one chain but stands at another', tr, '%s: the first element of the chain it stands at' % who)
        else:
            pastend = i is not None and past(i) or not loops and any(S.eq(x, const(0)) is True for x in nbs)
            o.decide(S.canon(fin) is not None and S.eq(S.canon(fin), NULL) is True and pastend, rule, key('none'), loc, 'ends although elements may follow', tr, '%s: no element only past the last chain' % who)


def lead(a, x):
    """coefficient of x in a"""
    t = T[a]
    if a == x:
        return 1
    if t[0] == 'sum':
        return sum(k for y, k in t[1] if y == x)
    if t[0] == 'cast':
        return lead(t[2], x)
    return 0


# ---------------------------------------------------------------- bucket queue
class PqRules(TableRules):
    def __init__(self, o, tab):
        self.o, self.t, self.rule, self.nm = o, tab, 'bucketqueue', tab.name
        self.r = rs = {'counts': []}
        f = tab.f[('resize', 2)]
        for p in tab.paths(f):
            for e in p.ev:
                if p.kind in ('ret', 'fall') and e.kind == 'store' and root(e.ptr) == ARG(f, 0) and len(path(e.ptr)) == 1:
                    if T[e.val][0] == 'fresh':
                        rs['bins'] = path(e.ptr)[0][2]
                    elif e.val == ARG(f, 1):
                        rs['nbins'] = path(e.ptr)[0][2]
        f = tab.f[('pop', 1)]
        for p in tab.paths(f):
            if p.kind == 'ret' and p.ret == NULL:
                x = next((e for e in p.ev if e.kind == 'load' and root(e.ptr) == ARG(f, 0)), None)
                if x is not None:
                    rs['fill'] = path(x.ptr)[0][2]
            for e in p.ev:
                c = Heap(p, f).cell(e.ptr) if e.kind == 'load' else None
                if c is not None and T[c][1] == 'arr' and T[T[c][3]][0] == 'ld' and lastfield(T[T[c][3]][1]):
                    rs['end'] = lastfield(T[T[c][3]][1])[1]
        f = tab.f[('push', 3)]
        if 'end' not in rs:
            for p in tab.paths(f):
                for e in p.ev:
                    if e.kind == 'store' and e.val == ARG(f, 2) and root(e.ptr) == ARG(f, 0):
                        rs['end'] = path(e.ptr)[0][2]
        for k in ('bins', 'nbins', 'fill', 'end'):
            if k not in rs:
                raise AnalysisError('%s: cannot tell which member is the %s' % (self.nm, k))

    def lk(self, nm, x):
        return mk('cell', nm, mk('lnk', nm), x)

    def isnow(self, v, c):
        return T[v][0] == 'now' and T[v][1] == c

    def slot(self, f, c, idx=None):
        return T[c][0] == 'cell' and T[c][1] == 'arr' and self.isbase(f, T[c][2], self.r['bins']) and (idx is None or T[c][3] == idx)

    def counted(self, f, p, d, key, loc, tr):
        fl = self.t.field(f, self.r['fill'])
        fin = p.value(fl)
        self.o.decide(fin is not None and T[fin][0] == 'sum' and T[fin][2] == d and len(T[fin][1]) == 1 and T[T[fin][1][0][0]][:2] == ('ld', fl), self.rule, key('count'), loc,
                      'the number of elements does not change by %+d' % d, tr, '%s: counts %+d' % (f.short, d))

    def push(self):
        o, rule = self.o, self.rule
        f = self.t.f[('push', 3)]
        e, pr = ARG(f, 1), ARG(f, 2)
        key = lambda w: self.key('push:%s' % w)
        for p in self.t.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            S = Heap(p, f, nonneg=[pr])
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            bw = [(k, c, v) for k, c, v in S.writes if T[c][1] == 'arr']
            if not o.decide(len(bw) == 1 and self.slot(f, bw[0][1], pr) and bw[0][2] == e, rule, key('slot'), loc, 'the element does not become first of the bucket of its priority', tr, '%s::push: first of its priority\'s bucket' % self.nm):
                continue
            k, c, v = bw[0]
            rz = [j for j, x in enumerate(p.ev) if x.kind == 'call' and short(x.name).endswith('::resize')]
            bl = [j for j, x in enumerate(p.ev) if x.kind == 'load' and x.val == T[c][2]]
            o.decide(not rz or max(bl) > max(rz), rule, key('stale'), loc, 'uses the array as it was before it grew', tr)
            if rz:
                a = p.ev[rz[-1]].args[1]
                t = T[a]
                o.decide(self.above(S, a, pr), rule, key('grow'), p.ev[rz[-1]].loc, 'the queue may grow to %s, which may not cover the priority' % show(a), tr, '%s::push: grows beyond the priority' % self.nm)
            else:
                nb = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['nbins'])]
                o.decide(any(S.rng(pr, x)[1] < 0 for x in nb), rule, key('bounds'), loc, 'a bucket beyond the last is used', tr, '%s::push: only buckets that exist' % self.nm)
            last = {}
            for j, cc, vv in S.writes:
                last[cc] = vv
            heads = [m for m in S.map.values() if self.isnow(m, c)]
            H = heads[0] if heads else None
            o.decide(H is not None and self.isnow(last.get(self.lk('nxt', e), NULL), c), rule, key('next'), loc, 'the rest of the bucket is not linked behind the new element', tr, '%s::push: the bucket follows the element' % self.nm)
            o.decide(last.get(self.lk('prev', e)) == e, rule, key('first'), loc, 'the new element is not marked as first', tr, '%s::push: marked as first' % self.nm)
            if H is not None:
                q = S.eq(H, NULL)
                o.decide(q is True or q is False and last.get(self.lk('prev', H)) == e, rule, key('prev'), loc, 'the former first element is not linked back to the new one', tr, '%s::push: the former first links back' % self.nm)
            en = self.t.field(f, self.r['end'])
            fin = p.value(en)
            fl = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['fill'])]
            olds = [x.val for x in p.ev if x.kind == 'load' and x.ptr == en]
            if any(x.kind == 'store' and x.ptr == en for x in p.ev):
                o.decide(fin == pr and (any(S.eq(x, const(0)) is True for x in fl) or any(S.rng(pr, x)[1] <= 0 for x in olds)) or T[fin][0] == 'ld' and 'min' in show(fin), rule, key('end'), loc, 'the place where popping starts is moved past elements', tr, '%s::push: popping starts no later than the lowest priority' % self.nm)
            else:
                o.decide(any(S.rng(x, pr)[1] <= 0 for x in olds), rule, key('end'), loc, 'popping would start past the new element', tr)
            self.counted(f, p, 1, key, loc, tr)

    def above(self, S, a, pr):
        t = T[a]
        if t[0] == 'c':
            return S.rng(pr, const(t[1]))[1] < 0
        if t[0] == 'cast':
            return self.above(S, t[2], pr)
        if t[0] == 'op' and t[1] in ('fmul', 'mul') or t[0] == 'mul':
            ops = [x for x in (t[2] if t[0] == 'op' else t[1]) if isinstance(x, int)]
            ks = [numconst(x) for x in ops]
            return any(self.above(S, x, pr) for x, k in zip(ops, ks) if k is None) and all(k is None or k >= 1 for k in ks)
        if t[0] == 'sum':
            cs = [k for x, k in t[1] if strip(x) == pr]
            if len(t[1]) == 1 and cs and cs[0] >= 1 and t[2] >= 1:
                return True
            if len(t[1]) == 1 and t[2] >= 0 and t[1][0][1] >= 1:
                return self.above(S, t[1][0][0], pr)
        return S.rng(a, pr)[0] > 0

    def pop(self):
        o, rule = self.o, self.rule
        f = self.t.f[('pop', 1)]
        key = lambda w: self.key('pop:%s' % w)
        en = self.t.field(f, self.r['end'])
        for p in self.t.paths(f):
            S = Heap(p, f)
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            fl = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['fill'])]
            slots = [(m, T[T[m][1]][3], S.eq(m, NULL)) for m in S.map.values() if T[m][0] == 'now' and self.slot(f, T[m][1])]
            loops = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'loop']
            e0 = next((x.val for x in p.ev if x.kind == 'load' and x.ptr == en), None)
            for k, e in loops:
                phis = [(mk('phi', reg, f.short), reg, [S.canon(x) for x in init or ()]) for reg, init in e.args]
                ph = next((z for z in phis if z[0] in [i for _, i, _ in slots]), None)
                if ph:
                    o.decide(all(T[x][:2] == ('ld', en) for x in ph[2]), rule, key('from'), e.loc, 'does not start at the lowest priority', tr)
                else:
                    o.decide(not any(x.kind == 'store' and x.ptr == en for x in p.ev[:k]), rule, key('from'), e.loc, 'does not start at the lowest priority', tr)
                if p.kind == 'back' and p.where == e.val:
                    emp = [i for _, i, q in slots if q is True]
                    nx = S.backval(ph[1]) if ph else next((x.val for x in reversed(p.ev) if x.kind == 'store' and x.ptr == en), None)
                    o.decide(bool(emp) and nx is not None and sub(nx, emp[-1]) == const(1), rule, key('skip'), e.loc, 'passes over a bucket that was not found empty', tr, '%s::pop: passes only empty buckets' % self.nm)
            if p.kind not in ('ret', 'fall'):
                continue
            r = S.canon(p.ret)
            if r == NULL:
                o.decide(any(S.eq(x, const(0)) is True for x in fl) and not S.writes, rule, key('none'), loc, 'hands out nothing although there are elements', tr, '%s::pop: nothing only when empty' % self.nm)
                continue
            o.decide(any(S.eq(x, const(0)) is False for x in fl), rule, key('empty'), loc, 'hands out an element of an empty queue', tr)
            hit = [i for m, i, q in slots if m == r and q is False]
            if not o.decide(bool(hit), rule, key('which'), loc, 'does not hand out the first element of the first bucket that has one', tr, '%s::pop: the first element of the lowest bucket' % self.nm):
                continue
            self.unlink(f, p, S, r, hit[0], key, loc, tr, True)
            fin = p.value(en)
            stored = any(x.kind == 'store' and x.ptr == en for x in p.ev)
            o.decide(fin == hit[0] or not stored, rule, key('end'), loc, 'the place where popping starts is moved past elements', tr)
            self.counted(f, p, -1, key, loc, tr)

    def unlink(self, f, p, S, E, idx, key, loc, tr, first):
        o, rule = self.o, self.rule
        last = {}
        for j, cc, vv in S.writes:
            last[cc] = vv
        N = next((m for m in S.map.values() if self.isnow(m, self.lk('nxt', E))), None)
        P = next((m for m in S.map.values() if self.isnow(m, self.lk('prev', E))), None)
        o.decide(last.get(self.lk('prev', E)) == NULL, rule, key('out'), loc, 'the element is not marked as gone', tr, '%s: marked as gone' % f.short)
        if not o.decide(N is not None, rule, key('next'), loc, 'the rest of the bucket is not kept', tr):
            return
        lead = [(c, v) for c, v in last.items() if T[c][1] == 'arr' or T[c][1] == 'nxt']
        if first:
            o.decide(len(lead) == 1 and self.slot(f, lead[0][0], idx) and self.isnow(lead[0][1], self.lk('nxt', E)), rule, key('head'), loc, 'the rest of the bucket does not take the place of the element', tr, '%s: the successor becomes first' % f.short)
        else:
            o.decide(P is not None and len(lead) == 1 and T[lead[0][0]][1] == 'nxt' and self.isnow(T[lead[0][0]][3], self.lk('prev', E)) and self.isnow(lead[0][1], self.lk('nxt', E)), rule, key('middle'), loc, 'the predecessor does not lead to the successor', tr, '%s: predecessor leads to successor' % f.short)
        q = S.eq(N, NULL)
        pv = [v for c, v in last.items() if T[c][1] == 'prev' and self.isnow(T[c][3], self.lk('nxt', E))]
        if q is True:
            o.decide(not pv, rule, key('null'), loc, 'writes to a successor that does not exist', tr)
        else:
            good = len(pv) == 1 and (self.isnow(pv[0], self.lk('nxt', E)) if first else self.isnow(pv[0], self.lk('prev', E)))
            o.decide(q is False and good, rule, key('back'), loc, 'the successor is not %s' % ('marked as first' if first else 'linked back to the predecessor'), tr, '%s: the successor is linked back' % f.short)

    def rm(self):
        o, rule = self.o, self.rule
        f = self.t.f[('rm', 3)]
        key = lambda w: self.key('rm:%s' % w)
        E = ARG(f, 1)
        for p in self.t.paths(f):
            if p.kind not in ('ret', 'fall'):
                continue
            S = Heap(p, f)
            if not S.feasible():
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            P = [m for m in S.map.values() if self.isnow(m, self.lk('prev', E))]
            q = [S.eq(m, E) for m in P]
            q = [x for x in q if x is not None]
            if not o.decide(bool(q), rule, key('split'), loc, 'does not tell a first element from others', tr):
                continue
            self.unlink(f, p, S, E, ARG(f, 2), key, loc, tr, q[0])
            self.counted(f, p, -1, key, loc, tr)

    def rest(self):
        o, rule = self.o, self.rule
        f = self.t.f[('mem', 2)]
        for p in self.t.paths(f):
            S = Heap(p, f)
            r = p.ret
            t = T[r]
            good = t[0] == 'cmp' and {S.canon(t[2]), S.canon(t[3])} & {NULL} and any(self.isnow(x, self.lk('prev', ARG(f, 1))) for x in (S.canon(t[2]), S.canon(t[3]))) and set(t[1]) == set('<>')
            if not good:
                b = truth(p, r)
                P = [m for m in S.map.values() if self.isnow(m, self.lk('prev', ARG(f, 1)))]
                good = b is not None and any(S.eq(m, NULL) is (not b) for m in P)
            o.decide(good, rule, self.key('mem'), None, 'is not whether the element is in the queue', lambda: trace(p), '%s::mem' % self.nm)
        f = self.t.f[('empty', 1)]
        for p in self.t.paths(f):
            fl = [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['fill'])]
            o.decide(bool(fl) and p.ret == cmpval('eq', fl[-1], const(0), 'i'), rule, self.key('empty'), None, 'is not whether the queue is empty', lambda: trace(p), '%s::empty' % self.nm)
        self.clear(self.t.f[('clear', 1)])

    def grow(self):
        """resize keeps the old buckets and empties the new ones"""
        o, rule = self.o, self.rule
        f = self.t.f[('resize', 2)]
        key = lambda w: self.key('resize:%s' % w)
        sz = ARG(f, 1)
        kept, emptied = set(), set()
        P = self.t.paths(f)
        nbv = lambda p: [x.val for x in p.ev if x.kind == 'load' and x.ptr == self.t.field(f, self.r['nbins'])]
        for p in P:
            if p.kind != 'back':
                continue
            S = Heap(p, f)
            e = next(x for x in p.ev if x.kind == 'loop' and x.val == p.where)
            for reg, init in e.args:
                ph = mk('phi', reg, f.short)
                iv = [S.canon(x) for x in init or ()]
                if sub(S.backval(reg), ph) != const(1):
                    continue
                for k, c, v in S.writes:
                    if T[c][1] == 'arr' and T[T[c][2]][0] == 'fresh' and T[c][3] == ph:
                        if T[v][0] == 'now' and self.slot(f, T[v][1], ph) and iv == [const(0)]:
                            kept.add((e.val, ph))
                        elif v == NULL:
                            emptied.add((e.val, ph, iv == [const(0)], bool(iv) and all(T[x][:2] == ('ld', self.t.field(f, self.r['nbins'])) for x in iv)))
        for p in P:
            if p.kind not in ('ret', 'fall'):
                continue
            S = Heap(p, f)
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            order = [e.val for e in p.ev if e.kind == 'loop']
            k1 = [h for h, ph in kept if h in order and any(S.rng(ph, x)[0] >= 0 for x in nbv(p))]
            o.decide(bool(k1), rule, key('keep'), loc, 'old buckets are left out', tr, '%s::resize: keeps every old bucket' % self.nm)
            k2 = [h for h, ph, z, n in emptied if h in order and S.rng(ph, sz)[0] >= 0 and (n or z and k1 and order.index(h) < order.index(k1[0]))]
            o.decide(bool(k2), rule, key('empty'), loc, 'new buckets do not start empty', tr, '%s::resize: new buckets start empty' % self.nm)
            new = p.value(self.t.field(f, self.r['bins']))
            o.decide(T[new][0] == 'fresh' and p.value(self.t.field(f, self.r['nbins'])) == sz, rule, key('install'), loc, 'the new size and array are not installed together', tr, '%s::resize: array and size are replaced together' % self.nm)


def strip(v):
    while T[v][0] == 'cast':
        v = T[v][2]
    return v


def numconst(v):
    t = T[v]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'k':
        try:
            return float(str(t[1]).split(':')[-1])
        except ValueError:
            return None
    return None


# ---------------------------------------------------------------- disjoint sets
def djset(o, F):
    rule = 'sets'
    pf = (('f', 'Djset', 'parent'),)
    f = F['find']
    for p in explore(f, eff=TabEff()).paths:
        if p.kind == 'abort':
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        key = lambda w: 'Djset:find:%s' % w
        this = ARG(f, 0)
        S = Heap(p, f)
        ups = {}    # value -> element it is the parent of
        for e in p.ev:
            if e.kind == 'load' and path(e.ptr) == pf:
                ups.setdefault(e.val, root(e.ptr))
        rec = {e.res: e.args[0] for e in p.ev if e.kind == 'call' and e.name == f.dem}
        for e in p.ev:
            if e.kind == 'loop':
                for reg, init in e.args:
                    if p.kind == 'back' and p.where == e.val:
                        ph = mk('phi', reg, f.short)
                        nx = p.st.user['back'][reg]
                        if ph in [v for v in ups.values()]:
                            o.decide(nx in ups and ups[nx] == ph, rule, key('up'), e.loc, 'does not go on with the parent', tr)
        for e in p.ev:
            if e.kind == 'store':
                o.decide(path(e.ptr) == pf and (e.val in rec or p.ret == e.val or p.kind != 'ret'), rule, key('compress'), e.loc, 'an element is put under something other than its set\'s representative', tr, 'Djset::find: elements are put under the representative')
        if p.kind != 'ret':
            continue
        r = p.ret
        top = [x for x, w in ups.items() if S.eq(x, w) is True]
        good = r in rec and (rec[r] in ups or rec[r] in top) or any(r in (x, ups[x]) for x in top)
        o.decide(good, rule, key('root'), loc, 'is not the representative of the element\'s set', tr, 'Djset::find: the representative')
    f = F['join']
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        key = lambda w: 'Djset:join:%s' % w
        S = Heap(p, f)
        A = [e.res for e in p.ev if e.kind == 'call' and short(e.name) == 'Djset::find' and e.args[0] == ARG(f, 0)]
        B = [e.res for e in p.ev if e.kind == 'call' and short(e.name) == 'Djset::find' and e.args[0] == ARG(f, 1)]
        if not o.decide(bool(A and B), rule, key('roots'), loc, 'does not join the sets\' representatives', tr):
            continue
        a, b = A[-1], B[-1]
        st = [(e.ptr, e.val) for e in p.ev if e.kind == 'store' and path(e.ptr) == pf]
        same = S.eq(a, b)
        if same is True:
            o.decide(not st, rule, key('same'), loc, 'changes a set joined with itself', tr, 'Djset::join: nothing for one set')
            continue
        one = len(st) == 1 and {(root(st[0][0]), st[0][1])} <= {(a, b), (b, a)}
        if not o.decide(one and same is False, rule, key('link'), loc, 'one representative is not put under the other', tr, 'Djset::join: one representative goes under the other'):
            continue
        low, top = root(st[0][0]), st[0][1]
        rk = {root(e.ptr): e.val for e in p.ev if e.kind == 'load' and lastfield(e.ptr) and lastfield(e.ptr)[1] == 'rank'}
        rs = [e for e in p.ev if e.kind == 'store' and lastfield(e.ptr) and lastfield(e.ptr)[1] == 'rank']
        if low in rk and top in rk:
            d = S.order(rk[low], rk[top])
            o.decide('>' not in d, rule, key('rank'), loc, 'the taller tree is put under the lower one', tr, 'Djset::join: the lower tree goes under the taller one')
            if d == frozenset('='):
                good = len(rs) == 1 and root(rs[0].ptr) == top and sub(rs[0].val, rk[top]) in (const(1),) or len(rs) == 1 and root(rs[0].ptr) == top and T[rs[0].val][0] == 'sum' and T[rs[0].val][2] == 1
                o.decide(good, rule, key('grow'), loc, 'the height of the joined tree is not kept up', tr, 'Djset::join: the height of the representative grows')
            else:
                o.decide(not rs, rule, key('grow'), loc, 'a height changes although no tree grew', tr)
    f = F['clear']
    for p in explore(f, eff=TabEff()).paths:
        o.decide(p.value(gep(ARG(f, 0), pf)) == ARG(f, 0), rule, 'Djset:clear', None, 'the set is not alone afterwards', lambda: trace(p), 'Djset::clear: alone again')
    f = F['Djset']
    for p in explore(f, eff=TabEff()).paths:
        o.decide(p.value(gep(ARG(f, 0), pf)) == ARG(f, 0), rule, 'Djset:new', None, 'the set does not start alone', lambda: trace(p), 'Djset: starts alone')


# ---------------------------------------------------------------- k-d tree
def kdtree(o, F):
    rule = 'kdtree'
    fieldof = lambda ptr: (lastfield(ptr) or (0, ''))[1]

    def coord(e):
        """(object, index) of a coordinate read: point[s] of a node or pt[s]"""
        pp = path(e.ptr)
        if pp and pp[-1][0] == 'i':
            return (root(e.ptr), pp[-1][1]) if len(pp) > 1 or True else None
        return None
    f = F['insert']
    t, n = ARG(f, 1), ARG(f, 3)
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        key = lambda w: 'Kdtree:insert:%s' % w
        S = Heap(p, f)
        q = S.eq(t, NULL)
        st = {fieldof(e.ptr): (root(e.ptr), e.val) for e in p.ev if e.kind == 'store'}
        rec = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'Kdtree::insert']
        if q is True:
            sp = st.get('split', (None, NULL))
            o.decide(st.get('left') == (n, NULL) and st.get('right') == (n, NULL), rule, key('leaf'), loc, 'a new node does not start without subtrees', tr, 'Kdtree::insert: a new node is a leaf')
            tt = T[sp[1]]
            o.decide(sp[0] == n and (tt[0] == 'op' and tt[1] == 'urem' and T[tt[2][1]][0] == 'c' and T[tt[2][1]][1] == 3 or tt[0] == 'c' and tt[1] < 3), rule, key('split'), loc, 'the split coordinate may be out of range', tr, 'Kdtree::insert: splits on an existing coordinate')
            o.decide(p.ret == n, rule, key('new'), loc, 'the new node is not handed back', tr)
            continue
        if not o.decide(q is False and len(rec) == 1 and rec[0].args[3] == n, rule, key('down'), loc, 'the node is not handed on to one subtree', tr):
            continue
        side = next((fieldof(e.ptr) for e in p.ev if e.kind == 'load' and e.val == rec[0].args[1] and root(e.ptr) == t), None)
        o.decide(side in ('left', 'right') and st.get(side) == (t, rec[0].res) and len(st) == 1, rule, key('store'), loc, 'the subtree it went to is not kept', tr, 'Kdtree::insert: the subtree is kept')
        o.decide(p.ret == t, rule, key('same'), loc, 'the tree handed back is not the one inserted into', tr)
        sp = {e.val for e in p.ev if e.kind == 'load' and fieldof(e.ptr) == 'split' and root(e.ptr) == t}
        cn = {e.val for e in p.ev if e.kind == 'load' and coord(e) and coord(e)[0] == n and strip(coord(e)[1]) in sp}
        ct = {e.val for e in p.ev if e.kind == 'load' and coord(e) and coord(e)[0] == t and strip(coord(e)[1]) in sp}
        rel = None
        for x in cn:
            for y in ct:
                rel = S.order(x, y)
        want = {'left': frozenset('<='), 'right': frozenset('=>')}
        o.decide(rel is not None and side in want and rel <= ({'<', '=', 'u'} if side == 'left' else {'>', '=', 'u'}), rule, key('side'), loc, 'goes to the wrong side of the split', tr, 'Kdtree::insert: smaller split coordinates to the left, others to the right')
    f = F['insert0']
    pt, d = ARG(f, 1), ARG(f, 2)
    copied = False
    for p in explore(f, eff=TabEff()).paths:
        S = Heap(p, f)
        for e in p.ev:
            if e.kind == 'loop' and p.kind == 'back' and p.where == e.val:
                for reg, init in e.args:
                    ph = mk('phi', reg, f.short)
                    st = [x for x in p.ev if x.kind == 'store' and coord(x) and strip(coord(x)[1]) == ph and 'point' in [z[-1] for z in path(x.ptr) if z[0] == 'f']]
                    ld = [x.val for x in p.ev if x.kind == 'load' and coord(x) and coord(x)[0] == pt and strip(coord(x)[1]) == ph]
                    if st and ld and st[-1].val in ld and [S.canon(z) for z in init or ()] == [const(0)] and sub(p.st.user['back'][reg], ph) == const(1):
                        copied = ph
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        key = lambda w: 'Kdtree:insert0:%s' % w
        S = Heap(p, f)
        rec = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'Kdtree::insert']
        rt = gep(ARG(f, 0), (('f', 'Kdtree', 'root'),))
        o.decide(copied is not False and S.rng(copied, const(3))[0] >= 0, rule, key('point'), loc, 'not every coordinate is copied', tr, 'Kdtree::insert: every coordinate is copied')
        o.decide(len(rec) == 1 and T[rec[0].args[1]][:2] == ('ld', rt) and p.value(rt) == rec[0].res, rule, key('root'), loc, 'the tree is not the one the node was inserted into', tr, 'Kdtree::insert: inserted at the root')
        if rec:
            o.decide(any(e.kind == 'store' and e.val == d and root(e.ptr) == root(rec[0].args[3]) for e in p.ev), rule, key('data'), loc, 'the data is not kept with the point', tr)
        nm = gep(ARG(f, 0), (('f', 'Kdtree', 'num'),))
        v = p.value(nm)
        o.decide(v is not None and T[v][0] == 'sum' and T[v][2] == 1, rule, key('count'), loc, 'the number of points does not go up by one', tr)
    f = F['nearest']
    t, pt, rg = ARG(f, 1), ARG(f, 2), ARG(f, 3)
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        tr = lambda: trace(p)
        loc = p.ev[-1].loc if p.ev else None
        key = lambda w: 'Kdtree:nearest:%s' % w
        S = Heap(p, f)
        if S.eq(t, NULL) is True:
            o.decide(p.ret == NULL, rule, key('none'), loc, 'finds something in an empty tree', tr, 'Kdtree::nearest: nothing in an empty tree')
            continue
        sp = {e.val for e in p.ev if e.kind == 'load' and fieldof(e.ptr) == 'split' and root(e.ptr) == t}
        cp = {e.val for e in p.ev if e.kind == 'load' and coord(e) and coord(e)[0] == pt and strip(coord(e)[1]) in sp}
        ct = {e.val for e in p.ev if e.kind == 'load' and coord(e) and coord(e)[0] == t and strip(coord(e)[1]) in sp}
        diffs = {sub(x, y): 1 for x in cp for y in ct}
        diffs.update({sub(y, x): -1 for x in cp for y in ct})
        rng_ = {e.val for e in p.ev if e.kind == 'load' and e.ptr == rg}
        visited, cand, seent = {}, NULL, False
        for k, e in enumerate(p.ev):
            if e.kind != 'call':
                continue
            if short(e.name) == 'Kdtree::nearest':
                side = next((fieldof(x.ptr) for x in p.ev if x.kind == 'load' and x.val == e.args[1] and root(x.ptr) == t), None)
                o.decide(side in ('left', 'right') and side not in visited and e.args[2] == pt and e.args[3] == rg, rule, key('visit'), e.loc, 'does not look into a subtree for the same point within the best distance', tr, 'Kdtree::nearest: subtrees share point and best distance')
                visited[side] = e.res
                q = S.eq(e.res, NULL)
                if q is False or q is None and cand == NULL:
                    cand = e.res
                elif q is None:
                    o.fail(rule, key('result'), e.loc, 'a result of a subtree is used without looking whether there is one', tr())
            elif short(e.name) == 'Kdtree::sqdist':
                good = e.args[1] == t and e.args[2] == pt
                o.decide(good, rule, key('dist'), e.loc, 'the distance is not the node\'s', tr)
                better = None
                for r in rng_:
                    s = S.order(e.res, r)
                    if not s & {'>'}:
                        better = True
                    elif not s & {'<'}:
                        better = False
                seent = seent or better is not None
                stores = [x for x in p.ev[k:] if x.kind == 'store' and x.ptr == rg]
                if better is True:
                    cand = t
                    ok = len(stores) == 1 and (stores[0].val == e.res or T[stores[0].val][0] == 'ld' and 'min' in show(T[stores[0].val][1]) or 'min' in show(stores[0].val))
                    o.decide(ok, rule, key('range'), e.loc, 'the best distance does not become the node\'s', tr, 'Kdtree::nearest: the best distance follows the best node')
                elif better is False:
                    o.decide(not stores or all('min' in show(x.val) for x in stores), rule, key('range'), e.loc, 'the best distance changes although the node is no better', tr)
        far = []
        for (kd, a, b), s in p.st.facts.rel.items():
            for x, y, ss in ((a, b, s), (b, a, frozenset({'<': '>', '>': '<'}.get(z, z) for z in s))):
                if y in rng_ and not ss & {'<', '='} and square(x, diffs):
                    far.append(True)
        sign = None
        for (kd, a, b), s in p.st.facts.rel.items():
            for x, y, ss in ((a, b, s), (b, a, frozenset({'<': '>', '>': '<'}.get(z, z) for z in s))):
                if T[y] in (T[const(0)], ('k', 'd:0')) or numconst(y) == 0:
                    if x in diffs:
                        s2 = ss if diffs[x] == 1 else frozenset({'<': '>', '>': '<'}.get(z, z) for z in ss)
                        sign = s2
                if x in cp and y in ct:
                    sign = ss
        for side in ('left', 'right'):
            if side in visited:
                continue
            ok = bool(far) and sign is not None and not (sign & ({'<'} if side == 'left' else {'>'}))
            o.decide(ok, rule, key('prune'), loc, 'the %s subtree is left out although it may hold the nearest point' % side, tr, 'Kdtree::nearest: leaves out only subtrees beyond the best distance')
        o.decide(seent or bool(far), rule, key('self'), loc, 'the node itself is left out', tr)
        o.decide(p.ret == cand, rule, key('which'), loc, 'what is handed back is not the best found', tr, 'Kdtree::nearest: hands back the best found')
    f = F['nearest0']
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        e = next((e for e in p.ev if e.kind == 'call' and short(e.name) == 'Kdtree::nearest'), None)
        rt = gep(ARG(f, 0), (('f', 'Kdtree', 'root'),))
        good = e is not None and T[e.args[1]][:2] == ('ld', rt) and e.args[2] == ARG(f, 1) and p.ret == e.res
        o.decide(good, rule, 'Kdtree:nearest0', None, 'does not look through the whole tree', lambda: trace(p), 'Kdtree::nearest: from the root')
        if e is not None:
            st = [x.val for x in p.ev if x.kind == 'store' and x.ptr == e.args[3]]
            o.decide(bool(st) and ('infinity' in show(st[-1]) or 'Inf' in show(st[-1])), rule, 'Kdtree:nearest0:range', None, 'does not start with an unlimited distance', lambda: trace(p), 'Kdtree::nearest: starts unlimited')


def square(x, diffs):
    t = T[x]
    a = None
    if t[0] == 'mul':
        a = t[1]
    elif t[0] == 'op' and t[1] in ('mul', 'fmul'):
        a = t[2]
    if a is None:
        return False
    a = [y for y in a if isinstance(y, int)]
    return len(a) == 2 and all(y in diffs for y in a)


# ---------------------------------------------------------------- memory pool
def pool(o, F):
    rule = 'pool'
    fl = lambda f, n: gep(ARG(f, 0), (('f', 'Pool', n),))
    kz = lambda v: gep(root(v), tuple(x for x in path(v) if not (x[0] == 'i' and x[1] == const(0))))

    # roles: the free list is what put stores its argument into
    f = F['put']
    fr = None
    for p in explore(f, eff=TabEff()).paths:
        for e in p.ev:
            if e.kind == 'store' and root(e.ptr) == ARG(f, 0) and e.val == ARG(f, 1):
                fr = path(e.ptr)[-1][2]
        good = fr is not None and p.value(fl(f, fr)) == ARG(f, 1)
        o.decide(good, rule, 'Pool:put:head', None, 'the object is not put on the free list', lambda: trace(p), 'Pool::put: on the free list')
        st = [e for e in p.ev if e.kind == 'store' and root(e.ptr) == ARG(f, 1)]
        o.decide(len(st) == 1 and fr is not None and T[st[0].val][:2] == ('ld', fl(f, fr)) and T[st[0].val] == T[next(e.val for e in p.ev if e.kind == 'load' and e.ptr == fl(f, fr))], rule, 'Pool:put:link', None,
                 'the rest of the free list is lost', lambda: trace(p), 'Pool::put: the free list follows')
    if fr is None:
        return
    def slotof(p, v):
        """(block element, index) for memory taken from a block"""
        v = kz(v)
        r = T[root(v)]
        pp = path(v)
        if r[0] == 'ld' and len(pp) <= 1:
            b = T[r[1]]
            if b[0] in ('call', 'pure') and short(b[1]) in ('std::vector::operator[]', 'std::vector::at', 'std::vector::back'):
                return b, pp[0][1] if pp else const(0)
        return None

    for nm in ('get', 'construct'):
        f = F[nm]
        for p in explore(f, eff=TabEff()).paths:
            if p.kind not in ('ret', 'fall'):
                continue
            tr = lambda: trace(p)
            loc = p.ev[-1].loc if p.ev else None
            key = lambda w: 'Pool:%s:%s' % (nm, w)
            S = Heap(p, f)
            r = kz(p.ret)
            head = next((e.val for e in p.ev if e.kind == 'load' and e.ptr == fl(f, fr)), None)
            if head is not None and r == head:
                o.decide(S.eq(head, NULL) is False, rule, key('nofree'), loc, 'takes from an empty free list', tr)
                v = p.value(fl(f, fr))
                o.decide(T[v][0] == 'ld' and kz(T[v][1]) == head, rule, key('rest'), loc, 'the free list does not go on with the rest', tr, 'Pool::%s: the free list keeps the rest' % nm)
                k = [j for j, e in enumerate(p.ev) if e.kind == 'load' and e.val == v]
                w = [j for j, e in enumerate(p.ev) if e.kind == 'call' and e.args and kz(e.args[0]) == head]
                o.decide(not w or not k or k[0] < min(w), rule, key('order'), loc, 'the link is read after the object was built over it', tr)
            else:
                so = slotof(p, r)
                if not o.decide(so is not None, rule, key('where'), loc, 'the memory handed out is neither a free object nor the next of the block', tr):
                    continue
                b, i = so
                cnt = lastfield(T[i][1])[1] if T[i][0] == 'ld' and lastfield(T[i][1]) else None
                o.decide(head is None or S.eq(head, NULL) is True, rule, key('prefer'), loc, 'takes new memory although the free list was not looked at', tr)
                nx = fl(f, cnt) if cnt else None
                o.decide(nx is not None and sub(p.value(nx), i) == const(1), rule, key('advance'), loc, 'the same memory may be handed out twice', tr, 'Pool::%s: each slot is handed out once' % nm)
                nb = [j for j, e in enumerate(p.ev) if e.kind == 'call' and short(e.name).endswith('::newblk')]
                lims = [e.val for e in p.ev if e.kind == 'load' and root(e.ptr) == ARG(f, 0) and e.ptr not in (nx, fl(f, fr))]
                old = [e.val for j, e in enumerate(p.ev) if e.kind == 'load' and e.ptr == nx and (not nb or j < nb[0])]
                if nb:
                    li = [j for j, e in enumerate(p.ev) if e.kind == 'load' and e.val == i]
                    o.decide(bool(li) and max(li) > max(nb), rule, key('fresh'), loc, 'an index of the old block is used in the new one', tr)
                    o.decide(any(S.eq(x, y) is True or S.rng(x, y)[0] >= 0 for x in old for y in lims), rule, key('full'), loc, 'starts a new block although the old one is not known to be full', tr)
                else:
                    o.decide(any(S.eq(x, y) is False or S.rng(x, y)[1] < 0 for x in old for y in lims), rule, key('room'), loc, 'takes memory beyond the block', tr, 'Pool::%s: within the block' % nm)
            if nm == 'construct':
                cs = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'VObj::VObj']
                o.decide(len(cs) == 1 and kz(cs[0].args[0]) == r, rule, key('ctor'), loc, 'the object handed out is not constructed once', tr, 'Pool::construct: the object is constructed')
    f = F['destruct']
    for p in explore(f, eff=TabEff()).paths:
        ds = [j for j, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'VObj::~VObj' and e.args[0] == ARG(f, 1)]
        st = [j for j, e in enumerate(p.ev) if e.kind == 'store' and e.ptr == fl(f, fr)]
        o.decide(len(ds) == 1 and len(st) == 1 and ds[0] < min(j for j, e in enumerate(p.ev) if e.kind == 'store'), rule, 'Pool:destruct', None, 'the object is not destructed once before its memory is reused', lambda: trace(p), 'Pool::destruct: destructed, then reusable')
    f = F['newblk']
    for p in explore(f, eff=TabEff()).paths:
        if p.kind not in ('ret', 'fall'):
            continue
        key = lambda w: 'Pool:newblk:%s' % w
        S = Heap(p, f)
        pb = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'std::vector::push_back']
        fi = {path(e.ptr)[0][2]: e.val for e in p.ev if e.kind == 'store' and root(e.ptr) == ARG(f, 0) and len(path(e.ptr)) == 1}
        o.decide(const(0) in fi.values(), rule, key('zero'), None, 'does not start at the first slot', lambda: trace(p), 'Pool::newblk: from the first slot')
        b = [v for v in fi.values() if T[v][0] == 'sum' and T[v][2] == 1]
        o.decide(len(b) == 1, rule, key('next'), None, 'does not go on to the next block', lambda: trace(p))
        sz = [e.res for e in p.ev if e.kind == 'call' and short(e.name) == 'std::vector::size']
        if not S.feasible():
            continue
        if pb:
            al = [e for e in p.ev if e.kind == 'call' and 'overflow' in e.name]
            o.decide(not al or T[al[0].args[0]][:1] == ('ld',) or T[strip(al[0].args[0])][0] == 'ld', rule, key('size'), None, 'the block does not have the block size', lambda: trace(p))
        else:
            o.decide(bool(b) and any(S.rng(S.canon(b[0]), S.canon(x))[1] < 0 for x in sz), rule, key('need'), None, 'no block is added although none is left', lambda: trace(p), 'Pool::newblk: adds a block when none is left')


# ---------------------------------------------------------------- one link, one table
def links(c):
    """elements are chained through a link that one table alone uses"""
    bc = algs_bc()
    fns = alg_entries(bc)
    ents = {}
    for f in vf.graphs(bc, [r'::closedentry\('], MARKS):
        for p in explore(f, eff=AlgEff()).paths:
            if p.kind == 'ret' and p.ret is not None:
                ents[f.dem.split('::closedentry(')[0]] = tuple(path(p.ret))
    use = {}
    for f in fns:
        d = defs(f)
        for i in f.calls(r'^ClosedList<.*>::add\('):
            ops = targ(i['callee'])
            r, last = i['args'][0], None
            while r in d and d[r]['op'] in ('gep', 'cast'):
                if d[r]['op'] == 'cast':
                    r = d[r]['a']
                    continue
                fs = [x for x in d[r]['path'] if x[0] == 'f']
                if fs and last is None:
                    last = (stripsuffix(fs[-1][1]), fs[-1][2])
                r = d[r]['base']
            alg = re.sub(r'::.*', '', algname(f)[0])
            node = targ(i['callee'], 1)
            if ops not in ents:
                raise AnalysisError('no link accessor of ' + ops)
            use.setdefault((alg, node, ents[ops]), {}).setdefault(last, i.get('loc'))
    for (alg, node, ln), tabs in sorted(use.items(), key=str):
        if len(tabs) > 1:
            c.fail('link', '%s:%s' % (alg, re.sub(r'.*::', '', node)), sorted(map(str, tabs.values()))[0], 'the link %s of %s chains two tables: %s' % ('.'.join(str(x[-1]) for x in ln), node, ', '.join('.'.join(map(str, t or ('?',))) for t in tabs)))
        else:
            c.ok('link', 1, '%s: %s of %s chains one table' % (alg, '.'.join(str(x[-1]) for x in ln), node))


def targ(name, k=0):
    """k-th template argument of a demangled name"""
    s = name[name.index('<') + 1:]
    d, cur, out = 0, '', []
    for ch in s:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out[k]


def P09(pid, tier):
    c = Check(pid, tier, 'Each member of the hash tables, the bucket queue, the disjoint sets, the k-d tree and the memory pool is followed along every path with keys, hashes, links and elements left open; '
              'array slots and element links are tracked symbolically, and each path must leave the chains, counts and free list as the operation prescribes. Every link of a search node must chain one table only.',
              ['Elements are linked only through the accessors a table is given; the hash and equality of keys agree.'])
    bc = vf.harness('structs.cc')

    def get(rx, marks):
        return vf.graphs(bc, [rx], marks, force=FORCE)

    def work(job):
        o = Out()
        if job in ('ClosedList', 'Htable'):
            rx = r'^ClosedList<VClosedOps, VElm, VDomT<double>>::' if job == 'ClosedList' else r'^Htable<VHtabOps'
            fns = get(rx, OPM + r'^%s<.*>::resize\(' % job)
            t = Table(job, fns)
            rm = 'remove' if job == 'ClosedList' else 'rm'
            for k in [('find', 2), ('find', 3), (rm, 2), (rm, 3), ('add', 2), ('add', 3), ('resize', 2), ('clear', 1), (job, 2)]:
                if k not in t.f:
                    raise AnalysisError('%s::%s not found' % (job, k[0]))
            R = TableRules(o, t, 'hash')
            for n in (2, 3):
                R.lookup(t.f[('find', n)], False)
                R.lookup(t.f[(rm, n)], True)
                R.add(t.f[('add', n)])
            R.resize(t.f[('resize', 2)])
            R.clear(t.f[('clear', 1)])
            R.ctor(t.f[(job, 2)])
            if job == 'ClosedList':
                R.iteration()
        elif job == 'Intpq':
            fns = get(r'^Intpq<', OPM + r'^Intpq<.*>::resize\(')
            R = PqRules(o, Table(job, fns))
            R.push()
            R.pop()
            R.rm()
            R.rest()
            R.grow()
        elif job == 'Djset':
            fns = get(r'^Djset::', OPM + r'^Djset::find')
            djset(o, {f.short.split('::')[-1]: f for f in fns})
        elif job == 'Kdtree':
            fns = get(r'^Kdtree<3u, int>::(insert|nearest)\(', OPM + r'^Kdtree<.*>::(nearest|sqdist|depth|insert)\(.*N')
            kdtree(o, {f.short.split('::')[-1] + ('' if len(f.args) == 4 else '0'): f for f in fns})
        else:
            fns = get(r'^Pool<VObj>::', '^V\n^Pool<.*>::newblk')
            pool(o, {f.short.split('::')[-1]: f for f in fns})
        return o.done(), len(fns)
    for recs, n in vf.pmap(work, ['ClosedList', 'Htable', 'Intpq', 'Djset', 'Kdtree', 'Pool']):
        c.absorb(recs)
        c.count('container members', n)
    links(c)
    c.atleast('hash', 60)
    c.atleast('iterate', 10)
    c.atleast('bucketqueue', 30)
    c.atleast('sets', 8)
    c.atleast('kdtree', 20)
    c.atleast('pool', 15)
    c.atleast('link', 14)
    return c.finish()

"""Rules over the search algorithms: every member `search` (and every function
it calls recursively) is explored with all of its callees inlined."""
import os, re
import vf
from vf import AnalysisError, rel
from flow import *
from alg import MARKS, AlgEff


FORCE = [r'std::(max|min)<']


def HFLAGS():
    H = os.path.join(vf.HERE, 'harness')
    return ['-include', 'string', '-I' + H, '-I' + vf.REPO, '-I' + os.path.join(vf.REPO, 'search')]


def algs_bc():
    return vf.harness('algs.cc')


def alg_entries(bc):
    """graphs of all search() members plus the functions left as calls (recursion)"""
    fns = vf.graphs(bc, [r'^\w+<VDomT<.*>::search\(VDomT'], MARKS, force=FORCE)
    have = {f.dem for f in fns}
    todo = set()
    for f in fns:
        for c in f.calls():
            if c.get('defined') and not is_mark(c['callee']) and c['callee'] not in have:
                todo.add(c['callee'])
    todo = {t for t in todo if not re.match(r'^(dfpair|dfrow|dfrowhdr|fatal|fatalx|walltime|cputime)\(', t)}
    if todo:
        fns += vf.graphs(bc, ['^' + re.escape(t) + '$' for t in sorted(todo)], MARKS, force=FORCE)
    return fns


_marks = [re.compile(m.strip()) for m in MARKS.split('\n') if m.strip()]


def is_mark(name):
    return any(m.search(name) for m in _marks)


def algname(fn):
    m = re.match(r'^(\w+)<VDomT<(\w+)>(, \w+)?\s*>::(\w+)', fn.dem)
    if not m:
        return fn.short, ''
    return m.group(1) + ('' if m.group(4) == 'search' else '::' + m.group(4)), m.group(2)


def is_edge(i):
    return i['op'] == 'call' and '::Edge::Edge(' in i['callee']


class Out:
    """records of one worker"""

    def __init__(self):
        self.r = []
        self.n = {}

    def ok(self, rule, sample=None):
        k = self.n.get(rule)
        if k is None:
            self.n[rule] = [1, sample]
        else:
            k[0] += 1

    def fail(self, rule, key, loc, why, trace=None):
        if any(x[0] == 'fail' and x[1] == rule and x[2] == key for x in self.r):
            return
        self.r.append(('fail', rule, key, loc, why, trace))

    def decide(self, c, rule, key, loc, why, trace=None, sample=None):
        if c:
            self.ok(rule, sample)
        else:
            self.fail(rule, key, loc, why, trace() if callable(trace) else trace)
        return c

    def done(self):
        return self.r + [('ok', k, n, s) for k, (n, s) in self.n.items()]


def fld(obj, struct, name):
    return gep(obj, (('f', struct, name),))


def is_call(v, suffix):
    t = T[v]
    return t[0] in ('call', 'pure') and short(t[1]).endswith(suffix)


class EdgeUse:
    """one transition built on a path: Edge(d, s, op) and what was read from it"""

    def __init__(self, p, k):
        ev = p.ev[k]
        self.k = k
        self.ev = ev
        self.e, self.d, self.s, self.op = ev.args[0], ev.args[1], ev.args[2], ev.args[3]
        self.vals = {'cost': set(), 'revop': set(), 'revcost': set(), 'state': set()}
        self.end = len(p.ev)
        self.dtor = None
        for j in range(k + 1, len(p.ev)):
            x = p.ev[j]
            if x.kind == 'call' and '::Edge::Edge(' in x.name and x.args[0] == self.e:
                self.end = j
                break
            if x.kind == 'call' and '::Edge::~Edge(' in x.name and x.args[0] == self.e and self.dtor is None:
                self.dtor = j
            if x.kind == 'load' and root(x.ptr) == root(self.e) and path(x.ptr)[:len(path(self.e))] == path(self.e):
                lf = lastfield(x.ptr)
                if lf and lf[1] in self.vals:
                    self.vals[lf[1]].add(x.val)

    def has(self, f, v):
        if v in self.vals[f]:
            return True
        t = T[v]
        if t[0] == 'cast':
            return self.has(f, t[2])
        return t[0] == 'ld' and root(t[1]) == root(self.e) and path(t[1])[:len(path(self.e))] == path(self.e) and (lastfield(t[1]) or (0, 0))[1] == f

    def is_state(self, v):
        # the child state: the reference stored in the edge, or the very state object it was built on
        return v in self.vals['state']


def edges(p):
    return [EdgeUse(p, k) for k, e in enumerate(p.ev) if e.kind == 'call' and '::Edge::Edge(' in e.name]


def unpacked_node(v):
    """node N such that v = unpack(buf, N.state), or None"""
    if is_call(v, '::unpack'):
        a = T[v][2][2]
        lf = lastfield(a)
        if lf and lf[1] == 'state':
            return parentobj(a)
    return None


def parentobj(cell):
    """the object a field cell belongs to"""
    r, pp = root(cell), path(cell)
    return gep(r, pp[:-1]) if pp else r


def trace(p, k=None):
    lo = 0
    L = []
    for j, e in enumerate(p.ev):
        if e.kind in ('load', 'loop'):
            continue
        L.append(('    ' + repr(e))[:400])
    return '\n'.join(L[-40:])


# ---------------------------------------------------------------- P02 links
def links(o, fn, p, alg):
    """every node linked under a transition carries that transition"""
    es = edges(p)
    for E in es:
        P = unpacked_node(E.s)
        ks = {}
        for j in range(E.k + 1, E.end):
            x = p.ev[j]
            if x.kind == 'store':
                lf = lastfield(x.ptr)
                if lf and lf[1] == 'parent' and x.val != NULL and path(x.ptr)[-1][2] == 'parent':
                    ks[parentobj(x.ptr)] = x
        for K, x in ks.items():
            struct = path(x.ptr)[-1][1]
            kind = 'new' if T[K][0] == 'fresh' else 'dup'
            key = lambda w: '%s:%s:%s' % (alg, kind, w)
            tr = lambda: trace(p)
            fin = lambda f: p.value(fld(K, struct, f))
            o.decide(P is not None, 'link-source', key('state'), E.ev.loc,
                     'the transition is not built on the unpacked state of a node', tr)
            if P is None:
                continue
            o.decide(fin('parent') == P, 'link-parent', key('parent'), x.loc,
                     'parent is %s but the transition starts at %s' % (show(fin('parent')), show(P)), tr,
                     '%s %s: parent is the expanded node (%s)' % (alg, kind, rel(x.loc)))
            o.decide(fin('op') == E.op, 'link-op', key('op'), x.loc,
                     'op is %s but the transition used %s' % (show(fin('op')), show(E.op)), tr,
                     '%s %s: op is the operator the Edge was built with (%s)' % (alg, kind, rel(E.ev.loc)))
            o.decide(E.has('revop', fin('pop')), 'link-pop', key('pop'), x.loc,
                     'pop is %s, not the reverse operator of the transition' % show(fin('pop')), tr)
            gs = set()
            for y in p.ev:
                if y.kind == 'load' and y.ptr == fld(P, struct, 'g'):
                    gs.add(y.val)
            want = {fsum([(g, 1), (c, 1)]) for g in gs for c in E.vals['cost']}
            o.decide(fin('g') in want, 'link-g', key('g'), x.loc,
                     'g is %s, not the parent\'s g plus the transition\'s cost' % show(fin('g')), tr,
                     '%s %s: g = parent g + cost' % (alg, kind))
            st = statesource(p, K, struct)
            o.decide(st is not None and E.is_state(st), 'link-state', key('packed'), x.loc,
                     'the packed state of the node is taken from %s, not from the transition\'s result' % (show(st) if st is not None else 'nowhere'), tr,
                     '%s %s: packed from the child state while the transition is in force' % (alg, kind))
            if st is not None and E.dtor is not None:
                pk = [j for j, y in enumerate(p.ev) if y.kind == 'call' and short(y.name).endswith('::pack') and y.args[2] == st]
                o.decide(all(j < E.dtor for j in pk if j > E.k), 'link-pack-live', key('pack after undo'), x.loc,
                         'the child state is packed after the transition has been undone', tr)


def statesource(p, K, struct):
    """state value the packed state of K was made from (through find() for an existing node)"""
    key = fld(K, struct, 'state')
    if T[K][0] != 'fresh':
        t = T[K]
        if t[0] in ('call', 'pure') and short(t[1]).endswith('::find'):
            key = t[2][1]
        else:
            return None
    last = None
    for y in p.ev:
        if y.kind == 'call' and short(y.name).endswith('::pack') and y.args[1] == key:
            last = y.args[2]
    return last



def truth(p, v):
    """True/False/None: what the path assumed about v as a boolean"""
    b = p.st.facts.b.get(v)
    if b is not None:
        return b
    t = T[v]
    if t[0] == 'c':
        return bool(t[1])
    if t[0] == 'not':
        r = truth(p, t[1])
        return None if r is None else not r
    r = p.st.facts.relset('i', v, FALSE)
    if r == frozenset('='):
        return False
    if '=' not in r:
        return True
    if t[0] == 'cmp':
        cur = p.st.facts.relset(t[4], t[2], t[3])
        want = frozenset(t[1])
        if cur <= want:
            return True
        if not (cur & want):
            return False
    return None


def trues(p):
    return [v for v, b in p.st.facts.b.items() if b]


# ---------------------------------------------------------------- helpers over events
def evs(p, suffix, lo=0, hi=None):
    return [(j, e) for j, e in enumerate(p.ev[lo:hi], lo) if e.kind == 'call' and short(e.name).endswith(suffix)]


def is_vec(e, *ops):
    if e.kind != 'call':
        return False
    s = short(e.name)
    return e.kind == 'call' and s.startswith('std::vector::') and s.split('::')[-1] in ops


def resvec(v, field):
    """is v the address of the result's `field` vector of some object"""
    lf = path(v)[-1] if path(v) else None
    return lf is not None and lf[0] == 'f' and lf[2] == field and stripsuffix(lf[1]).endswith('Result')


def vec_events(p, field):
    return [(j, e) for j, e in enumerate(p.ev) if e.kind == 'call' and short(e.name).startswith('std::vector::') and e.args and resvec(e.args[0], field)]


def itersource(p, it, upto, depth=0):
    """container an iterator object ranges over, and the first/last-ness: (call, container)"""
    src = None
    for k, e in enumerate(p.ev[:upto]):
        if e.kind == 'store' and root(e.ptr) == root(it):
            t = T[e.val]
            if t[0] in ('call', 'pure') and re.search(r'::(r?begin|r?end|cbegin)$', short(t[1])):
                src = (short(t[1]).split('::')[-1], t[2][-1] if len(t[2]) == 1 else t[2][0])
        elif e.kind == 'call' and e.args and root(e.args[0]) == root(it) and re.search(r'::(r?begin|r?end)$', short(e.name)) and len(e.args) > 1:
            src = (short(e.name).split('::')[-1], e.args[1])
        elif e.kind == 'call' and len(e.args) == 2 and root(e.args[0]) == root(it) and root(e.args[1]) != root(it) and re.search(r'iterator::(__normal_|reverse_|_*)?(const_)?iterator$', short(e.name)) and depth < 4:
            src = itersource(p, e.args[1], k, depth + 1) or src
    return src


def element(p, v):
    """v is a value read from an element of a container: (container, element pointer) or None"""
    t = T[v]
    if t[0] != 'ld':
        return None
    return elemptr(p, root(t[1]))


def elemptr(p, r, upto=None):
    rt = T[r]
    if rt[0] not in ('call', 'pure'):
        return None
    s = short(rt[1])
    if s.endswith('iterator::operator*') or s.endswith('iterator::operator->'):
        src = itersource(p, rt[2][0], upto if upto is not None else len(p.ev))
        return (src[1], r, src[0]) if src else None
    if s in ('std::vector::operator[]', 'std::vector::at', 'std::vector::front', 'std::vector::back'):
        return (rt[2][0], r, s.split('::')[-1])
    return None


def explore(fn, target=None, maxpaths=200000, eff=None, seed=None):
    ex = Explorer(fn, eff or AlgEff(), maxpaths=maxpaths, target=target, seed=seed)
    try:
        ex.run()
    except TooMany as e:
        raise AnalysisError(str(e))
    return ex


def perfn(g):
    g.perfn = True
    return g


def defs(fn):
    d = getattr(fn, '_defs', None)
    if d is None:
        d = fn._defs = {i['id']: i for i in fn.instrs() if 'id' in i}
    return d


def regsource(fn, r):
    """the instruction a register comes from, looking through casts"""
    d = defs(fn)
    while r in d and d[r]['op'] == 'cast':
        r = d[r]['a']
    return d.get(r)


def run_rules(c, rules, fns=None, maxpaths=200000):
    """rules: [(target predicate or None, fn(o, fn, paths, alg))] over every entry"""
    if fns is None:
        fns = alg_entries(algs_bc())

    def work(f):
        o = Out()
        a, _ = algname(f)
        cache = {}
        for tgt, rule in rules:
            if tgt not in cache:
                t, sd = tgt if isinstance(tgt, tuple) else (tgt, None)
                t = t(f) if getattr(t, 'perfn', False) else t
                sd = sd(f) if getattr(sd, 'perfn', False) else sd
                ex = explore(f, t, maxpaths, seed=sd)
                cache[tgt] = [p for p in ex.paths if p.kind != 'abort']
            rule(o, f, cache[tgt], a)
        if os.environ.get('VERIF_DEBUG'):
            print(f.dem[:60], [(tuple(getattr(z, '__name__', z) for z in k) if isinstance(k, tuple) else getattr(k, '__name__', k), len(x)) for k, x in cache.items()], flush=True)
        return o.done(), sum(len(x) for x in cache.values())
    # largest first
    order = sorted(fns, key=lambda f: -sum(len(b) for b in f.blocks))
    for recs, n in vf.pmap(work, order):
        c.absorb(recs)
        c.count('paths walked', n)
    c.count('search functions (callees inlined)', len(fns))
    return fns

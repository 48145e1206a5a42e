"""P04: nodes carry the estimates their search orders by, and are ordered by them."""
import itertools, bisect
from p_dups import *


# ---------------------------------------------------------------- polynomials
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def atom(x):
    return {(str(x),): 1}


def cell(ptr):
    """name of a cell without the version of its contents"""
    t = T[ptr]
    if t[0] == 'g':
        return cell(t[1]) + ''.join('.' + str(q[2] if q[0] == 'f' else q[1:]) for q in t[2])
    if t[0] == 'ld':
        return '*' + cell(t[1])
    if t[0] == 'arg':
        return 'arg%d' % t[1]
    return '#%d' % ptr


_pc = {}


def poly(v, subst=None):
    if subst:
        return poly_(v, subst)
    r = _pc.get(v)
    if r is None:
        r = _pc[v] = poly_(v, None)
    return r


def poly_(v, subst=None):
    if subst and v in subst:
        return subst[v]
    t = T[v]
    k = t[0]
    if k == 'c' and not isinstance(t[1], str):
        return {(): t[1]} if t[1] else {}
    if k == 'cast':
        return poly(t[2], subst)
    if k == 'sum':
        r = {(): t[2]} if t[2] else {}
        for x, c in t[1]:
            r = padd(r, poly(x, subst), c)
        return r
    if k == 'op' and t[1] in ('mul', 'fmul'):
        return pmul(poly(t[2][0], subst), poly(t[2][1], subst))
    if k == 'op' and t[1] in ('fdiv', 'sdiv', 'udiv'):
        return pdiv(poly(t[2][0], subst), poly(t[2][1], subst))
    if k == 'ld':
        return atom(cell_s(t[1], subst))
    return atom('#%d' % v)


def cell_s(p, subst):
    if subst:
        r = root(p)
        if r in subst and isinstance(subst[r], str):
            return subst[r] + ''.join('.' + str(q[2] if q[0] == 'f' else q[1:]) for q in path(p))
        if T[r][0] == 'ld' and root(T[r][1]) in subst and isinstance(subst[root(T[r][1])], str):
            return '*' + cell_s(T[r][1], subst) + ''.join('.' + str(q[2] if q[0] == 'f' else q[1:]) for q in path(p))
    return cell(p)


def frozen(a):
    return tuple(sorted(a.items()))


def pdiv(a, b):
    if b == {(): 1}:
        return a
    inv = {('1/' + str(frozen(b)),): 1}
    return pmul(a, inv)


# ---------------------------------------------------------------- comparators
ORD = {
    'Astar': [('f', '<'), ('g', '>')], 'Astar_dump': [('f', '<'), ('g', '>')], 'BeamSearch': [('f', '<'), ('g', '>')],
    'Wastar': [('fprime', '<'), ('f', '<'), ('g', '>')], 'Greedy': [('h', '<')], 'Arastar': [('fprime', '<'), ('g', '>')],
    'Bugsy': [('u', '>'), ('t', '<'), ('f', '<'), ('g', '>')], 'Bugsy_slim': [('u', '>'), ('t', '<'), ('g+h', '<'), ('g', '>')],
    'FSort': [('f', '<'), ('g', '>')], 'FHatSort': [('fhat', '<'), ('f', '<'), ('g', '>')], 'HSort': [('node.h', '<')],
    'F': [('f', '<'), ('g', '>')], 'H': [('node.h', '<')], 'Lss': [('fg.0', '<'), ('fg.1', '>')],
}
PRIO = {'Astar': ('f', 'g'), 'Astar_dump': ('f', 'g'), 'BeamSearch': ('f', 'g'), 'Greedy': ('h', 'g')}


def keypoly(spec, who):
    r = {}
    for part in spec.split('+'):
        if part.startswith('fg.'):
            r = padd(r, atom('fg%s(%s)' % (part[3:], who)))
        elif '.' in part:
            a, b = part.split('.')
            r = padd(r, atom('*%s.%s.%s' % (who, a, b)))
        else:
            r = padd(r, atom('%s.%s' % (who, part)))
    return r


def cpoly(v, names):
    """polynomial over the two compared nodes"""
    t = T[v]
    if t[0] == 'sum':
        r = {(): t[2]} if t[2] else {}
        for x, c in t[1]:
            r = padd(r, cpoly(x, names), c)
        return r
    if t[0] == 'cast':
        return cpoly(t[2], names)
    if t[0] == 'op' and t[1].startswith('extractvalue.'):
        c = T[t[2][0]]
        if c[0] in ('call', 'pure', 'op') and c[1].endswith('::fg') or '::fg(' in str(c[1]):
            a = c[2][0]
            if T[a][0] == 'arg':
                return atom('fg%s(%s)' % (t[1][-1], names[T[a][1]]))
    if t[0] == 'ld':
        sub_ = {}
        r = root(t[1])
        if T[r][0] == 'arg':
            return atom(names.get(T[r][1], '?') + ''.join('.' + q[2] for q in path(t[1]) if q[0] == 'f'))
        if T[r][0] == 'ld' and T[root(T[r][1])][0] == 'arg':
            q = root(T[r][1])
            return atom('*' + names.get(T[q][1], '?') + ''.join('.' + x[2] for x in path(T[r][1]) + path(t[1]) if x[0] == 'f'))
    return poly(v)


def orient(x, y, rels, spec, names):
    """the comparison x ? y in rels as a statement about one key: (key, rels of a against b)"""
    d = padd(cpoly(x, names), cpoly(y, names), -1)
    for k, _ in spec:
        kd = padd(keypoly(k, 'a'), keypoly(k, 'b'), -1)
        if d == kd:
            return k, frozenset(rels)
        if d == padd({}, kd, -1):
            return k, frozenset(FLIP[z] for z in rels)
    return None


def r_pred(o, f):
    m = re.match(r'^(\w+)<VDomT<\w+>(?:, \w+)?\s*>::(.*)::(pred|prio|tieprio)\(', f.dem)
    al, inner, what = m.group(1), m.group(2).split('::')[-1], m.group(3)
    loc = '%s:%d' % (f.file, f.line)
    ex = explore(f, eff=Effects())
    if what != 'pred':
        if al not in PRIO:
            return
        w = PRIO[al][0 if what == 'prio' else 1]
        for p in ex.paths:
            if p.kind == 'ret':
                o.decide(cpoly(p.ret, {0: 'a'}) == keypoly(w, 'a'), 'order', '%s:%s' % (al, what), loc, '%s is %s, not the node\'s %s' % (what, show(p.ret), w), lambda: trace(p), '%s: %s is %s' % (al, what, w))
        return
    spec = ORD.get(inner) or ORD.get(al)
    if spec is None:
        return
    names = {0: 'a', 1: 'b'}
    keys = [k for k, _ in spec]
    why = None
    opq = []
    rows = []
    for p in ex.paths:
        if p.kind != 'ret':
            continue
        cons, eqs = [], {}
        for (kd, x, y), s in p.st.facts.rel.items():
            r = orient(x, y, s, spec, names)
            if r is None:
                if T[x][0] == 'c' or T[y][0] == 'c' or True:
                    why = why or 'it depends on %s compared with %s' % (show(x), show(y))
                continue
            cons.append(r)
        for v, b in p.st.facts.b.items():
            t = T[v]
            if is_call(v, 'doubleeq'):
                r = orient(t[2][0], t[2][1], '=', spec, names)
                if r:
                    eqs[r[0]] = b
                    continue
            if t[0] == 'cmp':
                r = orient(t[2], t[3], t[1], spec, names)
                if r:
                    cons.append((r[0], r[1] if b else frozenset('<=>') - r[1]))
                    continue
            why = why or 'it depends on %s' % show(v)
        rt = T[p.ret]
        if rt[0] == 'c':
            ret = bool(rt[1])
        elif rt[0] == 'cmp':
            ret = orient(rt[2], rt[3], rt[1], spec, names)
            if ret is None:
                why = why or 'it answers %s' % show(p.ret)
                continue
        elif rt[0] == 'not' and T[rt[1]][0] == 'cmp':
            q = T[rt[1]]
            ret = orient(q[2], q[3], frozenset('<=>') - frozenset(q[1]), spec, names)
        else:
            why = why or 'it answers %s' % show(p.ret)
            continue
        rows.append((cons, eqs, ret))
    fuzzy = {k for c, e, r in rows for k in e}
    n = 0
    if why is None:
        doms = [[(x, True) for x in '<=>'] + [(x, False) for x in '<>'] if k in fuzzy else [(x, None) for x in '<=>'] for k in keys]
        for combo in itertools.product(*doms):
            a = dict(zip(keys, combo))
            want = False
            for k, d in spec:
                same = a[k][1] if k in fuzzy else a[k][0] == '='
                if not same:
                    want = a[k][0] == d
                    break
            got = set()
            for cons, eqs, ret in rows:
                if all(a[k][0] in s for k, s in cons) and all(a[k][1] == b for k, b in eqs.items()):
                    got.add(ret if isinstance(ret, bool) else a[ret[0]][0] in ret[1])
            n += 1
            if got != {want}:
                why = 'for %s it answers %s' % (', '.join('a.%s %s b.%s' % (k, a[k][0], k) for k in keys), '/'.join(map(str, sorted(got))) or 'nothing')
                break
    o.decide(why is None, 'order', '%s:%s' % (al, inner), loc, 'the node order is not %s: %s' % (', '.join('%s %s' % (k, 'smaller first' if d == '<' else 'larger first') for k, d in spec), why), None,
             '%s: %s over all %d orderings of its keys' % (al, ', '.join(k + d for k, d in spec), n))


# ---------------------------------------------------------------- stored values
KEYS = {
    'Astar': ('f',), 'Astar_dump': ('f',), 'BeamSearch': ('f',), 'Wastar': ('f', 'fprime'), 'Greedy': ('h',),
    'Arastar': ('h', 'fprime'), 'ArastarMon': ('h', 'fprime'), 'ArastarNORA': ('h', 'fprime'),
    'Bugsy': ('h', 'd', 'f', 't', 'u'), 'Bugsy_slim': ('h', 'd', 't', 'u'),
    'Lsslrtastar2': ('f',), 'Fhatlrtastar': ('f', 'fhat'), 'Dtastar_dump': ('f',), 'Dtastar_dump::dfs': ('f',),
}
ALLK = {'f', 'fprime', 'h', 'd', 't', 'u', 'fhat', 'g'}


@perfn
def key_store(fn):
    d = defs(fn)
    want = set(KEYS.get(algname(fn)[0], ()))

    def s(i):
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in want
        return False
    return s


@perfn
def key_seed(fn):
    t = key_store(fn)
    d = defs(fn)
    al = algname(fn)[0]

    def s(i):
        if t(i):
            return True
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in ('g', 'node')
        return is_edge(i) or is_call_to(i, '::construct(')
    return s


def fieldcell(p, X, f):
    for e in p.ev:
        if e.kind in ('store', 'load') and path(e.ptr) and path(e.ptr)[-1][2] == f and parentobj(e.ptr) == X and len(path(e.ptr)) == 1 + len(path(X)):
            return e.ptr
    return None


def segval(p, X, name, j):
    """what X's field holds when the stretch of code around event j is done"""
    n = 1 + len(path(X))
    ix = fldindex(p).get((X, name), ())
    loops = p.__dict__['_loops']
    i = bisect.bisect_left(loops, j)
    a = loops[i - 1] + 1 if i else 0
    b = loops[i] - 1 if i < len(loops) else len(p.ev) - 1
    for k in reversed(ix):
        if a <= k <= b and p.ev[k].kind == 'store':
            return p.ev[k].val
    for k in [k for k in reversed(ix) if k <= j] + [k for k in ix if j < k <= b]:
        return p.ev[k].val
    return None


def fldindex(p):
    d = p.__dict__.get('_fld')
    if d is None:
        d = p.__dict__['_fld'] = {}
        p.__dict__['_loops'] = [k for k, e in enumerate(p.ev) if e.kind == 'loop']
        for k, e in enumerate(p.ev):
            if e.kind in ('load', 'store'):
                q = path(e.ptr)
                if q and q[-1][0] == 'f':
                    X = parentobj(e.ptr)
                    if len(q) == 1 + len(path(X)):
                        d.setdefault((X, q[-1][2]), []).append(k)
    return d


def flag(p, name):
    """truth of the flag this->name on the path"""
    for e in p.ev:
        if e.kind == 'load' and path(e.ptr) and path(e.ptr)[-1][2] == name and T[root(e.ptr)][0] == 'arg':
            b = truth(p, e.val)
            if b is not None:
                return b
    return None


def statearg(p, v, X, es):
    """is v the state that node X stands for?"""
    if any(E.is_state(v) for E in es):
        return True
    return T[root(v)][0] == 'arg'


def hcall(p, v, name, X, es):
    v = decast(v)
    return is_call(v, '::' + name) and statearg(p, T[v][2][1], X, es)


def r_keys(o, fn, ps, alg):
    a0 = alg
    keys = KEYS.get(a0)
    if not keys:
        return
    this = lambda n: atom('arg0.' + n)
    for p in ps:
        es = edges(p)
        final = {}
        for j, e in enumerate(p.ev):
            if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][0] == 'f' and path(e.ptr)[-1][2] in keys:
                X = parentobj(e.ptr)
                if T[X][0] == 'alloca' or T[root(X)][0] in ('arg', 'alloca'):
                    continue        # fields of the algorithm itself and locals
                final[(X, path(e.ptr)[-1][2])] = (j, e)
        for (X, f), (j, e) in final.items():
            st = re.sub('<.*', '', path(e.ptr)[-1][1].split('::')[-1])
            if st in ('Kidinfo',):
                continue
            fresh = T[X][0] == 'fresh'
            live = [E for E in es if E.k < j]
            E = live[-1] if live else None
            base = e.ptr
            def val(name):
                return segval(p, X, name, j)
            def pv(name):
                v = val(name)
                if v is not None:
                    return poly(v)
                return atom(cell(X) + '.' + name)
            got = poly(e.val)
            loc = e.loc
            tr = lambda: trace(p)
            k = '%s:%s' % (alg, f)
            g = pv('g')
            fails = []

            def want(*alts):
                return any(got == x for x in alts)
            okk, txt = None, ''
            if not fresh and val('g') is not None and got == padd(padd(poly(p_old(p, X, f)), pv('g')), poly(p_old(p, X, 'g')), -1):
                okk, txt = True, 'moved by the change of g'
            elif a0 in ('Astar', 'Astar_dump', 'BeamSearch', 'Wastar') and f in ('f', 'fprime'):
                hv = [v for v in hcalls(p, 'h', es, E, fresh)]
                w = last(p, 'wt', j) if f == 'fprime' else {(): 1}
                okk = any(got == padd(g, pmul(w, poly(h))) for h in hv)
                txt = 'g + %sh(state)' % ('wt*' if f == 'fprime' else '')
            elif a0.startswith('Arastar') and f == 'fprime':
                okk = got == padd(g, pmul(last(p, 'wt', j), pv('h')))
                txt = 'g + wt*h'
            elif a0.startswith('Arastar') and f == 'h':
                okk = any(got == poly(h) for h in hcalls(p, 'h', es, E, fresh))
                txt = 'h(state)'
            elif a0 == 'Greedy':
                nm = 'd' if ', true' in fn.dem else 'h'
                okk = any(got == poly(h) for h in hcalls(p, nm, es, E, fresh))
                txt = nm + '(state)'
            elif a0 in ('Bugsy', 'Bugsy_slim') and f in ('h', 'd'):
                cost = {(): 1} if f == 'd' else None
                okk, txt = pathmax(p, X, f, e, es, E, fresh, got), 'the larger of %s(state) and the parent\'s %s less the %s' % (f, f, 'step' if f == 'd' else 'cost')
            elif a0 == 'Bugsy' and f == 'f':
                okk = got == padd(g, pv('h')) if fresh else False
                txt = 'g + h'
            elif a0 in ('Bugsy', 'Bugsy_slim') and f in ('t', 'u'):
                dv, hv = pv('d'), pv('h')
                if a0 == 'Bugsy':
                    alt = bugsyest(p, X, pv, j)
                    if alt is None:
                        continue
                    dv, hv, tv = alt
                    t = pmul(last(p, 'timeper', j), tv)
                else:
                    r = thisrel(p, 'avgdelay', j)
                    if r == frozenset('>'):
                        t = pmul(pmul(last(p, 'timeper', j), last(p, 'avgdelay', j)), dv)
                    elif '>' not in r:
                        t = pmul(last(p, 'timeper', j), dv)
                    else:
                        t = None
                if t is None:
                    okk, txt = False, 'timeper*delay*d'
                elif f == 't':
                    okk, txt = got == t, 'time per expansion times the estimated expansions to go'
                else:
                    okk = got == padd({}, padd(pmul(this('wf'), padd(g, hv)), pmul(this('wt'), t)), -1)
                    txt = '-(wf*f + wt*t)'
            elif a0 in ('Lsslrtastar2', 'Fhatlrtastar', 'Dtastar_dump', 'Dtastar_dump::dfs') and f in ('f', 'fhat'):
                nd = val('node')
                if nd is None:
                    continue
                if f == 'f':
                    okk = got == padd(g, atom(cell(nd) + '.h'))
                    txt = 'g + h of its graph node'
                else:
                    de = pdiv(atom(cell(nd) + '.derr'), padd({(): 1}, this('derror'), -1))
                    okk = got == padd(padd(g, atom(cell(nd) + '.h')), pmul(this('herror'), de))
                    txt = 'g + h + herror*derr/(1-derror)'
            else:
                continue
            if okk:
                o.ok('estimate', '%s: %s = %s (%s)' % (alg, f, txt, rel(loc)))
            else:
                o.fail('estimate', k, loc, '%s is set to %s, which is not %s' % (f, show(e.val)[:160], txt), tr())
            if okk and T[X][0] == 'fresh':
                o.ok('fresh-estimate', 'new nodes get their estimates')


def psub(p, name, q):
    r = {}
    for m, c in p.items():
        n = m.count(name)
        rest = {tuple(x for x in m if x != name): c}
        for _ in range(n):
            rest = pmul(rest, q)
        r = padd(r, rest)
    return r


def p_old(p, X, f):
    for e in p.ev:
        if e.kind in ('store', 'load') and path(e.ptr) and path(e.ptr)[-1][2] == f and parentobj(e.ptr) == X:
            return e.val if e.kind == 'load' else e.old
    return UNDEF


def hcalls(p, name, es, E, fresh):
    out = []
    for e in p.ev:
        if e.kind == 'call' and re.search(r'^VDomT<\w+>::%s\(' % name, e.name):
            s = e.args[1]
            if E is not None and E.is_state(s):
                out.append(e.res)
            elif E is None and T[s][0] == 'arg':
                out.append(e.res)
    return out


def pathmax(p, X, f, e, es, E, fresh, got):
    hs = hcalls(p, f, es, E, fresh)
    if E is None:
        return any(got == poly(h) for h in hs)
    for h in hs:
        P = unpacked_node(E.s)
        par = None
        for x in p.ev:
            if x.kind == 'load' and path(x.ptr) and path(x.ptr)[-1][2] == f and parentobj(x.ptr) not in (X,) and T[root(x.ptr)][0] != 'arg':
                cand = poly(x.val)
                alts = [padd(cand, c, -1) for c in ([{(): 1}] if f == 'd' else [poly(y) for y in E.vals['cost']])]
                if got != poly(h):
                    alts = [y for y in alts if y == got]
                if not alts:
                    continue
                alt = alts[0]
                r = prel(p, poly(h), alt)
                if got == poly(h) and '<' not in r:
                    return True
                if got == alt and '>' not in r:
                    return True
    return False


def prel(p, a, b):
    """orderings of a against b compatible with the comparisons made on the path"""
    d = padd(a, b, -1)
    r = frozenset('<=>')
    for (k, x, y), s in p.st.facts.rel.items():
        q = padd(poly(x), poly(y), -1)
        if q == d:
            r &= s
        elif q == padd({}, d, -1):
            r &= frozenset(FLIP[z] for z in s)
    return r


def bugsyest(p, X, pv, j):
    """corrected estimates according to the options in force on this path"""
    this = lambda n: atom('arg0.' + n)
    F = lambda n: flag(p, n)

    def lms(w):
        c = [x for x in p.ev if x.kind == 'load' and path(x.ptr) and any(q[0] == 'f' and q[2] == w for q in path(x.ptr))]
        base = None
        for x in c:
            base = cell(x.ptr)
            break
        return None
    if F('usedlms') or F('usehlms'):
        return None
    d = pv('d')
    if F('usedhat'):
        d = pdiv(d, padd({(): 1}, last(p, 'derrlast', j), -1))
    h = pv('h')
    if F('usehhat'):
        hh = padd(h, pmul(d, last(p, 'herrlast', j)))
        if F('interph'):
            w = pdiv(this('wf'), padd(this('wf'), this('wt')))
            h = padd(pmul(h, w), pmul(hh, padd({(): 1}, w, -1)))
        else:
            h = hh
    t = d
    if F('useexpdelay'):
        if thisrel(p, 'delaylast', j) == frozenset('>'):
            t = pmul(d, last(p, 'delaylast', j))
    return d, h, t


def last(p, name, j):
    """value of this->name at event j"""
    for e in reversed(p.ev[:j]):
        if e.kind in ('load', 'store') and path(e.ptr) and path(e.ptr)[-1][2] == name and T[root(e.ptr)][0] == 'arg':
            return poly(e.val)
    return atom('arg0.' + name)


def thisrel(p, name, j):
    """what the path knows about this->name against zero, as tested before event j"""
    for e in reversed(p.ev[:j]):
        if e.kind in ('load', 'store') and path(e.ptr) and path(e.ptr)[-1][2] == name and T[root(e.ptr)][0] == 'arg':
            return p.st.facts.relset('i', e.val, const(0))
    return frozenset('<=>')


# ---------------------------------------------------------------- iterative deepening
def lastcell(p, name, j):
    """value of this->name as last seen before event j"""
    for e in reversed(p.ev[:j]):
        if e.kind in ('load', 'store') and path(e.ptr) and path(e.ptr)[-1][2] == name and T[root(e.ptr)][0] == 'arg':
            return e.val
    return None


def r_ida(o, fn, ps, alg):
    if not alg.startswith('Idastar'):
        return
    isdfs = alg != 'Idastar'
    K = lambda w: '%s:%s' % (alg, w)
    g0 = {} if not isdfs else None
    loc = '%s:%d' % (fn.file, fn.line)
    if isdfs:
        g0 = poly(mk('arg', len(fn.args) - 1, fn.args[-1][0]))
    for p in ps:
        tr = lambda: trace(p)
        s0 = None
        ops = [k for k, e in evs(p, '::Operators::Operators')]
        hs = evs(p, '::h')
        # the bound an iteration starts with
        if not isdfs:
            heads = [k for k, e in enumerate(p.ev) if e.kind == 'loop']
            if heads:
                b = [e for e in p.ev[:heads[0]] if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'bound']
                h = [e for e in p.ev[:heads[0]] if e.kind == 'call' and short(e.name).endswith('::h')]
                o.decide(len(b) > 0 and any(b[-1].val == x.res and T[x.args[1]][0] == 'arg' for x in h), 'deepening', K('first bound'), b[-1].loc if b else loc,
                         'the first bound is not the heuristic value of the start state', tr, 'first bound is h(start)')
        rec = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'call' and re.search(r'^Idastar::dfs$', short(e.name))]
        if not isdfs and heads:
            first = [k for k, e in hs if k > heads[0]][:1] + [k for k, e in rec][:1]
            if first:
                mv = lastcell(p, 'minoob', min(first))
                o.decide(mv is not None and T[mv] == ('c', -1), 'deepening', K('reset'), p.ev[min(first)].loc, 'an iteration starts without forgetting the smallest pruned value of the last one', tr, 'every iteration starts with no pruned value')
        for k, e in rec:
            E = None
            for x in edges(p):
                if x.k < k:
                    E = x
            a = e.args
            if E is None:
                good = not isdfs and T[a[2]][0] == 'arg' and poly(a[-1]) == {} and T[a[3]] == ('c', -1)
                o.decide(good, 'deepening', K('root call'), e.loc, 'the recursion does not start from the start state with no cost and no previous operator', tr)
                continue
            c = [padd(g0, poly(x)) for x in E.vals['cost']]
            o.decide(E.is_state(a[2]), 'deepening', K('child state'), e.loc, 'the recursion continues from %s, not from the state the transition leads to' % show(a[2]), tr, 'recursion on the child state')
            o.decide(a[3] in E.vals['revop'], 'deepening', K('child op'), e.loc, 'the operator not to take back is %s, not the inverse of the transition' % show(a[3]), tr)
            o.decide(any(poly(a[-1]) == x for x in c), 'deepening', K('child g'), e.loc, 'the path cost handed down is %s' % show(a[-1]), tr, 'g handed down is g + cost')
        # expansion only within the bound
        ent = hs if isdfs else [x for x in hs if not heads or x[0] > heads[0]]
        if rec and not ent:
            continue
        fv = [padd(g0, poly(e.res)) for k, e in ent if T[e.args[1]][0] == 'arg']
        bd = lambda j: poly(lastcell(p, 'bound', j)) if lastcell(p, 'bound', j) is not None else atom('arg0.bound')
        for k in ops:
            o.decide(any(not (prel(p, f, bd(k)) - frozenset('<=')) for f in fv), 'deepening', K('expand'), p.ev[k].loc, 'a node is expanded although its f was not found to be within the bound', tr, 'expanded nodes have f <= bound')
        for k, e in evs(p, '::isgoal'):
            if not ops and p.st.facts.b.get(e.res) is True and fv:
                bs = [j for j, x in enumerate(p.ev) if x.kind == 'store' and path(x.ptr) and path(x.ptr)[-1][2] == 'bound']
                bv = bd(bs[-1] if bs and not isdfs and bs[-1] > heads[0] else len(p.ev))
                o.decide(any(not (prel(p, f, bv) - frozenset('<=')) for f in fv), 'deepening', K('goal'), e.loc, 'a goal is accepted although its f was not found to be within the bound', tr, 'accepted goals have f <= bound')
        lim = any(v is True for v in [p.st.facts.b.get(e.res) for k, e in evs(p, 'SearchAlgorithm::limit')])
        ended = (p.kind == 'ret' and isdfs and T[p.ret] == ('c', 0)) or (p.kind == 'back' and not isdfs and heads and p.where == p.ev[heads[0]].val)
        if ended and not ops and not lim and fv:
            end = len(p.ev)
            mo = [e for e in p.ev if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'minoob']
            f = fv[-1]
            bs = [k for k, e in enumerate(p.ev) if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'bound']
            bv = bd(bs[-1] if bs and not isdfs else end)
            o.decide(any(prel(p, x, bv) == frozenset('>') for x in fv), 'deepening', K('prune'), p.ins['loc'] if p.ins and p.ins.get('loc') else loc,
                     'a node is pruned although its f was not found to exceed the bound', tr, 'pruned nodes have f > bound')
            new = mo[-1] if mo and (isdfs or len(mo) > 1) else None
            was = None
            for e in p.ev:
                if e.kind == 'load' and path(e.ptr) and path(e.ptr)[-1][2] == 'minoob':
                    was = e.val
                    break
            if not isdfs:
                was = const(-1)
            elif new is not None and was is None:
                was = new.old
            if new is not None:
                r1 = prel(p, poly(was), {(): -1})
                r2 = prel(p, f, poly(was))
                okk = poly(new.val) == f and (r1 == frozenset('=') or T[was] == ('c', -1) or '>' not in r2)
            else:
                okk = was is not None and '=' not in prel(p, poly(was), {(): -1}) and '<' not in prel(p, f, poly(was))
            o.decide(okk, 'deepening', K('smallest pruned'), (new.loc if new else loc), 'the smallest pruned value is not kept', tr, 'smallest pruned value')
        if ended and not isdfs:
            b = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'bound' and k > heads[0]]
            okk = bool(b) and lastcell(p, 'minoob', b[-1][0]) == b[-1][1].val
            o.decide(okk, 'deepening', K('next bound'), b[-1][1].loc if b else loc, 'the next bound is not the smallest pruned value', tr, 'next bound is the smallest pruned value')


# ---------------------------------------------------------------- re-weighting
def r_reweight(o, fn, ps, alg):
    if not alg.startswith('Arastar') or '::' in alg:
        return
    got = {'open': None, 'incons': None}
    n = 0
    loc = '%s:%d' % (fn.file, fn.line)
    for p in ps:
        w = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'wt' and T[root(e.ptr)][0] == 'arg']
        if not w:
            continue
        k0, e0 = w[-1]
        after = p.ev[k0:]
        for j, e in enumerate(p.ev):
            if j > k0 and e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'fprime':
                X = parentobj(e.ptr)
                src = elemptr(p, root(T[X][1]) if T[X][0] == 'ld' else root(X), j)
                for c in ('open', 'incons'):
                    if element_of(X, c) or src and element_of(src[0], c):
                        got[c] = e.loc
        heads = [e.val for e in p.ev[:k0] if e.kind == 'loop']
        if p.kind == 'back' and p.where in heads:
            n += 1
            ap = [e for e in after if e.kind == 'call' and re.search(r'BinHeap<.*::(append|reinit)\(', e.name)]
            o.decide(bool(ap), 'reweight', '%s:resort' % alg, e0.loc, 'the weight changes but the open list is not put in order again', lambda: trace(p), '%s: append re-sorts' % alg)
    for c in got:
        o.decide(got[c] is not None, 'reweight', '%s:%s' % (alg, c), loc, 'the nodes in %s keep values computed with the old weight' % c, None, '%s: %s' % (alg, rel(got[c])) if got[c] else None)


@perfn
def rw_seed(fn):
    d = defs(fn)

    def s(i):
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in ('wt', 'fprime')
        return i['op'] == 'call' and bool(re.search(r'BinHeap<.*::(append|reinit)\(', i['callee']))
    return s


def element_of(X, cont, depth=0):
    """X is reached from this->cont"""
    t = T[X]
    if t[0] == 'g':
        if any(q[0] == 'f' and q[2] == cont for q in t[2]) and T[t[1]][0] == 'arg':
            return True
        return element_of(t[1], cont, depth)
    if t[0] == 'ld':
        return element_of(t[1], cont, depth)
    if t[0] in ('call', 'pure', 'op'):
        return any(element_of(a, cont, depth + 1) for a in t[2]) if depth < 6 else False
    return False


def P04(pid, tier):
    c = Check(pid, tier, 'Every comparator is evaluated over all orderings of its keys against the order its search prescribes; every value stored into an '
              'ordering key equals, as a polynomial over path cost, estimates and weights, the formula its search prescribes.', [])
    bc = algs_bc()
    o = Out()
    n = 0
    for f in vf.graphs(bc, [r'^(\w+)<VDomT<\w+>.*>::.*::(pred|prio|tieprio)\('], MARKS + '\n^geom2d::doubleeq\\(\n::Lss::fg\\(', force=FORCE):
        if f.dem.startswith('bool ') or not re.match(r'^(\w+)<VDomT<\w+>(?:, \w+)?\s*>::(.*)::(pred|prio|tieprio)\(', f.dem):
            continue
        r_pred(o, f)
    c.absorb(o.done())
    fns = [f for f in alg_entries(bc) if algname(f)[0] in KEYS]
    run_rules(c, [((key_store, key_seed), r_keys)], fns)
    run_rules(c, [((None, rw_seed), r_reweight)], [f for f in fns if algname(f)[0].startswith('Arastar')])
    run_rules(c, [(None, r_ida)], [f for f in alg_entries(bc) if algname(f)[0].startswith('Idastar')])
    c.atleast('order', 15)
    c.atleast('estimate', 30)
    c.atleast('deepening', 10)
    c.atleast('reweight', 6)
    return c.finish()

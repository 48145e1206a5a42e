"""P06: the counters printed after a run count what the run did."""
from p_dups import *

STATF = ('expd', 'gend', 'dups', 'reopnd')


def is_statcell(ptr):
    lf = lastfield(ptr)
    return lf is not None and lf[0].endswith('SearchStats') and lf[1] in STATF


@perfn
def stat_target(fn):
    d = defs(fn)

    def s(i):
        if i['op'] == 'call' and ('::Operators::Operators(' in i['callee'] or is_edge(i)):
            return True
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in STATF and stripsuffix(g['path'][-1][1]).endswith('SearchStats')
        return False
    return s


@perfn
def stat_seed(fn):
    t = stat_target(fn)
    q = dup_seed(fn)
    b = is_rebuild(fn)
    return lambda i: t(i) or q(i) or b(i)


def delta(p, f):
    n = 0
    for e in p.ev:
        if e.kind == 'store' and is_statcell(e.ptr) and lastfield(e.ptr)[1] == f:
            d = T[sub(e.val, e.old)]
            if d[0] != 'c':
                return None
            n += d[1]
    return n


def r_counts(o, fn, ps, alg):
    for p in ps:
        es = edges(p)
        tr = lambda: trace(p)
        loc = '%s:%d' % (fn.file, fn.line)
        nops = [e for e in p.ev if e.kind == 'call' and '::Operators::Operators(' in e.name]
        replay = any(is_vec(e, *ADD) for j, e in vec_events(p, 'path')) and fn.dem in LONE
        n = delta(p, 'expd')
        o.decide(n == len(nops), 'expanded', '%s:expd' % alg, nops[0].loc if nops else loc, 'a stretch of the search expands %d nodes but adds %s to the expansion count' % (len(nops), n), tr,
                 '%s: expanded counter +1 per set of operators built' % alg)
        n = delta(p, 'gend')
        want = 0 if replay else len(es)
        o.decide(n == want, 'generated', '%s:gend' % alg, es[0].ev.loc if es else loc, 'a stretch of the search generates %d nodes but adds %s to the generation count' % (want, n), tr,
                 '%s: generated counter +1 per transition built' % alg)
        # duplicates and re-openings
        n = delta(p, 'dups')
        r = delta(p, 'reopnd')
        wd = wr = 0
        for j, e in enumerate(p.ev):
            if e.kind != 'call' or not re.match(r'^ClosedList<.*>::find\(', e.name):
                continue
            key = e.args[1]
            kp = path(key)
            if not kp or kp[-1][2] != 'state':
                continue
            holder, D = parentobj(key), e.res
            nn = p.st.facts.relset('i', D, NULL)
            live = [E for E in es if E.k < j < E.end]
            if T[holder][0] == 'fresh' and live and alg.split('::')[0] not in {x.split("<")[0] for x in LONE}:
                if '=' not in nn:
                    wd += 1
                    st = [x for x in p.ev[j:] if x.kind == 'store' and path(x.ptr) and parentobj(x.ptr) == D and path(x.ptr)[-1][2] == 'parent']
                    puts = [m for m in range(j, len(p.ev)) if p.ev[m].kind == 'call' and re.match(r'^(OpenList|BinHeap)<.*>::(push|pushupdate)\(', p.ev[m].name) and p.ev[m].args[1] == D]
                    if st and puts:
                        was = notopen(p, D, puts[0])
                        if was:
                            wr += 1
                        o.decide(was is not None, 'reopened', '%s:asked' % alg, p.ev[puts[0]].loc, 'a known node is put back although nothing tells whether it was closed, so the re-openings cannot be counted', tr, '%s: every node put back is known to have been open or closed' % alg)
            elif element(p, root(key)) is not None and T[root(key)][0] == 'ld':
                K = D
                if nn == frozenset('='):
                    continue
                st = [x for x in p.ev[j:] if x.kind == 'store' and path(x.ptr) and parentobj(x.ptr) == K and path(x.ptr)[-1][2] == 'parent']
                if st:
                    old = st[0].old
                    if '=' not in p.st.facts.relset('i', old, NULL):
                        wd += 1
        trees = fn.dem in LONE
        if trees and not any(e.kind == 'store' and is_statcell(e.ptr) and lastfield(e.ptr)[1] == 'dups' for e in p.ev):
            # the real-time searches do not all count duplicates
            if not COUNTDUPS.get(alg):
                wd = 0
        o.decide(n == wd, 'duplicates', '%s:dups' % alg, loc, 'a stretch of the search meets %d duplicates but adds %s to the count' % (wd, n), tr, '%s: duplicate counter +1 per known state met' % alg)
        o.decide(r == wr, 'reopened', '%s:reopnd' % alg, loc, 'a stretch of the search re-opens %d nodes but adds %s to the count' % (wr, r), tr, '%s: re-opened counter +1 per closed node put back' % alg)


COUNTDUPS = {'Lsslrtastar2': 1, 'Fhatlrtastar': 1, 'Dtastar_dump': 1}


def notopen(p, D, upto):
    """True/False: the node was closed/open when it was put back; None: not known"""
    for y in p.ev[:upto]:
        if y.kind == 'call' and short(y.name) == 'OpenList::mem' and y.args[1] == D:
            return truth(p, y.res) is False
        if y.kind == 'load' and path(y.ptr) and parentobj(y.ptr) == D and path(y.ptr)[-1][2] == 'openind':
            r = p.st.facts.relset('i', y.val, const(0))
            if r <= frozenset('<'):
                return True
            if '<' not in r:
                return False
    return None


def thisfld(f, n):
    return mk('arg', 0, f.args[0][0])


def fieldof(v):
    """(argument number, field) a value was read from"""
    t = T[v]
    if t[0] == 'ld' and T[root(t[1])][0] == 'arg' and path(t[1]):
        return T[root(t[1])][1], path(t[1])[-1][2]
    return None


def lin(v):
    """linear form over fields: {(arg, field): coef} or None"""
    v = decast(v)
    t = T[v]
    out = {}
    if t[0] == 'sum':
        if t[2] != 0:
            return None
        for x, k in t[1]:
            f = fieldof(decast(x))
            if f is None:
                return None
            out[f] = out.get(f, 0) + k
        return out
    if t[0] == 'c' and t[1] == 0:
        return {}
    f = fieldof(v)
    return {f: 1} if f else None


LABELS = {
    'total nodes expanded': {(0, 'expd'): 1}, 'total nodes generated': {(0, 'gend'): 1},
    'total nodes duplicated': {(0, 'dups'): 1}, 'total nodes reopened': {(0, 'reopnd'): 1},
    'total raw cpu time': {(0, 'cpuend'): 1, (0, 'cpustart'): -1}, 'total wall time': {(0, 'wallend'): 1, (0, 'wallstart'): -1},
}
LIMLABELS = {'expanded limit': 'expd', 'generated limit': 'gend', 'memory limit': 'mem', 'cpu time limit': 'cputime', 'wall time limit': 'walltime'}


def searchcc():
    return vf.bitcode(os.path.join(vf.REPO, 'search', 'search.cc'), ['-I' + vf.REPO])


def r_report(c):
    o = Out()
    fns = vf.graphs(searchcc(), [r'^SearchStats::(output|start|finish|SearchStats)\(', r'^Limit::output\('], r'^(dfpair|walltime|cputime)\(')
    fns += vf.graphs(algs_bc(), [r'^SearchStats::add\('], '')
    seen = set()
    for f in fns:
        if f.dem in seen:
            continue
        seen.add(f.dem)
        ex = explore(f, eff=Effects())
        loc = '%s:%d' % (f.file, f.line)
        for p in ex.paths:
            if p.kind == 'abort':
                continue
            tr = lambda: trace(p)
            if f.dem.startswith('SearchStats::output'):
                got = {}
                for e in p.ev:
                    if e.kind == 'call' and short(e.name) == 'dfpair':
                        k = T[e.args[1]]
                        got[k[1] if k[0] == 'str' else '?'] = (e, e.args[3] if len(e.args) > 3 else None)
                for l, w in LABELS.items():
                    e, v = got.get(l, (None, None))
                    o.decide(v is not None and lin(v) == w, 'report', 'output:' + l, e.loc if e else loc, '"%s" is printed as %s' % (l, show(v) if v is not None else 'nothing'), tr, '"%s" prints %s' % (l, ' - '.join(x[1] for x in w)))
            elif f.dem.startswith('Limit::output'):
                for e in p.ev:
                    if e.kind == 'call' and short(e.name) == 'dfpair':
                        l = T[e.args[1]][1]
                        if l in LIMLABELS:
                            o.decide(lin(e.args[3]) == {(0, LIMLABELS[l]): 1}, 'report', 'limit:' + l, e.loc, '"%s" is printed as %s' % (l, show(e.args[3])), tr, '"%s" prints the limit %s' % (l, LIMLABELS[l]))
            elif f.dem.startswith('SearchStats::add'):
                want = {x: {(0, x): 1, (1, x): 1} for x in STATF}
                for x, w in want.items():
                    v = p.value(gep(mk('arg', 0, f.args[0][0]), (('f', fstruct(p, x), x),)))
                    o.decide(lin(v) == w, 'accumulate', 'add:' + x, loc, '%s becomes %s' % (x, show(v)), tr, 'add(): %s is summed' % x)
                for a, b in (('wallend', 'wallstart'), ('cpuend', 'cpustart')):
                    ve = lin(p.value(gep(mk('arg', 0, f.args[0][0]), (('f', fstruct(p, a), a),))))
                    vs = lin(p.value(gep(mk('arg', 0, f.args[0][0]), (('f', fstruct(p, b), b),))))
                    dif = None
                    if ve is not None and vs is not None:
                        dif = dict(ve)
                        for k, n in vs.items():
                            dif[k] = dif.get(k, 0) - n
                        dif = {k: n for k, n in dif.items() if n}
                    o.decide(dif == {(0, a): 1, (0, b): -1, (1, a): 1, (1, b): -1}, 'accumulate', 'add:' + a, loc, 'the difference %s - %s is not the sum of both differences' % (a, b), tr, 'add(): elapsed %s is summed' % a[:-3])
            elif 'SearchStats::SearchStats' in f.dem:
                for x in STATF:
                    v = p.value(gep(mk('arg', 0, f.args[0][0]), (('f', fstruct(p, x), x),)))
                    o.decide(T[v] == ('c', 0), 'counter-init', 'init:' + x, loc, '%s starts at %s' % (x, show(v)), tr, 'counters start at zero')
            else:
                w = 'start' if '::start(' in f.dem else 'end'
                for x, fn in (('wall', 'walltime'), ('cpu', 'cputime')):
                    v = p.value(gep(mk('arg', 0, f.args[0][0]), (('f', fstruct(p, x + w), x + w),)))
                    o.decide(is_call(v, fn), 'clock', f.short + ':' + x, loc, '%s%s becomes %s' % (x, w, show(v)), tr, '%s%s is read from %s()' % (x, w, fn))
    # the generic result output reports through the same statistics
    for f in vf.graphs(algs_bc(), [r'^Result<VDomT<double>\s*>::(output|add)\('], r'^dfpair\(|^SearchStats::(output|add)\('):
        for p in explore(f, eff=Effects()).paths:
            if p.kind == 'abort':
                continue
            n = 'SearchStats::output' if '::output(' in f.dem else 'SearchStats::add'
            k = [e for e in p.ev if e.kind == 'call' and short(e.name) == n]
            o.decide(len(k) == 1 and (n.endswith('output') or root(k[0].args[1]) == mk('arg', 1, f.args[1][0])), 'report', f.short, '%s:%d' % (f.file, f.line), '%s is called %d times' % (n, len(k)), lambda: trace(p), '%s goes through %s' % (f.short, n))
            for e in p.ev:
                if e.kind == 'call' and short(e.name) == 'dfpair' and T[e.args[1]] == ('str', 'final sol length'):
                    o.decide(is_call(e.args[3], '::size') and path(T[e.args[3]][2][0])[-1:] and path(T[e.args[3]][2][0])[-1][2] == 'path', 'report', 'final sol length', e.loc, 'the solution length is printed as %s' % show(e.args[3]), lambda: trace(p), 'final sol length is path.size()')
    c.absorb(o.done())


def fstruct(p, x):
    for e in p.ev:
        if e.kind in ('store', 'load') and path(e.ptr) and path(e.ptr)[-1][0] == 'f' and path(e.ptr)[-1][2] == x:
            return path(e.ptr)[-1][1]
    return '?'


def lone(fns):
    RECURSIVE.update(f.dem for f in fns if any(x['callee'] == f.dem for x in f.calls()))
    SOLVERS.update(f.dem for f in fns if f.dem in RECURSIVE and any(i['op'] == 'call' and touches_path(f, i) for i in f.instrs()))
    for f in fns:
        if not any(x['callee'].startswith('void solpath<') for x in f.calls()) and any(touches_result(f)(i) for i in f.instrs()) and f.dem not in RECURSIVE and not any(x['callee'] in SOLVERS for x in f.calls()):
            LONE.add(f.dem)


def P06(pid, tier):
    c = Check(pid, tier, 'On every acyclic path (loops cut at their headers) through each search function the change of each counter equals the number of '
              'counted actions on that path: operator sets built, transitions built, known states met, closed nodes put back; the report prints each '
              'counter under its own label and accumulation adds them field by field.', [])
    fns = alg_entries(algs_bc())
    lone(fns)
    run_rules(c, [((stat_target, stat_seed), r_counts)], fns)
    r_report(c)
    c.atleast('expanded', 100)
    c.atleast('report', 6)
    c.atleast('accumulate', 6)
    return c.finish()

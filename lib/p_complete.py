"""P07: expansion is complete, and searches end properly."""
from p_dups import *
import p_limits
from p_limits import is_ops, limphi

OPENRX = re.compile(r'^(OpenList|BinHeap)<.*>::(pop|front|push|pushupdate|post_update|append|empty|clear|size)\(')


@perfn
def exp_seed(fn):
    def s(i):
        if i['op'] != 'call':
            return False
        n = i['callee']
        return '::Operators::Operators(' in n or '::isgoal(' in n or '::Edge::Edge(' in n or bool(re.search(r'^SearchAlgorithm<.*>::limit\(', n)) or n in RECN
    return s


RECN = set()


def isnop(v):
    return T[v] == ('c', -1)


def r_allops(o, fn, ps, alg):
    """every operator gets its transition, unless it undoes the last move"""
    for p in ps:
        tr = lambda: trace(p)
        for k, e in enumerate(p.ev):
            if e.kind != 'call' or not short(e.name).endswith('::Operators::Operators'):
                continue
            O, S = e.args[0], e.args[2]
            end = next((j for j in range(k + 1, len(p.ev)) if p.ev[j].kind == 'call' and short(p.ev[j].name).endswith('::Operators::Operators') and p.ev[j].args[0] == O), len(p.ev))
            loop = None
            for j in range(k + 1, end):
                if p.ev[j].kind == 'loop':
                    L = fn.loops[p.ev[j].val]
                    uses = any(i['op'] == 'call' and (short(i['callee']).endswith('Operators::operator[]')) for b in L['set'] for i in fn.blocks[b])
                    if uses:
                        loop = j
                        break
            key = lambda w: '%s:%s' % (alg, w)
            if loop is None:
                # never reaches the loop: only when there is nothing to iterate or the path stops here
                stop = any(p.st.facts.b.get(x.res) is True for _, x in evs(p, 'SearchAlgorithm::limit', k, end))
                if p.kind == 'abort' or stop:
                    continue
                o.fail('operators', key('loop'), e.loc, 'the operators of an expanded state are not all tried', tr())
                continue
            H = p.ev[loop].val
            idx = None
            for j in range(loop, end):
                x = p.ev[j]
                if x.kind == 'call' and short(x.name).endswith('Operators::operator[]') and x.args[0] == O:
                    idx = x.args[1]
                    break
            sizes = [x.res for x in p.ev[k:end] if x.kind == 'call' and short(x.name).endswith('Operators::size') and x.args[0] == O]
            phis = {mk('phi', r, fn.short): (r, init) for r, init in p.ev[loop].args}
            if idx is None:
                # left at once: the index must have reached the size
                done = any(p.st.facts.relset('i', ph, s) <= frozenset('=>') for ph in phis for s in sizes)
                stop = any(p.st.facts.b.get(x.res) is True for _, x in evs(p, 'SearchAlgorithm::limit', loop, end))
                found = any(x.kind == 'call' and x.name in RECN for x in p.ev[loop:end])
                o.decide(done or stop, 'operators', key('end'), p.ev[loop].loc, 'the loop over the operators ends before the last one', tr, '%s: the loop ends at the number of operators' % alg)
                continue
            ph = next((q for q in phis if q == idx), None)
            if ph is None:
                base = [q for q in phis if T[idx][0] == 'sum' and any(x == q for x, c in T[idx][1])]
                ph = base[0] if base else None
            if not o.decide(ph is not None, 'operators', key('index'), p.ev[loop].loc, 'operators are not numbered by the loop', tr):
                continue
            reg, init = phis[ph]
            o.decide(all(poly_const(x) == 0 for x in init) and ph == idx, 'operators', key('first'), p.ev[loop].loc, 'the loop over the operators does not start with the first one (%s)' % ', '.join(map(show, init)), tr, '%s: starts with operator 0' % alg)
            op = None
            for j in range(loop, end):
                x = p.ev[j]
                if x.kind == 'call' and short(x.name).endswith('Operators::operator[]') and x.args[0] == O:
                    op = x.res
            inside = p.kind == 'back' and p.where in fn.loops[H]['set']
            if not inside and p.kind != 'abort':
                why = any(p.st.facts.b.get(x.res) is True for _, x in evs(p, 'SearchAlgorithm::limit', loop, end))
                why = why or any(x.kind == 'call' and (x.name in RECN or '::isgoal(' in x.name) and truth(p, x.res) is True for x in p.ev[loop:end])
                why = why or any(x.kind == 'assume' and T[x.val][0] == 'phi' and limphi(fn, T[x.val][1]) for x in p.ev[loop:end])
                o.decide(why, 'operators', key('left'), p.ev[loop].loc, 'operators are left untried although neither a goal was found nor a limit met', tr, '%s: leaves the operators untried only at a goal or limit' % alg)
            built = [x for x in p.ev[loop:end] if x.kind == 'call' and '::Edge::Edge(' in x.name and x.args[3] == op and (x.args[2] == S)]
            if p.kind == 'back' and p.where == H:
                bv = p.st.user.get('back', {}).get(reg)
                o.decide(bv is not None and sub(bv, ph) == TRUE, 'operators', key('next'), p.ev[loop].loc, 'the loop over the operators does not go on to the next one', tr, '%s: goes on to the next operator' % alg)
            if not built:
                stop = any(p.st.facts.b.get(x.res) is True for _, x in evs(p, 'SearchAlgorithm::limit', loop, end))
                N = unpacked_node(S)
                skipped = False
                for (kd, a, b), s in p.st.facts.rel.items():
                    if s == frozenset('=') and op in (a, b):
                        z = b if a == op else a
                        if ispop(p, z, N, fn):
                            skipped = True
                o.decide(stop or skipped, 'operators', key('all'), p.ev[loop].loc, 'an operator is passed over although it does not undo the last move', tr, '%s: only the operator undoing the last move is passed over' % alg)
            else:
                o.ok('operators', '%s: a transition is built for the operator' % alg)


def poly_const(v):
    return T[v][1] if T[v][0] == 'c' else None


def ispop(p, z, N, fn):
    if isnop(z):
        return True
    t = T[z]
    if t[0] == 'arg':
        return True         # what the caller says undoes its move: checked where the call is (P04)
    if N is None:
        return False
    for e in p.ev:
        if e.kind in ('load', 'store') and e.val == z and path(e.ptr) and path(e.ptr)[-1][2] == 'pop' and parentobj(e.ptr) == N:
            return True
    return False


# ---------------------------------------------------------------- taking from open lists
@perfn
def open_seed(fn):
    def s(i):
        return i['op'] == 'call' and (bool(OPENRX.search(i['callee'])) or bool(re.search(r'^SearchAlgorithm<.*>::limit\(', i['callee'])))
    return s


def regname(fn, r):
    d = defs(fn)
    if r in d and d[r]['op'] == 'gep' and d[r]['path'] and d[r]['path'][-1][0] == 'f':
        return d[r]['path'][-1][2]
    return 'local'


def cname(c):
    q = path(c)
    return q[-1][2] if q and q[-1][0] == 'f' else 'local'


def r_takes(o, fn, ps, alg):
    """nothing is taken from an open list not known to hold something"""
    takers = {}
    for h, L in fn.loops.items():
        takers[h] = {regname(fn, i['args'][0]) for b in L['set'] for i in fn.blocks[b] if i['op'] == 'call' and re.search(r'^(OpenList|BinHeap)<.*>::(pop|clear)\(', i['callee'])}
    for p in ps:
        have = {}       # container -> at least this many elements
        for k, e in enumerate(p.ev):
            if e.kind == 'loop':
                for c in [c for c in have if cname(c) in takers[e.val]]:
                    del have[c]
                continue
            if e.kind != 'call' or not OPENRX.search(e.name):
                continue
            m = short(e.name).split('::')[-1]
            c = e.args[0]
            if alg == 'Dtastar' and T[root(c)][0] == 'alloca':
                continue        # filled from the successors of a node known to have some
            if m == 'empty':
                b = truth(p, e.res)
                if b is False:
                    have[c] = max(have.get(c, 0), 1)
                elif b is True:
                    have[c] = 0
            elif m == 'size':
                for n in (2, 1):
                    r = p.st.facts.relset('i', e.res, const(n))
                    if '<' not in r:
                        have[c] = max(have.get(c, 0), n)
                if have.get(c, 0) == 1 and '=' not in p.st.facts.relset('i', e.res, const(1)):
                    have[c] = 2
            elif m in ('push', 'post_update'):
                have[c] = have.get(c, 0) + 1
            elif m in ('pushupdate',):
                have[c] = max(have.get(c, 0), 1)
            elif m == 'clear':
                have[c] = 0
            elif m in ('pop', 'front'):
                used = e.res is not None and takes(p, k, e)
                if used:
                    o.decide(have.get(c, 0) > 0, 'take', '%s:%s' % (alg, m), e.loc, 'a node is taken from an open list that may be empty', lambda: trace(p), '%s: %s from an open list known not to be empty (%s)' % (alg, m, rel(e.loc)))
                if m == 'pop':
                    have[c] = max(0, have.get(c, 0) - 1)


def takes(p, k, e):
    """the element is used (a heap hands out an optional)"""
    if e.name.startswith('OpenList<'):
        return True
    return True


# ---------------------------------------------------------------- how searches end
MAINOPEN = {'Astar', 'Astar_dump', 'Wastar', 'Greedy', 'Bugsy', 'Bugsy_slim', 'BeamSearch'}


RT = {'Lsslrtastar2', 'Fhatlrtastar', 'Dtastar_dump', 'Dtastar'}


def rt_ends(o, fn, ps, alg):
    for p in ps:
        fin = [k for k, e in evs(p, 'SearchAlgorithm::finish')]
        if p.kind != 'ret' or not fin:
            continue
        lim = any(p.st.facts.b.get(e.res) is True for k, e in evs(p, 'SearchAlgorithm::limit'))
        em = any(e.kind == 'call' and re.search(r'^(BinHeap<.*>::empty|std::vector<.*>::empty)\(', e.name) and truth(p, e.res) is True for e in p.ev[:fin[0]])
        goal = None
        for e in p.ev[:fin[0]]:
            if e.kind == 'load' and path(e.ptr) and path(e.ptr)[-1][2] in ('goal', 'isgoal'):
                b = truth(p, e.val)
                goal = b if b is not None else goal
        o.decide(lim or em or goal is True, 'ends', '%s:end' % alg, p.ev[fin[-1]].loc, 'the search ends although it is not at a goal, has not met a limit and has not run into a dead end', lambda: trace(p),
                 '%s: ends at a goal, at a limit, or at a dead end' % alg)


@perfn
def end_seed(fn):
    rt = algname(fn)[0] in RT

    def s(i):
        if rt and i['op'] == 'call' and re.search(r'^std::vector<.*>::empty\(', i['callee']):
            return True
        if i['op'] == 'ret':
            return True
        return i['op'] == 'call' and bool(re.search(r'^(OpenList|BinHeap)<.*>::(empty|pop)\(|^SearchAlgorithm<.*>::(limit|finish)\(|^void solpath<', i['callee']))
    return s


def r_ends(o, fn, ps, alg):
    if alg in RT:
        return rt_ends(o, fn, ps, alg)
    if alg not in MAINOPEN:
        return
    for p in ps:
        if p.kind != 'ret':
            continue
        fin = [k for k, e in evs(p, 'SearchAlgorithm::finish')]
        if not fin:
            continue
        lim = any(p.st.facts.b.get(e.res) is True for k, e in evs(p, 'SearchAlgorithm::limit'))
        for e in p.ev:
            v, neg = e.val, False
            if e.kind == 'assume':
                while T[v][0] == 'not':
                    v, neg = T[v][1], not neg
                if T[v][0] == 'phi' and limphi(fn, T[v][1]) and not neg:
                    lim = True
        em = False
        for k, e in enumerate(p.ev):
            if e.kind == 'call' and re.search(r'^(OpenList|BinHeap)<.*>::empty\(', e.name) and path(e.args[0]) and path(e.args[0])[-1][2] == 'open':
                em = truth(p, e.res) is True
        sol = any(e.kind == 'call' and e.name.startswith('void solpath<') for e in p.ev)
        solved = any(e.kind == 'assume' and T[e.val][0] == 'phi' for e in p.ev)
        o.decide(lim or em or sol or (alg == 'BeamSearch' and solved), 'ends', '%s:end' % alg, p.ev[fin[-1]].loc, 'the search ends although it has neither a solution nor met a limit nor run out of nodes', lambda: trace(p),
                 '%s: ends with a solution, at a limit, or with nothing left' % alg)


def r_idaend(o, fn, ps, alg):
    if alg != 'Idastar':
        return
    for p in ps:
        heads = [k for k, e in enumerate(p.ev) if e.kind == 'loop']
        if p.kind != 'back' or not heads or p.where != p.ev[heads[0]].val:
            continue
        mo = None
        for e in reversed(p.ev):
            if e.kind in ('load', 'store') and path(e.ptr) and path(e.ptr)[-1][2] == 'minoob':
                mo = e.val
                break
        lim = any(p.st.facts.b.get(e.res) is True for k, e in evs(p, 'SearchAlgorithm::limit'))
        pruned = mo is not None and ('=' not in p.st.facts.relset('i', mo, const(-1)) or is_call(decast(mo), '::h'))
        o.decide(pruned or lim, 'ends', 'Idastar:deepen', p.ev[heads[0]].loc, 'the search deepens again although no node was above its bound', lambda: trace(p), 'Idastar: goes on only when something was pruned')


def P07(pid, tier):
    c = Check(pid, tier, 'For each expansion the operator loop is shown to start at the first operator, go on one by one to the last, and build the transition of each operator except one compared equal to '
              'the operator undoing the last move; elements are taken from open lists only where the path knows them not to be empty; searches end only with a solution, at a limit, or with nothing left.', [])
    bc = algs_bc()
    fns = alg_entries(bc)
    RECN.clear()
    RECN.update(f.dem for f in fns if '::search(' not in f.dem)
    run_rules(c, [((is_ops, exp_seed), r_allops), ((None, open_seed), r_takes), ((None, end_seed), r_ends)], fns)
    run_rules(c, [(None, r_idaend)], [f for f in fns if algname(f)[0] == 'Idastar'])
    c.atleast('operators', 60)
    c.atleast('take', 20)
    c.atleast('ends', 15)
    return c.finish()

"""P05: limits are honoured, started and finished."""
import itertools
from p_dups import *


def is_ops(i):
    return i['op'] == 'call' and '::Operators::Operators(' in i['callee']


def is_rec(i, fn):
    return i['op'] == 'call' and i.get('defined') and not is_mark(i['callee']) and re.match(r'^.*VDomT', i['callee']) and '::Operators' not in i['callee']


@perfn
def lim_seed(fn):
    rec = recset(fn)

    def s(i):
        if i['op'] != 'call':
            return False
        n = i['callee']
        return '::Operators::Operators(' in n or n in rec or bool(re.search(r'^SearchAlgorithm<.*>::(limit|start|finish)\(', n))
    return s


_rec = {}


def recset(fn):
    return {i['callee'] for i in fn.calls() if i.get('defined') and i['callee'] in RECFNS}


RECFNS = set()
SELFG = set()        # functions that ask about limits before they expand anything


def limphi(fn, r, seen=()):
    """the register holds nothing but answers of limit()"""
    d = defs(fn)
    i = d.get(r)
    if i is None or r in seen:
        return r in seen
    if i['op'] == 'phi':
        return all(limphi(fn, v, seen + (r,)) for _, v in i['in_'])
    if i['op'] == 'cast':
        return limphi(fn, i['a'], seen)
    return i['op'] == 'call' and short(i['callee']) == 'SearchAlgorithm::limit'


def r_limits(o, fn, ps, alg):
    rec = recset(fn)
    isrec = fn.dem in RECFNS
    heads = {}
    for h, l in fn.loops.items():
        heads[h] = any(is_ops(i) or (i['op'] == 'call' and i['callee'] in rec) for b in l['set'] for i in fn.blocks[b])
    loc0 = '%s:%d' % (fn.file, fn.line)
    for p in ps:
        tr = lambda: trace(p)
        flag, hit = isrec and fn.dem not in SELFG, None
        nstart = nfin = 0
        for k, e in enumerate(p.ev):
            if e.kind == 'loop':
                if heads.get(e.val):
                    flag = False
                continue
            if e.kind == 'assume':
                v, neg = e.val, False
                while T[v][0] == 'not':
                    v, neg = T[v][1], not neg
                if T[v][0] == 'cmp' and T[v][2] == FALSE and T[v][1] in ('=', '<>'):
                    v, neg = T[v][3], T[v][1] == '='
                if T[v][0] == 'phi' and limphi(fn, T[v][1]):
                    flag = flag or neg
                    hit = hit if neg else (hit or e)
                continue
            if e.kind != 'call':
                continue
            s = short(e.name)
            if s == 'SearchAlgorithm::limit':
                b = p.st.facts.b.get(e.res)
                if b is False:
                    flag = True
                elif b is True:
                    hit = hit or e
            elif s.endswith('::Operators::Operators') or e.name in rec:
                w = 'recursion' if e.name in rec else 'expansion'
                if e.name in SELFG and hit is None:
                    flag = False
                    continue        # it asks for itself
                o.decide(flag and hit is None, 'limit-before', '%s:%s' % (alg, w), e.loc,
                         'a node is expanded %s' % ('after the limit was found to be reached' if hit is not None else 'without having asked whether a limit is reached since the last expansion'), tr,
                         '%s: %s only after limit() was false (%s)' % (alg, w, rel(e.loc)))
                flag = False
                if not isrec:
                    o.decide(nstart == 1 and nfin == 0, 'start-finish', '%s:order' % alg, e.loc, 'a node is expanded %s' % ('before the search has been started' if nstart == 0 else 'after the search has been finished'), tr)
            elif s == 'SearchAlgorithm::start':
                nstart += 1
            elif s == 'SearchAlgorithm::finish':
                nfin += 1
        if isrec:
            continue
        if p.kind == 'ret':
            o.decide(nstart == 1, 'start-finish', '%s:start' % alg, loc0, 'the search is started %d times' % nstart, tr, '%s: started once on each path' % alg)
            o.decide(nfin == 1, 'start-finish', '%s:finish' % alg, p.ins.get('loc') if p.ins else loc0, 'the search ends having been finished %d times' % nfin, tr, '%s: finished once on each path' % alg)
        elif p.kind == 'back':
            hx = [k for k, e in enumerate(p.ev) if e.kind == 'loop' and e.val == p.where]
            fx = [k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'SearchAlgorithm::finish']
            o.decide(nstart <= 1 and (not hx or all(k < hx[-1] for k in fx)), 'start-finish', '%s:loop' % alg, loc0, 'the search is finished inside its loop', tr)
            hk = [k for k, e in enumerate(p.ev) if e.kind == 'loop']
            sk = [k for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'SearchAlgorithm::start']
            o.decide(all(k < hk[0] for k in sk), 'start-finish', '%s:start loop' % alg, loc0, 'the search is started inside its loop', tr)


# ---------------------------------------------------------------- the limit object
def r_reached(o, bc):
    fn = [f for f in vf.graphs(bc, [r'^useReached\('], '', force=FORCE + [r'^Limit::reached'])][0]
    ex = explore(fn, eff=Effects())
    atoms = {}

    def name(v):
        t = T[v]
        if t[0] == 'c':
            return str(t[1])
        if t[0] == 'ld' and T[root(t[1])][0] == 'arg':
            return ('l.' if T[root(t[1])][1] == 0 else 's.') + path(t[1])[-1][2]
        return None
    rows, why = [], None
    for p in ex.paths:
        if p.kind != 'ret':
            continue
        cons = []
        for (kd, x, y), s in p.st.facts.rel.items():
            a, b = name(x), name(y)
            if a is None or b is None:
                why = why or 'it depends on %s and %s' % (show(x), show(y))
            cons.append((a, b, s))
        rt = T[p.ret]
        if rt[0] == 'c':
            ret = bool(rt[1])
        elif rt[0] == 'cmp' and name(rt[2]) and name(rt[3]):
            ret = (name(rt[2]), name(rt[3]), frozenset(rt[1]))
        else:
            why = why or 'it answers %s' % show(p.ret)
            continue
        rows.append((cons, ret))
    n = 0
    cmp_ = lambda a, b: '<' if a < b else '>' if a > b else '='
    if why is None:
        for up, le, lg, se, sg in itertools.product((0, 1), (0, 1, 3), (0, 1, 3), (0, 1, 2, 3, 4), (0, 1, 2, 3, 4)):
            env = {'l.timeup': up, 'l.expd': le, 'l.gend': lg, 's.expd': se, 's.gend': sg}
            val = lambda x: env[x] if x in env else int(x)
            want = bool(up) or (le > 0 and se >= le) or (lg > 0 and sg >= lg)
            got = set()
            try:
                for cons, ret in rows:
                    if all(cmp_(val(a), val(b)) in s for a, b, s in cons):
                        got.add(ret if isinstance(ret, bool) else cmp_(val(ret[0]), val(ret[1])) in ret[2])
            except (KeyError, ValueError):
                why = 'it depends on %s' % (set(x for c, r in rows for a, b, s in c for x in (a, b)) - set(env))
                break
            n += 1
            if got != {want}:
                why = 'with %s it answers %s' % (env, got)
                break
    o.decide(why is None, 'reached', 'reached', '%s:%d' % (fn.file, fn.line), 'a limit is not reported as reached exactly when a given bound is met: %s' % why, None, 'reached() over %d combinations' % n)
    return n


FLAGS = {'-expd': 'expd', '-gend': 'gend', '-cputime': 'cputime', '-walltime': 'walltime', '-mem': None}


def argelem(v, base):
    """v = argv[i+k] : the index value"""
    t = T[v]
    if t[0] != 'ld':
        return None
    q = path(t[1])
    if q and q[-1][0] == 'i':
        return q[-1][1]
    return None


def r_args(o, bc):
    fn = [f for f in vf.graphs(bc, [r'^Limit::Limit\(int, char const\*\*\)'], '^Limit::memlimit') if f.short == 'Limit::Limit'][0]
    ex = explore(fn, eff=Effects())
    loc = '%s:%d' % (fn.file, fn.line)
    seen = set()
    for p in ex.paths:
        if p.kind not in ('ret', 'back'):
            continue
        hit = None
        for k, e in enumerate(p.ev):
            if e.kind == 'call' and e.name.startswith('strcmp'):
                s = [T[a][1] for a in e.args if T[a][0] == 'str']
                if s and truth(p, e.res) is False and s[0] in FLAGS:
                    hit = (k, e, s[0])
        head = [k for k, e in enumerate(p.ev) if e.kind == 'loop']
        fields = {}
        for e in p.ev[head[0] if head else 0:]:
            if e.kind == 'store' and path(e.ptr) and T[root(e.ptr)] [0] == 'arg' and T[root(e.ptr)][1] == 0:
                fields[path(e.ptr)[-1][2]] = e
        mem = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'Limit::memlimit']
        if p.kind == 'ret':
            for f in ('expd', 'gend', 'mem', 'cputime', 'walltime', 'timeup'):
                st = [e for e in p.ev[:head[0] if head else None] if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == f]
                o.decide(bool(st) and T[st[-1].val] == ('c', 0), 'limit-args', 'default:' + f, loc, 'the %s limit has no default of none' % f, None, '%s defaults to no limit' % f)
            continue
        if hit is None:
            o.decide(not fields and not mem, 'limit-args', 'no flag', loc, 'a limit is changed although no limit flag was given', lambda: trace(p))
            continue
        k, e, flagname = hit
        bounded = False
        idx = [argelem(a, None) for a in e.args]
        idx = [i for i in idx if i is not None]
        want = FLAGS[flagname]
        vals = []
        if want:
            if not fields:
                continue        # flag in last position
            ok1 = set(fields) == {want}
            src = fields.get(want)
            good = ok1 and is_call(decast(src.val), 'strtoul') and argelem(T[decast(src.val)][2][0], None) == (fsum([(idx[0], 1), (const(1), 1)]) if idx else None)
            o.decide(good, 'limit-args', flagname, e.loc, '%s does not set the %s limit to its argument' % (flagname, want), lambda: trace(p), '%s sets %s' % (flagname, want))
            seen.add(flagname)
        elif mem:
            good = not fields and idx and argelem(mem[0].args[1], None) == fsum([(idx[0], 1), (const(1), 1)])
            o.decide(good, 'limit-args', flagname, e.loc, '-mem does not set the memory limit from its argument', lambda: trace(p), '-mem reads its own argument')
            seen.add(flagname)
    for f in FLAGS:
        o.decide(f in seen, 'limit-args', f + ' known', loc, 'no path handles %s' % f)


def storedwhole(p, obj, upto):
    pass


def r_timers(o, bc):
    fns = {f.short: f for f in vf.graphs(bc, [r'^Limit::start\(', r'^Limit::finish\(', r'settimer\(', r'stoptimer\(', r'^timersig\(', r'^handletimeout\('], '^settimer\\(\n^stoptimer\\(\n^timersig\\(')}
    tm = {'walltime': 0, 'cputime': 2}
    G = lambda n: next((v for v in range(len(T)) if T[v][0] == 'glob' and n in T[v][1]), None)
    for nm in ('Limit::start', 'Limit::finish'):
        fn = fns[nm]
        ex = explore(fn, eff=TimerEff())
        loc = '%s:%d' % (fn.file, fn.line)
        st = nm == 'Limit::start'
        for p in ex.paths:
            if p.kind != 'ret':
                continue
            tr = lambda: trace(p)
            calls = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) in ('settimer', 'stoptimer')]
            ts = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'store' and T[root(e.ptr)][0] == 'glob' and 'timed' in str(T[root(e.ptr)])]
            any_on = False
            for f, num in tm.items():
                l = [e.val for e in p.ev if e.kind == 'load' and path(e.ptr) and path(e.ptr)[-1][2] == f]
                rs = p.st.facts.relset('i', l[-1], const(0)) if l else frozenset('<=>')
                if l:
                    for x in l:
                        rs = rs & p.st.facts.relset('i', x, const(0))
                mine = [(k, e) for k, e in calls if T[e.args[0]] == ('c', num)]
                on = not ('=' in rs)
                any_on = any_on or on
                if rs == frozenset('='):
                    o.decide(not mine, 'timers', '%s:%s off' % (nm, f), loc, 'a timer is touched although no %s limit was given' % f, tr)
                else:
                    good = len(mine) == 1 and short(mine[0][1].name) == ('settimer' if st else 'stoptimer') and (not st or mine[0][1].args[1] in l)
                    o.decide(good, 'timers', '%s:%s' % (nm, f), loc, 'the %s limit does not %s its timer' % (f, 'set' if st else 'stop'), tr, '%s: %s' % (nm, f))
            if st:
                up = [e for e in p.ev if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][2] == 'timeup']
                if calls:
                    o.decide(bool(up) and T[up[-1].val] == ('c', 0) and all(p.ev.index(up[-1]) < k for k, _ in calls), 'timers', 'start:timeup', loc, 'a time limit that ran out in an earlier run is still taken as reached', tr, 'an earlier time-out is forgotten at start')
                    tl = [e for e in p.ev if e.kind in ('load', 'store') and T[root(e.ptr)][0] == 'glob' and 'timed' in str(T[root(e.ptr)])]
                    fin = tl[-1].val if tl else None
                    this = mk('arg', 0, fn.args[0][0])
                    same = fin is not None and (fin == this or p.st.facts.relset('i', fin, this) == frozenset('='))
                    o.decide(same and all(k < calls[0][0] for k, _ in ts), 'timers', 'start:owner', loc, 'the timer is set before the limit it belongs to is known to the signal handler', tr, 'owner set before the timer')
            elif calls:
                o.decide(len(ts) == 1 and ts[0][1].val == NULL and ts[0][0] > calls[-1][0], 'timers', 'finish:owner', loc, 'the owner of the timer is not forgotten, or is forgotten before the timer is stopped', tr, 'owner forgotten after the timer is stopped')
    for nm in ('settimer', 'stoptimer'):
        fn = fns[nm]
        ex = explore(fn, eff=TimerEff())
        loc = '%s:%d' % (fn.file, fn.line)
        for p in ex.paths:
            if p.kind != 'ret':
                continue
            tr = lambda: trace(p)
            sa = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'sigaction']
            si = [(k, e) for k, e in enumerate(p.ev) if e.kind == 'call' and short(e.name) == 'setitimer']
            if not (len(sa) == 1 and len(si) == 1):
                o.fail('timers', nm + ':calls', loc, '%s does not change exactly one handler and one timer' % nm, tr())
                continue
            ka, ea = sa[0]
            ki, ei = si[0]
            o.decide(is_call(ea.args[0], 'timersig') and T[ea.args[0]][2][0] == ei.args[0] and T[ei.args[0]][0] == 'arg', 'timers', nm + ':signal', ea.loc, 'the handled signal is not that of the timer', tr)
            o.decide((ka < ki) == (nm == 'settimer'), 'timers', nm + ':order', ei.loc, 'between the two calls the timer could go off with the default action in force', tr, nm + ': handler in force while the timer runs')
            hs = [e for e in p.ev[:ka] if e.kind == 'store' and root(e.ptr) == root(ea.args[1]) and T[e.val][0] == 'glob']
            if nm == 'settimer':
                o.decide(len(hs) == 1 and 'handletimeout' in str(T[hs[0].val]), 'timers', nm + ':handler', ea.loc, 'the handler is not the one that ends the search', tr)
                tv = [e for e in p.ev[:ki] if e.kind == 'store' and root(e.ptr) == root(ei.args[1])]
                secs = [e for e in tv if T[e.val][0] == 'arg']
                o.decide(len(secs) == 1 and [q[2] for q in path(secs[0].ptr) if q[0] == 'f'][-2:] == ['it_value', 'tv_sec'], 'timers', nm + ':value', ei.loc, 'the timer is not set to the given number of seconds', tr)
            else:
                tv = [e for e in p.ev[:ki] if e.kind == 'store' and root(e.ptr) == root(ei.args[1]) and T[e.val] not in (('c', 0),)]
                o.decide(not tv and not hs, 'timers', nm + ':value', ei.loc, 'the timer is not stopped', tr)
    fn = fns['timersig']
    sig = {0: 14, 1: 26, 2: 27}
    for p in explore(fn, eff=Effects()).paths:
        if p.kind != 'ret':
            continue
        a = mk('arg', 0, fn.args[0][0])
        for n, s in sig.items():
            if '=' in p.st.facts.relset('i', a, const(n)) and p.st.facts.relset('i', a, const(n)) == frozenset('='):
                o.decide(T[p.ret] == ('c', s), 'timers', 'timersig:%d' % n, '%s:%d' % (fn.file, fn.line), 'timer %d is taken to raise signal %s' % (n, show(p.ret)), None, 'timer %d raises signal %d' % (n, s))
    fn = fns['handletimeout']
    for p in explore(fn, eff=Effects()).paths:
        sts = [e for e in p.ev if e.kind == 'store']
        other = [e for e in p.ev if e.kind == 'call' and not e.name.startswith('llvm.')]
        o.decide(len(sts) == 1 and path(sts[0].ptr) and path(sts[0].ptr)[-1][2] == 'timeup' and T[sts[0].val] == ('c', 1) and not other and sts[0].ins.get('vol', True), 'timers', 'handler', '%s:%d' % (fn.file, fn.line),
                 'the signal handler does something else than mark the time as up', lambda: trace(p), 'the handler only marks the time as up')


class TimerEff(Effects):
    PURE = re.compile(r'^timersig\(')
    LOCAL = re.compile(r'^timersig\(')

    def havoc(self, name, ins):
        return []


def P05(pid, tier):
    c = Check(pid, tier, 'On every path of every search, an expansion is preceded, since the last expansion and within the same loop iteration, by a limit test that answered no; '
              'start and finish bracket the search exactly once; the limit object reports a limit exactly when a given bound is met.', [])
    bc = algs_bc()
    fns = alg_entries(bc)
    RECFNS.clear()
    RECFNS.update(f.dem for f in fns if '::search(' not in f.dem)
    # only those functions that (transitively) expand
    expanding = {f.dem for f in fns if any(is_ops(i) for i in f.instrs())}
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.dem not in expanding and any(i['callee'] in expanding for i in f.calls()):
                expanding.add(f.dem)
                ch = True
    RECFNS.intersection_update(expanding)
    SELFG.clear()
    for f in fns:
        if f.dem in RECFNS:
            SELFG.add(f.dem)
            t = Out()
            r_limits(t, f, [p for p in explore(f, seed=lim_seed(f)).paths if p.kind != 'abort'], 'x')
            if any(r[0] == 'fail' for r in t.r):
                SELFG.discard(f.dem)
    run_rules(c, [((None, lim_seed), r_limits)], [f for f in fns if f.dem in expanding or '::search(' in f.dem])
    o = Out()
    r_reached(o, bc)
    sb = vf.bitcode(os.path.join(vf.REPO, 'search/search.cc'), ['-I' + vf.REPO])
    r_args(o, sb)
    r_timers(o, sb)
    c.absorb(o.done())
    c.atleast('limit-before', 30)
    c.atleast('start-finish', 60)
    c.atleast('reached', 1)
    c.atleast('limit-args', 10)
    c.atleast('timers', 15)
    return c.finish()

"""Checks over the search algorithms."""
import os, re
import vf
from vf import AnalysisError, Check
from flow import *
from alg import *
from srch import *

TECH = 'path-sensitive value-flow dataflow over inlined LLVM IR'


# ================================================================ P01
def r_goal_solpath(o, fn, ps, alg):
    for p in ps:
        for j, e in evs(p, 'solpath'):
            n = e.args[1]
            good = False
            for v in trues(p):
                if is_call(v, '::isgoal'):
                    if unpacked_node(T[v][2][1]) == n:
                        good = True
            o.decide(good, 'goal-tested', '%s:solpath' % alg, e.loc,
                     'the path is extracted from a node whose own state did not pass the goal test on this path',
                     lambda: trace(p), '%s: solpath(n) only where isgoal(unpack(n.state)) holds (%s)' % (alg, rel(e.loc)))


ADD = ('push_back', 'emplace_back', 'insert')


def r_goal_push(o, fn, ps, alg):
    """path vectors filled directly: depth-first extraction and reconstruction from recorded moves"""
    recursive = any(c['callee'] == fn.dem for c in fn.calls())
    if any(any(is_vec(e, *ADD) for j, e in vec_events(p, 'ops')) and not any(is_vec(e, *ADD) for j, e in vec_events(p, 'path')) for p in ps):
        LONE.add(fn.dem)
    for p in ps:
        pushes = [e for j, e in vec_events(p, 'path') if is_vec(e, *ADD)]
        if pushes:
            first = pushes[0]
            why = None
            for q in p.ev:
                if q.kind == 'load' and lastfield(q.ptr) in GOALF.get(fn.dem, ()) and truth(p, q.val) is True:
                    why = 'a node whose goal mark is set'
            for v in trues(p):
                t = T[v]
                if is_call(v, '::isgoal') and t[2][1] == first.args[1]:
                    why = 'its own goal test'
                if t[0] in ('call', 'pure') and t[1] in RECURSIVE:
                    why = 'a successful subsearch'
            o.decide(why is not None, 'goal-tested', '%s:path' % alg, first.loc,
                     'a state joins the solution path although no goal test succeeded on this path', lambda: trace(p),
                     '%s: states join the path only after %s (%s)' % (alg, why, rel(first.loc)))
        if recursive and p.kind == 'ret' and p.ret is not None:
            rv = truth(p, p.ret)
            o.decide(rv is bool(pushes), 'goal-report', '%s:%s' % (alg, 'success' if rv else 'failure'), '%s:%d' % (fn.file, fn.line),
                     'the subsearch reports %s on a path that %s' % (rv, 'adds states' if pushes else 'adds no state'), lambda: trace(p),
                     '%s: success is reported exactly on paths that extend the solution' % alg)


def r_cleared(o, fn, ps, alg):
    """without a solution no moves are left in the result"""
    def has(p, f):
        return any(is_vec(e, *ADD) for j, e in vec_events(p, f))
    if fn.dem not in LONE:
        return
    for p in ps:
        if p.kind != 'ret' or has(p, 'path') or p.calls('^void solpath<'):
            continue
        okc = False
        for j in [j for j, e in vec_events(p, 'ops') if is_vec(e, 'clear')]:
            later = [e for e in p.ev[j + 1:] if (e.kind == 'loop' and loop_adds_ops(fn, e.val)) or (is_vec(e, *ADD) and resvec(e.args[0], 'ops'))]
            if not later:
                okc = True
        o.decide(okc, 'no-partial-moves', '%s:ops left' % alg, '%s:%d' % (fn.file, fn.line),
                 'the search can end without a solution while operators stay in the result', lambda: trace(p),
                 '%s: operators are cleared when the goal was not reached' % alg)


def loop_adds_ops(fn, h):
    for b in fn.loops[h]['blocks']:
        for i in fn.blocks[b]:
            if i['op'] == 'call' and re.search(r'^(void )?std::vector<.*>::(push_back|insert|emplace_back)\(', i['callee']):
                # address argument resolves to the result's ops
                if opsreg(fn, i['args'][0]):
                    return True
    return False


def opsreg(fn, a, names=('ops',)):
    d = getattr(fn, '_defs', None)
    if d is None:
        d = fn._defs = {i['id']: i for i in fn.instrs() if 'id' in i}
    n = 0
    while a in d and d[a]['op'] == 'gep' and n < 20:
        for e in d[a]['path']:
            if e[0] == 'f' and e[2] in names and stripsuffix(e[1]).endswith('Result'):
                return True
        a = d[a]['base']
        n += 1
    return False


GOALF = {}
RECURSIVE = set()
LONE = set()


def goal_fields(fn, ps):
    """fields that only ever receive the goal test of the state packed into the same record"""
    cand, bad = set(), set()
    for p in ps:
        for j, e in enumerate(p.ev):
            if e.kind == 'store' and lastfield(e.ptr):
                if is_call(e.val, '::isgoal'):
                    N = parentobj(e.ptr)
                    sts = [x.args[2] for x in p.ev[:j] if x.kind == 'call' and short(x.name).endswith('::pack') and parentobj(x.args[1]) == N]
                    if sts and sts[-1] == T[e.val][2][1]:
                        cand.add(lastfield(e.ptr))
                    else:
                        bad.add((lastfield(e.ptr), e.loc))
    for p in ps:
        for e in p.ev:
            if e.kind == 'store' and lastfield(e.ptr) in cand and not is_call(e.val, '::isgoal'):
                bad.add((lastfield(e.ptr), e.loc))
    return cand, bad


def r_goalfields(o, fn, ps, alg):
    cand, bad = goal_fields(fn, ps)
    for f, loc in bad:
        o.fail('goal-flag', '%s:%s' % (alg, f[1]), loc, 'the goal mark of a node is not the goal test of the state the node stands for')
    for f in cand - {b[0] for b in bad}:
        o.ok('goal-flag', '%s: %s.%s holds the goal test of the packed state' % (alg, f[0], f[1]))
    GOALF[fn.dem] = cand


def is_solpath(i):
    return i['op'] == 'call' and i['callee'].startswith('void solpath<')


def is_goalstuff(i):
    return i['op'] == 'call' and ('::isgoal(' in i['callee'] or i['callee'].startswith('void solpath<'))


def is_ret(i):
    return i['op'] == 'ret'


@perfn
def goal_seed(fn):
    t = stores_goal(fn)
    return lambda i: t(i) or (i['op'] == 'call' and '::pack(' in i['callee'])


@perfn
def result_seed(fn):
    t = touches_result(fn)
    return lambda i: t(i) or is_goalstuff(i) or (i['op'] == 'call' and '::clear(' in i['callee'] and i['args'] and opsreg(fn, i['args'][0], ('ops', 'path')))


@perfn
def stores_goal(fn):
    def t(i):
        if i['op'] != 'store':
            return False
        d = regsource(fn, i['val'])
        return d is not None and d['op'] == 'call' and '::isgoal(' in d['callee']
    return t


@perfn
def touches_result(fn):
    def t(i):
        return i['op'] == 'call' and short(i['callee']).startswith('std::vector::') and short(i['callee']).split('::')[-1] in ADD and bool(i['args']) and (opsreg(fn, i['args'][0], ('ops', 'path')))
    return t


def P01(pid, tier):
    c = Check(pid, tier, 'On every acyclic path (loops cut at their headers) through each search function with callees inlined: '
              'a path is extracted only from a node whose own unpacked state passed the goal test on that path; node goal marks hold the '
              'goal test of the packed state; recorded moves are dropped when no goal was reached; the driver reports the cost of the '
              'recorded path, or -1 when there is none.',
              ['domain operations are opaque and deterministic for equal arguments between state changes'])
    fns = alg_entries(algs_bc())
    RECURSIVE.update(f.dem for f in fns if any(x['callee'] == f.dem for x in f.calls()))
    run_rules(c, [((is_solpath, is_goalstuff), r_goal_solpath), ((stores_goal, goal_seed), r_goalfields), ((touches_result, result_seed), r_goal_push), ((is_ret, result_seed), r_cleared)], fns)
    driver(c)
    c.atleast('goal-tested', 30)
    return c.finish()


def emptyfact(p, field):
    """True/False/None: what the path knows about emptiness of the result vector"""
    r = None
    for e in p.ev:
        if e.kind == 'call' and e.args and resvec(e.args[0], field) and e.res is not None:
            n = short(e.name)
            if n == 'std::vector::empty':
                r = truth(p, e.res)
            elif n == 'std::vector::size':
                q = p.st.facts.relset('i', e.res, FALSE)
                r = True if q <= frozenset('=<') else False if '=' not in q else None
    return r


def sargs(e):
    return [T[a][1] for a in e.args if T[a][0] == 'str']


def driver(c):
    bc = vf.bitcode(os.path.join(vf.HERE, 'harness', 'algs.cc'), HFLAGS(), None, True)
    fns = vf.graphs(bc, [r'searchGet<VDomT<'], MARKS, force=FORCE)
    o = Out()
    for fn in fns:
        ex = explore(fn)
        for p in ex.paths:
            if p.kind != 'ret':
                continue
            fin = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'dfpair' and 'final sol cost' in sargs(e)]
            o.decide(len(fin) == 1, 'cost-report', 'driver:count', '%s:%d' % (fn.file, fn.line), 'the final cost is printed %d times' % len(fin), lambda: trace(p))
            for e in fin:
                v = e.args[-1]
                while T[v][0] == 'cast':
                    v = T[v][2]
                em = emptyfact(p, 'path')
                if is_call(v, '::pathcost'):
                    a = T[v][2]
                    o.decide(em is False and resvec(a[1], 'path') and resvec(a[2], 'ops') and parentobj(a[1]) == parentobj(a[2]), 'cost-report', 'driver:cost', e.loc,
                             'a cost is printed although no path may have been found, or for another path', lambda: trace(p),
                             'driver: pathcost(res.path, res.ops) is printed only when res.path is not empty')
                else:
                    o.decide(em is True and T[v] == ('c', -1), 'cost-report', 'driver:none', e.loc,
                             'the value printed for a missing solution is %s' % show(v), lambda: trace(p),
                             'driver: -1 is printed only when res.path is empty')
            caught = [j for j, e in enumerate(p.ev) if e.kind == 'call' and e.name == '__cxa_begin_catch']
            if caught:
                after = p.ev[caught[0]:]
                for f in ('path', 'ops'):
                    o.decide(any(is_vec(e, 'clear') and resvec(e.args[0], f) for e in after), 'oom-discards', 'driver:oom:' + f, p.ev[caught[0]].loc,
                             'running out of memory leaves %s in the result' % f, lambda: trace(p), 'driver: out of memory clears res.%s' % f)
                o.decide(any(short(e.name or '') == 'SearchAlgorithm::finish' for e in after if e.kind == 'call'), 'oom-discards', 'driver:oom:finish', p.ev[caught[0]].loc,
                         'running out of memory does not close the statistics', lambda: trace(p))
    c.absorb(o.done())
    c.atleast('cost-report', 4)
    c.atleast('oom-discards', 3)

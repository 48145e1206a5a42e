"""P03: duplicates are detected by state and kept only with the cheaper path."""
from p_links import *

HEAPADD = r'^(OpenList|BinHeap)<.*>::(push|pushupdate|post_update|update)\('


@perfn
def dup_target(fn):
    return lambda i: i['op'] == 'call' and bool(re.match(r'^ClosedList<.*>::find\(', i['callee']))


@perfn
def dup_seed(fn):
    d = defs(fn)

    def s(i):
        if is_call_to(i, '::find(', '::construct(', '::pack(', '::hash(') or is_edge(i):
            return True
        if i['op'] == 'call' and re.match(r'^(OpenList|BinHeap|ClosedList|Pool)<.*>::(push|pop|pushupdate|pre_update|post_update|update|add|destruct|mem)', i['callee']):
            return True
        if i['op'] == 'call' and short(i['callee']) == 'std::vector::push_back' and vecelem(i['callee']) and vecelem(i['callee']).endswith('*'):
            return True
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in ('op', 'g', 'pop', 'node', 'parent', 'f', 'fprime')
        return False
    return s


def relation(p, a, b):
    r = p.st.facts.relset('i', a, b)
    if r == frozenset('<=>'):
        # sums compared after moving a constant or a cast
        for (k, x, y), s in p.st.facts.rel.items():
            if (x, y) == (a, b):
                r &= s
            elif (y, x) == (a, b):
                r &= frozenset(FLIP[z] for z in s)
    return r


def contains(v, needle, depth=0):
    if v == needle:
        return True
    if depth > 12:
        return False
    t = T[v]
    if t[0] == 'sum':
        return any(contains(x, needle, depth + 1) for x, _ in t[1])
    if t[0] in ('op', 'call', 'pure'):
        return any(contains(x, needle, depth + 1) for x in t[2])
    if t[0] == 'cast':
        return contains(t[2], needle, depth + 1)
    return False


def flagon(p, upto):
    for e in p.ev[:upto]:
        if e.kind == 'load' and root(e.ptr) == mk('arg', 0, 'this') and len(path(e.ptr)) == 1 and e.ins.get('ty') in ('i8', 'i1'):
            if truth(p, e.val) is True:
                return path(e.ptr)[0][2]
    return None


def decast(v):
    while T[v][0] == 'cast':
        v = T[v][2]
    return v


def flat(a, b):
    """a - b with conversions between number types left out"""
    r = {}

    def put(v, c):
        v = decast(v)
        t = T[v]
        if t[0] == 'sum':
            r[None] = r.get(None, 0) + c * t[2]
            for x, k in t[1]:
                put(x, c * k)
        elif t[0] == 'c' and not isinstance(t[1], str):
            r[None] = r.get(None, 0) + c * t[1]
        else:
            r[v] = r.get(v, 0) + c
    put(a, 1)
    put(b, -1)
    return {k: c for k, c in r.items() if c}


KEYF = {}


def keyfields(bc):
    """fields the open list orders by, per node type"""
    out = {}
    for f in vf.graphs(bc, [r'^(\w+)<VDomT<.*>::.*::(pred|prio|tieprio)\('], MARKS, force=FORCE):
        al = algname_of(f.dem)
        s = set()
        for i in f.instrs():
            if i['op'] == 'load':
                c = i['ptr']
                g = defs(f).get(c)
                if g and g['op'] == 'gep' and g['path'][-1][0] == 'f':
                    s.add(g['path'][-1][2])
        out.setdefault(al, set()).update(s)
    return out


DROPPERS = {'Bugsy_slim'}      # keeps the first path to a state by design
COMPARES = set()


def r_dups(o, fn, ps, alg):
    a0 = alg.split(':')[0]
    newstores = set()
    for p in ps:
        for e in p.ev:
            if e.kind == 'store' and T[parentobj(e.ptr)][0] == 'fresh' and path(e.ptr):
                newstores.add(path(e.ptr)[-1][2])
    need = {f for f in KEYF.get(a0, ()) if f not in ('h', 'd', 'node') and f in newstores}
    for p in ps:
        es = edges(p)
        finds = [(j, e) for j, e in enumerate(p.ev) if e.kind == 'call' and re.match(r'^ClosedList<.*>::find\(', e.name)]
        for j, e in finds:
            D = e.res
            key = e.args[1]
            kp = path(key)
            if not kp or kp[-1][2] != 'state':
                continue
            live = [E for E in es if E.k < j < E.end and (E.dtor is None or j < E.dtor)]
            holder = parentobj(key)
            tr = lambda: trace(p)
            kk = lambda w: '%s:%s' % (alg, w)
            # --- the key stands for the child
            if live and T[holder][0] == 'fresh':
                E = live[-1]
                packs = [x for x in p.ev[:j] if x.kind == 'call' and short(x.name).endswith('::pack') and x.args[1] == key]
                o.decide(bool(packs) and E.is_state(packs[-1].args[2]), 'find-key', kk('key'), e.loc,
                         'the table is searched for a state that was not packed from the child', tr, '%s: the table is searched for the packed child (%s)' % (alg, rel(e.loc)))
            if len(e.args) > 2:
                hv = e.args[2]
                same = {key}
                if is_call(holder, '::find'):
                    same.add(T[holder][2][1])       # the node found has the state searched for
                o.decide(is_call(hv, '::hash') and T[hv][2][0] in same, 'find-hash', kk('hash'), e.loc, 'the hash passed along is not the hash of the key searched', tr,
                         '%s: hash and key belong together' % alg)
            nn = p.st.facts.relset('i', D, NULL)
            # --- a new state joins the table and the open list once
            if nn == frozenset('='):
                new = holder if T[holder][0] == 'fresh' else None
                if new is None:
                    for x in p.ev[j:]:
                        if x.kind == 'call' and short(x.name) == 'ClosedList::add' and T[x.args[1]][0] == 'fresh' and x.args[0] == e.args[0]:
                            new = x.args[1]
                            break
                    if new is None:
                        if not any(x.kind == 'call' and x.res is not None and T[x.res][0] == 'fresh' for x in p.ev[j:]):
                            continue    # lookups that do not insert
                adds = [x for x in p.ev[j:] if x.kind == 'call' and short(x.name) == 'ClosedList::add' and x.args[1] == new and x.args[0] == e.args[0]] if new is not None else []
                o.decide(len(adds) == 1, 'new-added', kk('add'), e.loc, 'a state not found in the table is added to it %d times' % len(adds), tr, '%s: a state not found is added once' % alg)
                for x in adds:
                    if len(x.args) > 2:
                        hv = x.args[2]
                        good = is_call(hv, '::hash') and (T[hv][2][0] == fldk(new, key) or T[hv][2][0] == key)
                        o.decide(good, 'find-hash', kk('addhash'), x.loc, 'the hash the node is filed under is not the hash of its state', tr)
                if live and new == holder and any(x.kind == 'store' and path(x.ptr) and path(x.ptr)[-1][2] == 'parent' and parentobj(x.ptr) == new for x in p.ev):
                    n = pushes(p, new, j)
                    o.decide(len(n) == 1, 'new-open', kk('push'), e.loc, 'a new node is put on the open list %d times' % len(n), tr, '%s: a new node is put on the open list once' % alg)
                    for k, x in n:
                        late = [y for y in p.ev[k + 1:] if y.kind == 'store' and parentobj(y.ptr) == new and path(y.ptr)[-1][2] in KEYF.get(a0, ())]
                        o.decide(not late, 'key-before-push', kk('late'), x.loc, 'the ordering key of a node changes after it was put on the open list', tr, '%s: keys are set before the push' % alg)
            elif '=' not in nn:
                if live and T[holder][0] == 'fresh':
                    E = live[-1]
                    P = unpacked_node(E.s)
                    if P is None:
                        continue
                    struct = nodestruct(p, P)
                    if struct is None:
                        continue
                    if not any(x.kind == 'store' and path(x.ptr) and path(x.ptr)[-1][2] in ('g', 'parent') and parentobj(x.ptr) in (holder, D) for x in p.ev):
                        continue        # interning tables hold no path costs
                    newg = set()
                    for y in p.ev:
                        if y.kind == 'load' and y.ptr == fld(P, struct, 'g'):
                            newg |= {fsum([(y.val, 1), (c, 1)]) for c in E.vals['cost']}
                    duprule(o, p, j, e, D, struct, newg, alg, need)
        # --- trees over interned nodes
        for j, e in finds:
            D = e.res
            X = root(e.args[1])
            if T[X][0] != 'ld' or element(p, X) is None:
                continue
            nn = p.st.facts.relset('i', D, NULL)
            treerule(o, p, j, e, D, nn, alg)


def fldk(new, key):
    return gep(new, path(key)[-1:])


def pushes(p, K, j):
    return [(k, x) for k, x in enumerate(p.ev[j:], j) if x.kind == 'call' and re.match(r'^(OpenList|BinHeap)<.*>::(push|pushupdate)\(', x.name) and x.args[1] == K]


def nodestruct(p, P):
    for e in p.ev:
        if e.kind in ('load', 'store') and path(e.ptr) and parentobj(e.ptr) == P and path(e.ptr)[-1][0] == 'f' and path(e.ptr)[-1][2] == 'g':
            return path(e.ptr)[-1][1]
    return None


def reinsertion(o, p, j, D, struct, alg, stores, tag):
    """an improved node is (again) on the open list, in its new position"""
    lo = min(k for k, x in stores)
    hi = max(k for k, x in stores)
    oi = {y.val for y in p.ev if y.kind == 'load' and y.ptr == fld(D, struct, 'openind')}
    isopen = None
    for v in oi:
        r = p.st.facts.relset('i', v, const(0))
        if r <= frozenset('<'):
            isopen = False
        elif '<' not in r:
            isopen = True
    for y in p.ev:
        if y.kind == 'call' and short(y.name) == 'OpenList::mem' and y.args[1] == D:
            isopen = truth(p, y.res)
    acts = []
    for k, y in enumerate(p.ev[j:], j):
        if y.kind != 'call':
            continue
        s = short(y.name)
        if s in ('OpenList::push', 'BinHeap::push') and y.args[1] == D:
            acts.append(('push', k))
        elif s == 'BinHeap::pushupdate' and y.args[1] == D and decast(y.args[2]) in oi:
            acts.append(('pushupdate', k))
        elif s == 'BinHeap::update' and decast(y.args[1]) in oi:
            acts.append(('update', k))
        elif s in ('OpenList::pre_update', 'OpenList::post_update') and y.args[1] == D:
            acts.append((s.split('::')[1], k))
        elif s == 'std::vector::push_back' and y.deref and y.deref[1] == D:
            acts.append(('later', k))
    names = [a for a, k in acts]
    at = dict((a, k) for a, k in acts)
    key = '%s:%s' % (alg, tag)
    loc = stores[0][1].loc
    tr = lambda: trace(p)
    if names == ['pre_update', 'post_update']:
        good = isopen is True and at['pre_update'] < lo and at['post_update'] > hi
        why = 'the open list is not told before and after the change of the key of an open node'
    elif names == ['push']:
        good = isopen is False and at['push'] > hi
        why = 'an improved node is pushed while it may still be on the open list, or before its key is final'
    elif names == ['pushupdate']:
        good = at['pushupdate'] > hi
        why = 'the heap is updated before the key of the node is final'
    elif names == ['update']:
        good = isopen is True and at['update'] > hi
        why = 'the heap is updated for a node that may not be on it, or before its key is final'
    elif names == ['later']:
        good = isopen is False
        why = 'an open node is put aside instead of being updated'
    else:
        memo = [y for y in p.ev[hi:] if y.kind == 'call' and short(y.name) == 'ClosedList::find' and '=' not in p.st.facts.relset('i', y.res, NULL)]
        good = not names and isopen is False and bool(memo)
        why = 'an improved node %s not put back on the open list correctly (%s)' % ('on the open list is' if isopen else 'is', ', '.join(names) or 'nothing done')
    o.decide(good, 'reopen', key, loc, why, tr, '%s: improved nodes are re-inserted or repositioned after the change (%s)' % (alg, '/'.join(names) or 'already set aside'))


def duprule(o, p, j, e, D, struct, newg, alg, need):
    a0 = alg.split(':')[0]
    tr = lambda: trace(p)
    kk = lambda w: '%s:%s' % (alg, w)
    st = [(k, x) for k, x in enumerate(p.ev[j:], j) if x.kind == 'store' and path(x.ptr) and parentobj(x.ptr) == D and path(x.ptr)[-1][2] not in ('openind',)]
    linked = {path(x.ptr)[-1][2] for k, x in st}
    oldg = None
    for y in p.ev:
        if y.kind in ('load', 'store') and y.ptr == fld(D, struct, 'g'):
            oldg = y.val if y.kind == 'load' else y.old
            break
    flag = flagon(p, len(p.ev))
    if not linked & {'g', 'parent', 'op', 'pop'}:
        if a0 in DROPPERS:
            return
        why = 'the flag %s' % flag if flag == 'dropdups' else None
        ok = flag == 'dropdups'
        if not ok and oldg is not None:
            ok = any('<' not in relation(p, g, oldg) for g in newg)
        o.decide(ok, 'dup-kept', kk('kept'), e.loc, 'a duplicate reached at lower cost is ignored', tr, '%s: a duplicate is left alone only if the new path is not cheaper' % alg)
        return
    ok = oldg is not None and any(relation(p, g, oldg) == frozenset('<') for g in newg)
    o.decide(ok, 'dup-cheaper', kk('cheaper'), st[0][1].loc, 'a duplicate is redirected although the new path is not known to be cheaper', tr, '%s: a duplicate is redirected only to a strictly cheaper path' % alg)
    if a0 not in DROPPERS:
        o.decide(flag != 'dropdups', 'dup-dropped', kk('dropdups'), st[0][1].loc, 'a duplicate is redirected although duplicates are to be dropped', tr, '%s: -dropdups never redirects' % alg)
    miss = {'g', 'parent', 'op', 'pop'} - linked
    o.decide(not miss, 'dup-complete', kk('complete'), st[0][1].loc, 'a redirected duplicate keeps its old %s' % ', '.join(sorted(miss)), tr, '%s: parent, operators and g change together' % alg)
    miss = need - linked
    o.decide(not miss, 'dup-key', kk('keys'), st[0][1].loc, 'the ordering key of a redirected duplicate keeps its old %s' % ', '.join(sorted(miss)), tr, '%s: keys depending on g are recomputed' % alg)
    for F in ('f', 'fprime'):
        fs = [x for k, x in st if path(x.ptr)[-1][2] == F]
        if not fs or oldg is None:
            continue
        oldF = fs[0].old
        fin = p.value(fld(D, struct, F))
        ok = False
        for g in newg:
            for c in (lambda x: x, lambda x: mk('cast', 'sitofp', x)):
                rest = sub(decast(fin), c(g))
                if rest == sub(oldF, c(oldg)) or (not contains(rest, oldg) and not contains(rest, oldF) and not contains(rest, g)):
                    ok = True
                if sub(decast(fin), g) == sub(oldF, oldg) or flat(fin, g) == flat(oldF, oldg):
                    ok = True
        o.decide(ok, 'dup-key', kk(F), fs[-1].loc, '%s of a redirected duplicate becomes %s, which is not shifted by the change of g' % (F, show(fin)), tr, '%s: %s moves with g' % (alg, F))
    reinsertion(o, p, j, D, struct, alg, st, 'reopen')


def treerule(o, p, j, e, D, nn, alg):
    tr = lambda: trace(p)
    kk = lambda w: '%s:tree:%s' % (alg, w)
    K = D
    if nn == frozenset('='):
        return
    st = [(k, x) for k, x in enumerate(p.ev[j:], j) if x.kind == 'store' and path(x.ptr) and parentobj(x.ptr) == K and path(x.ptr)[-1][2] in ('g', 'f', 'op', 'parent')]
    pst = [x for k, x in st if path(x.ptr)[-1][2] == 'parent']
    gl = [y for y in p.ev[j:] if y.kind in ('load', 'store') and path(y.ptr) and parentobj(y.ptr) == K and path(y.ptr)[-1][2] == 'g']
    if not gl and not st:
        return
    struct = path(gl[0].ptr)[-1][1] if gl else path(st[0][1].ptr)[-1][1]
    if st and not {path(x.ptr)[-1][2] for k, x in st} & {'parent', 'op', 'f'}:
        return          # costs of an evaluation walk, no tree
    oldg = (gl[0].val if gl[0].kind == 'load' else gl[0].old) if gl else None
    if st:
        newg = p.value(fld(K, struct, 'g'))
        o.decide(oldg is not None and relation(p, newg, oldg) == frozenset('<'), 'dup-cheaper', kk('cheaper'), st[0][1].loc,
                 'a node of the local search is redirected although the new path is not known to be cheaper', tr, '%s: local search redirects only to cheaper paths' % alg)
        miss = {'g', 'f', 'op', 'parent'} - {path(x.ptr)[-1][2] for k, x in st}
        o.decide(not miss, 'dup-complete', kk('complete'), st[0][1].loc, 'a redirected node keeps its old %s' % ', '.join(sorted(miss)), tr, '%s: local search changes parent, op, g and f together' % alg)
        reinsertion(o, p, j, K, struct, alg, st, 'tree:reopen')
    else:
        rels = [s if (b == oldg) else frozenset(FLIP[z] for z in s) for (k, a, b), s in p.st.facts.rel.items() if oldg in (a, b) and oldg is not None]
        # orderings known between some candidate g and the old one
        ok = any('<' not in s for s in rels)
        o.decide(ok, 'dup-kept', kk('kept'), e.loc, 'a node of the local search reached at lower cost is ignored', tr, '%s: local search ignores only paths that are not cheaper' % alg)


def P03(pid, tier):
    c = Check(pid, tier, 'On every acyclic path through each search function: the table is searched for the packed child with its own hash; a state not '
              'found is added and opened once; a known state is redirected only when the new path is strictly cheaper and left alone only when it is not '
              '(or under the drop flag); a redirect changes parent, operators, g and the ordering keys together and repositions or re-opens the node afterwards.',
              ['state equality and hash are those of the domain'])
    bc = algs_bc()
    fns = alg_entries(bc)
    CT.update(ctormap())
    KEYF.update(keyfields(bc))
    run_rules(c, [((dup_target, dup_seed), r_dups)], fns)
    c.atleast('dup-cheaper', 20)
    c.atleast('dup-kept', 20)
    c.atleast('reopen', 20)
    return c.finish()

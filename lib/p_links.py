"""P02: what is recorded about a solution is what the domain was asked to do."""
from p_search import *


def graph_entries(rxs, marks=MARKS):
    return vf.graphs(algs_bc(), rxs, marks, force=FORCE)


def is_call_to(i, *subs):
    return i['op'] == 'call' and any(s in i['callee'] for s in subs)


# ---------------------------------------------------------------- recorded transitions (real-time searches)
def ctormap():
    """record constructor -> {field: constructor parameters it is made from}"""
    out = {}
    for f in graph_entries([r'^(\w+)<VDomT<.*>::.*(edge|Out|In|Move)::\w+\(', r'^(\w+)<VDomT<.*>::(\w+::)*(\w+)::\3\(']):
        m = {}
        ex = Explorer(f, AlgEff(), maxpaths=2000)
        for p in ex.run():
            for e in p.ev:
                if e.kind == 'store' and root(e.ptr) == mk('arg', 0, f.args[0][0]) and len(path(e.ptr)) == 1:
                    v = e.val
                    while T[v][0] == 'cast':
                        v = T[v][2]
                    m.setdefault(path(e.ptr)[0][2], set()).add(v)
        out[recname(f.dem)] = {k: {T[v][1] for v in vs if T[v][0] == 'arg'} for k, vs in m.items()}
    return out


def recname(dem):
    """qualified record name of a constructor or of a vector element"""
    i = dem.find('(')
    n = dem[:i]
    return n[:n.rfind('::')]


def vecelem(name):
    """element type of a std::vector member function name"""
    i = name.find('std::vector<')
    if i < 0:
        return None
    d, j = 0, i + len('std::vector<')
    k = j
    while j < len(name):
        ch = name[j]
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if (ch == ',' and d == 0) or d < 0:
            return name[k:j].strip()
        j += 1
    return None


CT = {}


def is_record_add(i):
    return i['op'] == 'call' and short(i['callee']) in ('std::vector::emplace_back', 'std::vector::push_back') and vecelem(i['callee']) in CT


def rec_seed(i):
    return is_record_add(i) or is_edge(i) or is_call_to(i, '::pack(', '::construct(', '::find(')


TAGS = {}


def r_record(o, fn, ps, alg):
    """records appended while a transition is in force hold that transition's parts"""
    for p in ps:
        es = edges(p)
        for j, e in enumerate(p.ev):
            if e.kind != 'call' or short(e.name) not in ('std::vector::emplace_back', 'std::vector::push_back'):
                continue
            rn = vecelem(e.name)
            if rn not in CT:
                continue
            live = [E for E in es if E.k < j < E.end and (E.dtor is None or j < E.dtor)]
            fields = CT[rn]
            key = lambda w: '%s:%s:%s' % (alg, stripsuffix(rn).split('::')[-1], w)
            if not live:
                continue
            E = live[-1]
            P = unpacked_node(E.s)
            owner = parentobj(e.args[0])
            val = {}
            if len(e.args) > 2 or short(e.name).endswith('emplace_back'):
                for f, idx in fields.items():
                    for k in idx:
                        if k < len(e.args):
                            v = e.deref[k] if e.deref[k] is not None else e.args[k]
                            val[f] = v
            else:
                tmp = e.args[1]
                for x in p.ev[:j]:
                    if x.kind == 'store' and root(x.ptr) == root(tmp) and path(x.ptr)[:-1] == path(tmp):
                        val[path(x.ptr)[-1][2]] = x.val
            tag = {}
            for f, v in val.items():
                while T[v][0] == 'cast':
                    v = T[v][2]
                st = None
                if v == E.op:
                    tag[f] = 'op'
                elif v == P:
                    tag[f] = 'src'
                elif E.has('cost', v):
                    tag[f] = 'cost'
                elif E.has('revcost', v):
                    tag[f] = 'revcost'
                elif childnode(p, v, E):
                    tag[f] = 'node'
                else:
                    tag[f] = '?' + show(v)
            for f, t in tag.items():
                o.decide(not t.startswith('?'), 'record-part', key(f), e.loc,
                         'field %s of the record is %s, which is no part of the transition' % (f, t[1:]), lambda: trace(p),
                         '%s: %s.%s holds the %s of the transition (%s)' % (alg, rn.split('::')[-1], f, t, rel(e.loc)))
            if 'op' in tag.values() or 'node' in tag.values():
                o.decide({'op', 'node', 'cost'} <= set(tag.values()), 'record-part', key('complete'), e.loc,
                         'the successor record does not hold child, operator and cost of the transition', lambda: trace(p))
                o.decide(owner == P, 'record-owner', key('owner'), e.loc,
                         'a successor record is stored with a node the transition does not start at', lambda: trace(p),
                         '%s: successor records belong to the node that was unpacked' % alg)
            if 'src' in tag.values():
                o.decide('cost' in tag.values(), 'record-part', key('complete'), e.loc, 'the predecessor record does not hold the cost of the transition', lambda: trace(p))
                o.decide(childnode(p, owner, E), 'record-owner', key('owner'), e.loc,
                         'a predecessor record is stored with a node that is not the child', lambda: trace(p),
                         '%s: predecessor records belong to the child' % alg)
            if not any(x[0] == 'tag' and x[1] == (rn, tuple(sorted(tag.items()))) for x in o.r):
                o.r.append(('tag', (rn, tuple(sorted(tag.items())))))


def childnode(p, v, E):
    for struct in nodestructs(p):
        s = statesource(p, v, struct)
        if s is not None and E.is_state(s):
            return True
    return False


def nodestructs(p):
    s = set()
    for e in p.ev:
        if e.kind == 'call' and short(e.name).endswith('::pack'):
            pp = path(e.args[1])
            if pp:
                s.add(pp[-1][1])
    return s


# ---------------------------------------------------------------- local search trees over records
def is_parent_store(fn):
    d = defs(fn)

    def t(i):
        if i['op'] != 'store':
            return False
        g = d.get(i['ptr'])
        return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] == 'parent'
    return t


is_parent_store.perfn = True


@perfn
def link_seed(fn):
    t = is_parent_store(fn)
    d = defs(fn)

    def s(i):
        if t(i) or is_call_to(i, '::find(', '::construct(', '::pack(') or is_edge(i):
            return True
        if i['op'] == 'store':
            g = d.get(i['ptr'])
            return bool(g) and g['op'] == 'gep' and g['path'][-1][0] == 'f' and g['path'][-1][2] in ('op', 'g', 'pop', 'node')
        return False
    return s


def container_origin(p, cont):
    """where a local container was copied from, else itself"""
    src = cont
    for e in p.ev:
        if e.kind == 'call' and short(e.name) in ('std::vector::vector', 'std::vector::operator=') and len(e.args) == 2 and e.args[0] == cont:
            src = e.args[1]
        elif e.kind == 'call' and e.args and e.args[0] == cont and ('sret' in (e.ins or {}) or False):
            src = e.res
    return src


def r_consume(o, fn, ps, alg):
    for p in ps:
        es = edges(p)
        seen = {}
        for j, e in enumerate(p.ev):
            if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][0] == 'f' and path(e.ptr)[-1][2] == 'parent' and e.val != NULL:
                seen[parentobj(e.ptr)] = (j, e)
        for K, (j, e) in seen.items():
            if any(E.k < j < E.end for E in es):
                continue        # linked directly under a transition: rule `links`
            struct = path(e.ptr)[-1][1]
            S = p.value(fld(K, struct, 'parent'))
            key = lambda w: '%s:tree:%s' % (alg, w)
            tr = lambda: trace(p)
            op = p.value(fld(K, struct, 'op'))
            g = p.value(fld(K, struct, 'g'))
            el = element(p, op)
            if not o.decide(el is not None, 'tree-op', key('op'), e.loc, 'op is %s, not the operator of a recorded transition' % show(op), tr,
                            '%s: op is read from the record being followed' % alg):
                continue
            X = el[1]
            fop = (lastfield(T[op][1]) or (None, None))[1]
            if not o.decide(fop is not None, 'tree-op', key('op'), e.loc, 'op is %s, which is no field of a recorded transition' % show(op), tr):
                continue
            # child identity
            kn = p.value(fld(K, struct, 'node'))
            fnode = None
            t = T[K]
            if t[0] in ('call', 'pure') and short(t[1]).endswith('::find'):
                kk = root(t[2][1])
                src = [v for v in [kk] if T[v][0] == 'ld' and root(T[v][1]) == X]
                if src:
                    fnode = lastfield(T[src[0]][1])[1]
            elif T[kn][0] == 'ld' and root(T[kn][1]) == X:
                fnode = lastfield(T[kn][1])[1]
            o.decide(fnode is not None, 'tree-node', key('node'), e.loc, 'the node linked is not the child of the record whose operator it takes', tr,
                     '%s: operator and child come from the same record' % alg)
            # cost
            gs = {x.val for x in p.ev if x.kind == 'load' and x.ptr == fld(S, struct, 'g')}
            cf = None
            for x in p.ev:
                if x.kind == 'load' and root(x.ptr) == X and any(g == fsum([(a, 1), (x.val, 1)]) for a in gs):
                    cf = lastfield(x.ptr)[1]
            if cf is None:
                for x in p.ev:
                    if x.kind == 'load' and root(x.ptr) == X:
                        for a in gs:
                            if g == fsum([(a, 1), (mk('cast', 'sitofp', x.val), 1)]):
                                cf = lastfield(x.ptr)[1]
            o.decide(cf is not None, 'tree-g', key('g'), e.loc, 'g is %s, not the g of the parent plus the recorded cost' % show(g), tr,
                     '%s: g = parent g + recorded cost' % alg)
            # the record belongs to the parent's node
            org = container_origin(p, el[0])
            sn = [x.val for x in p.ev if x.kind == 'load' and x.ptr == fld(S, struct, 'node')]
            o.decide(root(org) in sn or any(root(org) == root(v) for v in sn), 'tree-source', key('source'), e.loc,
                     'the record is taken from %s, not from the node of the parent' % show(org), tr,
                     '%s: the records followed are those of the parent\'s node' % alg)
            et = elemtype(X)
            if fnode and cf:
                u = ('use', (et, (('cost', cf), ('node', fnode), ('op', fop))))
                if u not in o.r:
                    o.r.append(u)


def elemtype(X):
    n = T[X][1]
    m = re.search(r'__normal_iterator<(.*?)\s*\*,', n)
    if m:
        return m.group(1)
    return vecelem(n)


# ---------------------------------------------------------------- root nodes
def is_openpush(i):
    return i['op'] == 'call' and re.match(r'^(OpenList|BinHeap)<.*>::(push|pushupdate)\(', i['callee'])


@perfn
def root_seed(fn):
    s = link_seed(fn)
    return lambda i: s(i) or bool(is_openpush(i))


def r_roots(o, fn, ps, alg):
    for p in ps:
        par, seen = {}, set()
        s0 = [mk('arg', k, a[0]) for k, a in enumerate(fn.args)]
        for j, e in enumerate(p.ev):
            if e.kind == 'store' and path(e.ptr) and path(e.ptr)[-1][0] == 'f' and path(e.ptr)[-1][2] == 'parent':
                par[parentobj(e.ptr)] = (e.val, path(e.ptr)[-1][1])
            if e.kind == 'call' and re.match(r'^(OpenList|BinHeap)<.*>::(push|pushupdate)\(', e.name):
                K = e.args[1] if len(e.args) > 1 else None
                if K not in par or T[K][0] != 'fresh' or par[K][0] != NULL or K in seen:
                    continue
                seen.add(K)
                struct = par[K][1]
                # values at the time of the push
                cur = {}
                for x in p.ev[:j]:
                    if x.kind == 'store' and parentobj(x.ptr) == K:
                        cur[path(x.ptr)[-1][2]] = x.val
                key = lambda w: '%s:root:%s' % (alg, w)
                tr = lambda: trace(p)
                packed = [x for x in p.ev[:j] if x.kind == 'call' and short(x.name).endswith('::pack') and root(x.args[1]) == K]
                if packed:
                    o.decide(packed[-1].args[2] in s0, 'root-state', key('state'), e.loc, 'the root is packed from %s, not from the start state' % show(packed[-1].args[2]), tr,
                             '%s: the root is packed from the start state' % alg)
                if any(T[cur.get(f, NULL)] == ('c', -1) for f in ('op',)) or packed:
                    for f, w in (('op', -1), ('pop', -1), ('g', 0)):
                        if f in cur:
                            o.decide(T[cur[f]] == ('c', w), 'root-fields', key(f), e.loc, '%s of the root is %s' % (f, show(cur[f])), tr,
                                     '%s: root has no operator and no cost' % alg)
                else:
                    # root below a recorded transition (one search per successor)
                    el = element(p, cur.get('op', NULL))
                    nm = lambda v: (lastfield(T[v][1]) or (None, None))[1] if T[v][0] == 'ld' else None
                    g = cur.get('g', NULL)
                    while T[g][0] == 'cast':
                        g = T[g][2]
                    ok = el is not None and T[g][0] == 'ld' and root(T[g][1]) == el[1] and T[cur.get('node', NULL)][0] == 'ld' and root(T[cur['node']][1]) == el[1]
                    o.decide(ok, 'root-fields', key('record'), e.loc, 'operator, cost and node of a root are not all from one recorded transition', tr,
                             '%s: root below a recorded transition' % alg)
                    if ok:
                        u = ('use', (elemtype(el[1]), (('cost', nm(g)), ('node', nm(cur['node'])), ('op', nm(cur['op'])))))
                        if u not in o.r:
                            o.r.append(u)


def r_copyrec(o, fn, ps, alg):
    """objects that copy the parts of a record into fields of their own"""
    for p in ps:
        byobj = {}
        for e in p.ev:
            if e.kind == 'store' and T[root(e.ptr)][0] == 'fresh' and len(path(e.ptr)) == 1 and T[e.val][0] == 'ld':
                el = element(p, e.val)
                if el is not None and lastfield(T[e.val][1]):
                    byobj.setdefault(root(e.ptr), []).append((lastfield(e.ptr), el[1], lastfield(T[e.val][1])[1]))
        for O, L in byobj.items():
            if len({x[1] for x in L}) == 1 and len(L) > 1:
                r = ('tag', ('copy:' + L[0][0][0], tuple(sorted((f[1], '@%s.%s' % (elemtype(X), g)) for f, X, g in L))))
                if r not in o.r:
                    o.r.append(r)


# ---------------------------------------------------------------- path extraction from parent links
def solpaths(c):
    fns = graph_entries([r'^void solpath<'])
    o = Out()
    for f in fns:
        ex = explore(f)
        goal, res = mk('arg', 1, f.args[1][0]), mk('arg', 2, f.args[2][0])
        tag = 'solpath'
        nonempty = 0
        for p in ex.paths:
            if p.kind == 'abort':
                continue
            loops = [j for j, e in enumerate(p.ev) if e.kind == 'loop']
            first = loops[0] if loops else len(p.ev)
            for v in ('path', 'ops'):
                o.decide(any(is_vec(e, 'clear') for j, e in vec_events(p, v) if j < first), 'extract-clear', '%s:%s' % (tag, v), '%s:%d' % (f.file, f.line),
                         'res.%s still holds earlier entries when the path is extracted' % v, lambda: trace(p), 'res.%s cleared before extraction' % v)
            if p.kind != 'back':
                o.decide(not any(is_vec(e, *ADD) for v in ('path', 'ops') for j, e in vec_events(p, v) if True and not (j > first)), 'extract-extra', tag, '%s:%d' % (f.file, f.line), 'entries are added outside the walk', lambda: trace(p))
                continue
            nonempty += 1
            lp = p.ev[first]
            # the node variable: the header value that starts at goal
            cand = [pid for pid, vs in lp.args if vs == [goal]]
            if len(cand) != 1:
                o.fail('extract-start', tag, lp.loc, 'the walk does not start at the goal node', trace(p))
                continue
            n = mk('phi', cand[0], f.short)
            pp = [e for j, e in vec_events(p, 'path') if is_vec(e, *ADD) and j > first]
            po = [e for j, e in vec_events(p, 'ops') if is_vec(e, *ADD) and j > first]
            o.decide(len(pp) == 1 and short(pp[0].name).endswith('_back') and unpacked_node(pp[0].args[1]) == n, 'extract-state', tag, lp.loc,
                     'an iteration does not append exactly the unpacked state of the current node', lambda: trace(p),
                     'each visited node appends its own unpacked state')
            par = [e.val for e in p.ev if e.kind == 'load' and lastfield(e.ptr) and lastfield(e.ptr)[1] == 'parent' and parentobj(e.ptr) == n]
            nn = p.st.facts.relset('i', par[0], NULL) if par else frozenset('<=>')
            hasp = False if nn == frozenset('=') else True if '=' not in nn else None
            o.decide(hasp is not None and len(po) == (1 if hasp else 0), 'extract-op', tag + ':count', lp.loc,
                     'an iteration appends %d operators for a node %s parent' % (len(po), {True: 'with a', False: 'without a', None: 'with or without a'}[hasp]), lambda: trace(p),
                     'an operator is appended exactly for nodes with a parent')
            for e in po:
                v = e.deref[1] if e.deref and e.deref[1] is not None else e.args[1]
                lf = lastfield(T[v][1]) if T[v][0] == 'ld' else None
                o.decide(lf is not None and lf[1] == 'op' and parentobj(T[v][1]) == n, 'extract-op', tag + ':value', e.loc,
                         'the operator appended is %s' % show(v), lambda: trace(p), 'the operator appended is n->op')
            nxt = p.st.user['back'].get(cand[0])
            o.decide(nxt in par, 'extract-next', tag, lp.loc, 'the walk continues at %s' % show(nxt), lambda: trace(p), 'the walk continues at n->parent')
        o.decide(nonempty > 0, 'extract-walk', tag, '%s:%d' % (f.file, f.line), 'no walk over the parents found')
    c.absorb(o.done())
    c.count('path extraction functions', len(fns))


# ---------------------------------------------------------------- recursive depth-first search
def r_dfs(o, fn, ps, alg):
    if not SOLVERS or algname_of(fn.dem) not in {algname_of(r) for r in SOLVERS}:
        return
    recursive = fn.dem in SOLVERS
    if not recursive and not any(c['callee'] in SOLVERS for c in fn.calls()):
        return
    s = mk('arg', 2, fn.args[2][0])
    G = mk('arg', 4, fn.args[4][0]) if recursive else const(0)
    for p in ps:
        es = edges(p)
        tr = lambda: trace(p)
        for j, e in enumerate(p.ev):
            if e.kind == 'call' and e.name in SOLVERS:
                live = [E for E in es if E.k < j < E.end and (E.dtor is None or j < E.dtor)]
                if not live and not recursive and not es:
                    for k, w, what in ((2, s, 'state'), (3, const(-1), 'pop'), (4, const(0), 'g')):
                        o.decide(e.args[k] == w, 'dfs-recursion', '%s:start:%s' % (alg, what), e.loc, 'the search starts with %s %s' % (what, show(e.args[k])), tr, '%s starts from the given state at cost 0' % alg)
                    continue
                key = '%s:recursion' % alg
                if not o.decide(bool(live), 'dfs-recursion', key + ':edge', e.loc, 'the recursion happens while no transition is in force', tr):
                    continue
                E = live[-1]
                o.decide(E.is_state(e.args[2]), 'dfs-recursion', key + ':state', e.loc, 'the recursion searches %s, not the child' % show(e.args[2]), tr, '%s recurses on the child state' % alg)
                o.decide(E.has('revop', e.args[3]), 'dfs-recursion', key + ':pop', e.loc, 'the operator not to be undone is %s' % show(e.args[3]), tr, '%s passes the reverse operator' % alg)
                want = {fsum([(G, 1), (x, 1)]) for x in E.vals['cost']}
                o.decide(e.args[4] in want, 'dfs-recursion', key + ':g', e.loc, 'the recursion gets cost %s' % show(e.args[4]), tr, '%s passes g + cost' % alg)
        pp = [(j, e) for j, e in vec_events(p, 'path') if is_vec(e, *ADD)]
        po = [(j, e) for j, e in vec_events(p, 'ops') if is_vec(e, *ADD)]
        if pp:
            j, e = pp[0]
            o.decide(len(pp) == 1 and e.args[1] == s, 'dfs-path', '%s:state' % alg, e.loc, 'the state added is not the one being searched', tr, '%s adds its own state' % alg)
            o.decide(not any(E.k < j and (E.dtor is None or j < E.dtor) for E in es), 'dfs-path', '%s:undone' % alg, e.loc,
                     'the state is added while the transition is still in force', tr, '%s adds the state after the transition is undone' % alg)
            sub = [x for x in p.ev if x.kind == 'call' and x.name in SOLVERS]
            o.decide(len(po) == (1 if sub else 0), 'dfs-path', '%s:ops' % alg, e.loc, '%d operators are added with the state' % len(po), tr, '%s adds one operator per transition' % alg)
            for k, q in po:
                v = q.deref[1] if q.deref and q.deref[1] is not None else q.args[1]
                o.decide(bool(es) and v == es[-1].op, 'dfs-path', '%s:op' % alg, q.loc, 'the operator added is %s, not the one that led to the goal' % show(v), tr, '%s adds the operator it applied' % alg)
        else:
            o.decide(not po, 'dfs-path', '%s:ops' % alg, '%s:%d' % (fn.file, fn.line), 'operators are added without a state', tr)


def algname_of(dem):
    m = re.match(r'^(\w+)<', dem)
    return m.group(1) if m else dem


# ---------------------------------------------------------------- replaying recorded moves
def is_rebuild(fn):
    d = defs(fn)

    def t(i):
        return i['op'] == 'call' and short(i['callee']).startswith('std::vector::') and short(i['callee']).split('::')[-1] in ADD + ('back',) and bool(i['args']) and opsreg(fn, i['args'][0], ('path',))
    return t


is_rebuild.perfn = True


@perfn
def rebuild_seed(fn):
    t = is_rebuild(fn)
    return lambda i: t(i) or is_edge(i) or is_call_to(i, 'std::reverse<') or (i['op'] == 'call' and bool(i['args']) and opsreg(fn, i['args'][0], ('ops', 'path')))


def local_state_source(p, s, upto):
    """the state object a local state was copied from"""
    best = None
    for e in p.ev[:upto]:
        if e.kind == 'store' and root(e.ptr) == root(s):
            t = T[e.val]
            if t[0] == 'ld':
                best = root(t[1])
        elif e.kind == 'call' and e.args and e.args[0] == s and re.match(r'^llvm\.mem(cpy|move)', e.name):
            best = e.args[1]
        elif e.kind == 'call' and e.args and e.args[0] == s and len(e.args) == 2 and re.search(r'::State::State\(|::operator=\(', e.name):
            best = e.args[1]
    return best


def r_rebuild(o, fn, ps, alg):
    if fn.dem not in LONE:
        return
    s0 = mk('arg', 2, fn.args[2][0])
    done = False
    for p in ps:
        pp = [(j, e) for j, e in vec_events(p, 'path') if is_vec(e, *ADD)]
        if not pp:
            continue
        done = True
        tr = lambda: trace(p)
        j0, e0 = pp[0]
        first = e0.args[1]
        if T[first][0] == 'alloca' and local_state_source(p, first, j0) == s0 and not any(E.k < j0 and E.s == first for E in edges(p)):
            first = s0
        o.decide(first == s0 and short(e0.name).endswith('_back'), 'replay-start', '%s:start' % alg, e0.loc, 'the replay starts from %s' % show(e0.args[1]), tr, '%s: the replay starts from the start state' % alg)
        for j, e in pp[1:]:
            live = [E for E in edges(p) if E.k < j < E.end and (E.dtor is None or j < E.dtor)]
            kept = bool(live) and T[e.args[1]][0] == 'alloca' and e.args[1] != live[-1].s and local_state_source(p, e.args[1], j)
            kept = bool(kept) and (live[-1].is_state(kept))
            if not o.decide(bool(live) and live[-1].is_state(e.args[1]) or kept, 'replay-state', '%s:state' % alg, e.loc, 'the state appended is not the result of a transition in force', tr,
                            '%s: each state appended is the result of the transition replayed' % alg):
                continue
            E = live[-1]
            back = [x for x in p.ev[:E.k] if is_vec(x, 'back') and x.args and resvec(x.args[0], 'path')]
            src = local_state_source(p, E.s, E.k)
            okb = any(x.res is not None and x.res in (src, E.s) for x in back)
            ok1 = src == s0 and len(pp) == 1
            o.decide(okb, 'replay-from', '%s:from' % alg, E.ev.loc, 'the transition replayed starts from %s, not from a copy of the last state of the path' % (show(src) if src is not None else show(E.s)), tr,
                     '%s: each transition starts from a copy of the last state' % alg)
            el = element(p, E.op)
            o.decide(el is not None and resvec(container_origin(p, el[0]), 'ops') and el[2] in ('begin', 'cbegin', 'operator[]', 'at'), 'replay-op', '%s:op' % alg, E.ev.loc,
                     'the operator replayed is not taken in order from the recorded operators', tr, '%s: operators are replayed in the order recorded' % alg)
        if p.kind == 'ret':
            for f in ('path', 'ops'):
                n = 0
                for e in p.ev[j0:]:
                    if e.kind == 'call' and short(e.name) == 'std::reverse':
                        ends = [it_container(p, a) for a in e.args[:2]]
                        if [x[0] for x in ends] == ['begin', 'end'] and all(resvec(x[1], f) for x in ends):
                            n += 1
                o.decide(n % 2 == 1, 'replay-order', '%s:%s' % (alg, f), '%s:%d' % (fn.file, fn.line), 'res.%s is reversed %d times after the replay' % (f, n), tr, '%s: res.%s ends in goal-first order' % (alg, f))
    o.decide(done, 'replay-start', '%s:none' % alg, '%s:%d' % (fn.file, fn.line), 'recorded operators are never replayed into a path')


def it_container(p, a):
    t = T[a]
    if t[0] in ('call', 'pure') and re.search(r'::(r?begin|r?end)$', short(t[1])):
        return short(t[1]).split('::')[-1], t[2][-1] if len(t[2]) == 1 else t[2][0]
    if t[0] == 'ld' and T[root(t[1])][0] == 'alloca':
        a = root(t[1])
    r = itersource(p, a, len(p.ev))
    return r if r else ('?', a)


# ---------------------------------------------------------------- committing to moves
def commits(fn):
    def t(i):
        return i['op'] == 'call' and short(i['callee']).startswith('std::vector::') and short(i['callee']).split('::')[-1] in ADD and bool(i['args']) and opsreg(fn, i['args'][0], ('ops',))
    return t


commits.perfn = True


@perfn
def commit_seed(fn):
    t = commits(fn)
    return lambda i: t(i) or (i['op'] == 'call' and short(i['callee']) in ('std::vector::push_back', 'std::vector::emplace_back') and vecelem(i['callee']) in ('int', None)) or i['op'] == 'ret'


def r_commit(o, fn, ps, alg):
    """operators join the result only as a whole chain of parent links from a node down to the current one"""
    if fn.dem not in LONE:
        return
    local = {}      # local vector -> node variables that feed it
    for p in ps:
        for j, e in enumerate(p.ev):
            if is_vec(e, 'push_back', 'emplace_back') and not resvec(e.args[0], 'ops') and T[root(e.args[0])][0] == 'alloca' and vecelem(e.name) == 'int':
                v = e.deref[1] if e.deref and e.deref[1] is not None else e.args[1]
                lf = lastfield(T[v][1]) if T[v][0] == 'ld' else None
                n = parentobj(T[v][1]) if T[v][0] == 'ld' else NULL
                ok = lf is not None and lf[1] == 'op' and T[n][0] == 'phi'
                o.decide(ok, 'chain-op', '%s:op' % alg, e.loc, 'the operator collected is %s' % show(v), lambda: trace(p), '%s: operators collected are those of the chain' % alg)
                if not ok or p.kind != 'back':
                    continue
                pid = T[n][1]
                nxt = p.st.user['back'].get(pid)
                t = T[nxt] if nxt is not None else ('?',)
                o.decide(t[0] == 'ld' and lastfield(t[1])[1] == 'parent' and parentobj(t[1]) == n, 'chain-next', '%s:next' % alg, e.loc,
                         'the chain continues at %s' % (show(nxt) if nxt is not None else '?'), lambda: trace(p), '%s: the chain follows parent links' % alg)
                hdr = [x for x in p.ev[:j] if x.kind == 'loop' and x.val == p.where][-1:]
                for h in hdr:
                    for q, vs in h.args:
                        if q == pid:
                            local.setdefault(root(e.args[0]), []).append(vs[0])
        for j, e in vec_events(p, 'ops'):
            if not is_vec(e, *ADD):
                continue
            if is_vec(e, 'insert'):
                its = [it_container(p, a) for a in e.args[1:4]]
                kinds = [x[0] for x in its]
                okk = len(its) == 3 and kinds == ['end', 'rbegin', 'rend'] and resvec(its[0][1], 'ops') and its[1][1] == its[2][1] and T[root(its[1][1])][0] == 'alloca'
                o.decide(okk, 'commit-order', '%s:insert' % alg, e.loc, 'the operators are inserted as %s' % ', '.join(kinds), lambda: trace(p),
                         '%s: the whole chain is appended, first operator first' % alg)
            else:
                v = e.deref[1] if e.deref and e.deref[1] is not None else e.args[1]
                el = elemof(p, v)
                if el is not None and T[root(el[0])][0] == 'alloca' and vecelem_of(p, el[0]) == 'int':
                    o.decide(el[2] == 'back', 'commit-order', '%s:onestep' % alg, e.loc, 'the single operator executed is the %s of the chain, which is not the one that leaves the current node' % el[2],
                             lambda: trace(p), '%s: a single step takes the operator closest to the current node' % alg)
                else:
                    t = T[v]
                    O = parentobj(t[1]) if t[0] == 'ld' else None
                    back = [x for x in p.st.user.get('back', {}).values() if T[x][0] == 'ld' and parentobj(T[x][1]) == O]
                    o.decide(O is not None and (p.kind != 'back' or bool(back)), 'commit-order', '%s:move' % alg, e.loc,
                             'the operator executed (%s) and the node moved to do not come from one record' % show(v), lambda: trace(p), '%s: operator executed and node moved to come from one record' % alg)
                    if O is not None and back and lastfield(t[1]):
                        o.r.append(('use', ('copy:' + lastfield(t[1])[0], (('node', lastfield(T[back[0]][1])[1]), ('op', lastfield(t[1])[1])))))


def elemof(p, v):
    t = T[v]
    if t[0] == 'ld':
        return elemptr(p, root(t[1]))
    return None


def vecelem_of(p, cont):
    for e in p.ev:
        if e.kind == 'call' and e.args and e.args[0] == cont and short(e.name).startswith('std::vector::'):
            return vecelem(e.name)
    return None


SOLVERS = set()


def touches_path(fn, i):
    return short(i['callee']).startswith('std::vector::') and short(i['callee']).split('::')[-1] in ADD and bool(i['args']) and opsreg(fn, i['args'][0], ('path',))


def P02(pid, tier):
    c = Check(pid, tier, 'On every acyclic path (loops cut at their headers) through each search function: a node linked under a transition '
              'gets exactly that transition\'s parent, operator, reverse operator, cost and state; records of transitions hold the parts of one transition '
              'and are consumed as such; roots stand for the start state; extraction follows parent links and appends each node\'s own state and operator; '
              'recorded moves are replayed from the start state in order.',
              ['domain operations are opaque; the child state of a transition is what the transition object refers to'])
    fns = alg_entries(algs_bc())
    CT.update(ctormap())
    RECURSIVE.update(f.dem for f in fns if any(x['callee'] == f.dem for x in f.calls()))
    SOLVERS.update(f.dem for f in fns if f.dem in RECURSIVE and any(i['op'] == 'call' and touches_path(f, i) for i in f.instrs()))
    for f in fns:
        if not any(x['callee'].startswith('void solpath<') for x in f.calls()) and any(touches_result(f)(i) for i in f.instrs()) and f.dem not in RECURSIVE and not any(x['callee'] in SOLVERS for x in f.calls()):
            LONE.add(f.dem)
    rules = [((is_edge, link_seed), lambda o, f, ps, a: [links(o, f, p, a) for p in ps]),
             ((is_record_add, rec_seed), r_record),
             ((is_parent_store, link_seed), r_consume),
             ((is_openpush, root_seed), r_roots),
             ((is_openpush, root_seed), r_copyrec),
             ((is_rebuild, rebuild_seed), r_rebuild),
             ((commits, commit_seed), r_commit),
             (recursion_target, r_dfs)]
    run_rules(c, rules, fns)
    tagcheck(c)
    solpaths(c)
    c.atleast('link-op', 20)
    c.atleast('record-part', 20)
    c.atleast('tree-op', 5)
    c.atleast('extract-op', 2)
    c.atleast('dfs-recursion', 4)
    c.atleast('replay-op', 4)
    return c.finish()


@perfn
def recursion_target(fn):
    return lambda i: i['op'] == 'call' and i['callee'] in SOLVERS or (fn.dem in SOLVERS and i['op'] == 'ret')


def tagcheck(c):
    """fields written as child/operator/cost are the ones read as such"""
    tags = {}
    for et, t in c.tags:
        for f, x in t:
            tags.setdefault(et, {}).setdefault(f, set()).add(x)
    # copies of records: resolve the roles through the record copied
    for et in list(tags):
        for f, xs in tags[et].items():
            ys = set()
            for x in xs:
                if x.startswith('@'):
                    t, g = x[1:].rsplit('.', 1)
                    ys |= tags.get(t, {}).get(g, {'?'})
                else:
                    ys.add(x)
            tags[et][f] = ys
    for et, use in c.uses:
        w = tags.get(et)
        key = lambda r: '%s:%s' % (stripsuffix(et or '?'), r)
        if not c.decide(w is not None, 'record-use', key('unknown'), None, 'records of type %s are followed but never written under a transition' % et):
            continue
        for role, f in use:
            c.decide(w.get(f) == {role}, 'record-use', key(role), None,
                     'field %s is used as %s of the transition but written with its %s' % (f, role, '/'.join(sorted(w.get(f, {'?'})))), None,
                     '%s.%s is written and used as %s' % (stripsuffix(et), f, role))

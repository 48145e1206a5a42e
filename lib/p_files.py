"""P12: what the solvers print is a complete, readable data file."""
from units import *
from vf import Check

HDR, FTR = '#start data file format', '#end data file format'
PRN = re.compile(r'^(dfpair|dfrow|dfrowhdr|fatal|fatalx|warn|warnx|(f|s|sn|v|vf|vsn)?printf|f?scanf|sscanf)\(|^(f|s|sn)?(printf|scanf)$|^(fscanf|sscanf|vsnprintf|snprintf|fprintf|sprintf|__isoc99_fscanf|__isoc99_sscanf|__isoc23_fscanf|__isoc23_sscanf)$')


def strs(a):
    return [s[2:] for s in a[2:] if s.startswith('s:')]


def exact(a):
    return a[1] and all(s.startswith('s:') for s in a[2:]) and len(a) > 2


def base(n):
    return n.split('(')[0].split('<')[0].split('::')[-1]


def generic(n):
    """a function's name without its instantiation"""
    n = n.split('(')[0]
    while True:
        m = re.sub(r'<[^<>]*>', '', n)
        if m == n:
            return m.split(' ')[-1] or n
        n = m


# ---- every value printed or read agrees with its conversion -----------------

def r_formats(c):
    built = 0
    for src, ok, ds in diagnostics():
        built += ok
        for f, line, msg in ds:
            c.fail('formats', '%s|%s' % (os.path.relpath(f, vf.REPO), re.sub(r" aka '[^']*'", '', msg)), '%s:%d' % (f, line), 'the values do not fit the conversions: ' + msg)
    c.count('translation units checked for formats', built)
    seen = set()
    for src, fns in calls():
        for f in fns:
            for k in f['calls']:
                if PRN.match(k['to']):
                    seen.add((k['loc'], k['to']))
    bad = {(r['loc']) for r in c.bad.values()}
    for loc, to in sorted(seen):
        if rel(loc) not in bad:
            c.ok('formats', sample='%s at %s' % (base(to), rel(loc)))


# ---- rows -------------------------------------------------------------------

ROWTY = {'g': ('double',), 'f': ('double',), 'd': ('i64',), 'u': ('i64',)}


def r_rows(c):
    hdrs, rows = {}, {}
    for src, fns in calls():
        for f in fns:
            for k in f['calls']:
                b = base(k['to'])
                if b not in ('dfrow', 'dfrowhdr') or len(k['args']) < 3:
                    continue
                where = generic(f['name'])
                if b == 'dfrowhdr':
                    n = [int(x[2:]) for x in k['args'][2][2:] if x.startswith('i:')]
                    if not k['args'][2][1] or not exact(k['args'][1]):
                        c.count('row headers not decided', 1)
                        continue
                    got = len(k['args']) - k['nfix']
                    for nm in strs(k['args'][1]):
                        for m in n:
                            c.decide(m == got, 'rows', '%s:header %s' % (where, nm), k['loc'], 'the header of "%s" announces %d columns and names %d' % (nm, m, got), sample='header "%s" names its %d columns' % (nm, got))
                            hdrs.setdefault(nm, {})[m] = k['loc']
                    cols = [strs(a) for a in k['args'][k['nfix']:]]
                    if all(exact(a) and len(x) == 1 for a, x in zip(k['args'][k['nfix']:], cols)):
                        cols = [x[0] for x in cols]
                        c.decide(len(set(cols)) == len(cols), 'rows', '%s:columns %s' % (where, strs(k['args'][1])), k['loc'], 'two columns have the same name', sample='columns of %s are distinct' % strs(k['args'][1]))
                else:
                    if not exact(k['args'][2]) or not exact(k['args'][1]):
                        c.count('rows not decided', 1)
                        continue
                    tys = [a[0] for a in k['args'][k['nfix']:]]
                    for fm in strs(k['args'][2]):
                        okf = len(fm) == len(tys) and all(x in ROWTY and t in ROWTY[x] for x, t in zip(fm, tys))
                        c.decide(okf, 'rows', '%s:row %s' % (where, strs(k['args'][1])), k['loc'], 'the row is written as "%s" but given %s' % (fm, ', '.join(tys)), sample='row %s: "%s" gets %s' % (strs(k['args'][1]), fm, ', '.join(tys)))
                        for nm in strs(k['args'][1]):
                            rows.setdefault(nm, []).append((len(fm), k['loc'], where))
    for nm, L in sorted(rows.items()):
        for n, loc, where in L:
            h = hdrs.get(nm, {})
            c.decide(n in h, 'rows', '%s:%s against its header' % (where, nm), loc, 'a row "%s" of %d columns: %s' % (nm, n, 'no header of that name' if not h else 'its header names %s' % sorted(h)), sample='rows "%s" have the %d columns of their header' % (nm, n))


# ---- nothing is cut short ----------------------------------------------------

CONV = re.compile(r'%(?:%|[-+ #0]*(\d*)(?:\.\d+)?(hh|h|ll|l|z)?([diuxXcs]|.))')


def maxlen(fmt):
    """the greatest number of characters the format can produce, or None"""
    n, i = 0, 0
    for m in CONV.finditer(fmt):
        n += m.start() - i
        i = m.end()
        if m.group(0) == '%%':
            n += 1
        elif m.group(3) in 'diu':
            n += max(int(m.group(1) or 0), 20 if m.group(2) in ('l', 'll', 'z') else 11)
        elif m.group(3) == 'c':
            n += 1
        else:
            return None
    return n + len(fmt) - i


def r_cut(c):
    todo = {}
    for src, fns in calls():
        callers = {}
        byname = {f['name']: f for f in fns}
        for f in fns:
            for k in f['calls']:
                callers.setdefault(k['to'], set()).add(f['name'])
        work, seen = [f['name'] for f in fns if any(base(k['to']) in ('snprintf', 'vsnprintf') for k in f['calls']) and base(f['name']) not in ('warn', 'warnx', 'fatal', 'fatalx')], set()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            f = byname[n]
            # a function of this file only is judged where it is called
            if f['local'] and not f['taken'] and callers.get(n):
                work += [x for x in callers[n] if x != n]
            else:
                todo.setdefault(src, {})[n] = f
    srcs = {s: b for s, b in unit_bcs()}
    done = set()
    jobs = []
    for src, fns in sorted(todo.items()):
        # every function that formats, and the callers they are inlined in
        for n in sorted(fns):
            if (fns[n]['file'], generic(n)) not in done:
                done.add((fns[n]['file'], generic(n)))
                jobs.append((src, n))

    def work(j):
        src, n = j
        o = Out()
        for f in vf.graphs(srcs[src], ['^' + re.escape(n) + '$'], '^dfpair\\(\n^dfrow\\(\n^walltime\n^cputime\n^std::'):
            cut_one(o, f)
        return o.done()
    for r in vf.pmap(work, jobs):
        c.absorb(r)
    c.count('functions that format into buffers', len(jobs))


def cut_one(o, f):
    try:
        ex = explore(f, eff=Effects(), maxpaths=20000)
    except AnalysisError:
        return
    n = 0
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        arglists(o, f, p)
        for i, e in enumerate(p.ev):
            if e.kind != 'call' or short(e.name) not in ('snprintf', 'vsnprintf') or len(e.args) < 3:
                continue
            if T[e.args[0]][0] == 'null':
                continue
            buf, size, r = root(e.args[0]), e.args[1], e.res
            fmt = T[e.args[2]]
            key = '%s:%s' % (generic(f.dem), fmt[1] if fmt[0] == 'str' else '*')
            if fmt[0] == 'str' and T[size][0] == 'c' and maxlen(fmt[1]) is not None and maxlen(fmt[1]) < T[size][1]:
                o.ok('nothing cut', '%s: "%s" always fits its buffer of %d' % (f.short, fmt[1], T[size][1]))
                continue
            # a buffer sized by the same formatting measured before
            if fits(p, i, e):
                o.ok('nothing cut', '%s: the buffer is as long as the text measured before' % f.short)
                continue
            # uses of the text after it was formatted
            use = None
            known = False
            for e2 in p.ev[i + 1:]:
                if e2.kind == 'assume' and strict(e2.val, size, r):
                    known = True
                elif e2.kind == 'call' and any(root(a) == buf for a in e2.args if a is not None) and not re.match(r'^(delete|operator delete|free|llvm\.)', e2.name):
                    use = e2
                    break
            if use is None and p.kind == 'back':
                use = e
            if use is None:
                o.ok('nothing cut', '%s: the text is not used on this path' % f.short)
                continue
            o.decide(known, 'nothing cut', key, e.loc, 'the text formatted here is used although it may not have fitted its buffer', lambda: trace(p), '%s: "%s" is used only after its length was checked' % (f.short, fmt[1] if fmt[0] == 'str' else 'the format given'))


def arglists(o, f, p):
    """an argument list is walked once for every time it is started"""
    st = {}
    for e in p.ev:
        if e.kind != 'call' or not e.args:
            continue
        if e.name.startswith(('llvm.va_start', 'llvm.va_copy')):
            st[root(e.args[0])] = None
        elif short(e.name) in ('vsnprintf', 'vfprintf', 'vprintf', 'vsprintf'):
            a = root(e.args[-1])
            if a in st:
                o.decide(st[a] is None, 'argument lists', generic(f.dem), e.loc, 'the arguments are walked a second time without starting over', lambda: trace(p), '%s: arguments are walked once per start' % f.short)
                st[a] = e


def fits(p, k, e):
    """the buffer was sized by measuring the same text (same format, same arguments) before"""
    first = {}
    rep = {}
    for e2 in p.ev[:k + 1]:
        if e2.kind == 'call' and short(e2.name) in ('snprintf', 'vsnprintf') and len(e2.args) >= 3 and e2.res is not None:
            key = (short(e2.name),) + tuple(e2.args[2:])
            if key in first:
                rep[e2.res] = first[key]
            else:
                first[key] = e2.res
    if not rep:
        return False

    def subst(v):
        t = T[v]
        if t[0] == 'sum':
            return fsum([(rep.get(x, x), n) for x, n in t[1]], t[2])
        return rep.get(v, v)
    d = T[sub(subst(e.args[1]), subst(e.res))]
    # other measured lengths only make the buffer longer
    return (d[0] == 'c' and d[1] >= 1) or (d[0] == 'sum' and d[2] >= 1 and all(n > 0 and x in first.values() for x, n in d[1]))


def strict(v, size, r):
    """the condition says the result is smaller than the size"""
    t = T[v]
    if t[0] != 'cmp':
        return False
    R, a, b = t[1], t[2], t[3]
    D = sub(size, r)
    for rels, d in ((R, sub(b, a)), (''.join({'<': '>', '>': '<', '=': '='}[x] for x in R), sub(a, b))):
        k = T[sub(D, d)]
        if k[0] == 'c' and ((set(rels) <= set('<') and k[1] >= 0) or (set(rels) <= set('<=') and k[1] >= 1)):
            return True
    return False


# ---- the shape of every line --------------------------------------------------

SHAPE = {
    'dfpair': (r'#pair\s+"%s"\s+"', None, r'%s"\n'),
    'dfrowhdr': (r'#altcols\s+"%s"', r'\s+"%s %s"', r'%s\n'),
    'dfrow': (r'#altrow\s+"%s"', None, r'%s\n'),
}
COLS = {'g': r'\s+%l?g', 'f': r'\s+%l?f', 'd': r'\s+%ld', 'u': r'\s+%lu'}


def r_lines(c):
    src = [s for s, fns in calls() if any(base(f['name']) == 'dfrow' for f in fns)]
    if len(src) != 1:
        return
    bc = dict(unit_bcs())[src[0]]
    for f in vf.graphs(bc, [r'^(dfrow|dfrowhdr|dfpair)\(']):
        o = Out()
        lines_one(o, f, base(f.dem))
        c.absorb(o.done())
    for f in vf.graphs(bc, [r'^(dfheader|dffooter)\('], '^dfpair'):
        o = Out()
        b = base(f.dem)
        for p in explore(f, eff=Effects(), maxpaths=20000).paths:
            if p.kind != 'ret':
                continue
            out = [e for e in p.ev if e.kind == 'call' and base(e.name) in ('dfpair', 'fputs', 'fprintf', 'fwrite', 'fputc')]
            if not out:
                o.fail('line shape', b, '%s:%d' % (f.file, f.line), 'nothing is written')
                continue
            e = out[0 if b == 'dfheader' else -1]
            o.decide(base(e.name) != 'dfpair', 'line shape', b, e.loc, 'a pair is written %s' % ('before the line that opens the file' if b == 'dfheader' else 'after the line that closes the file'), lambda: trace(p), '%s: the marking line comes %s' % (b, 'first' if b == 'dfheader' else 'last'))
        c.absorb(o.done())


def lines_one(o, f, b):
    first, loop, last = SHAPE[b]
    ex = explore(f, eff=Effects(), maxpaths=20000)
    loc = '%s:%d' % (f.file, f.line)
    handled = set()
    decided = False
    for p in ex.paths:
        if p.kind == 'abort':
            continue
        fm = [e for e in p.ev if e.kind == 'call' and short(e.name) == 'snprintf' and len(e.args) > 2 and T[e.args[2]][0] == 'str']
        tr = lambda: trace(p)
        if not fm or not T[fm[0].args[2]][1].startswith('#'):
            continue
        decided = True
        o.decide(re.fullmatch(first, T[fm[0].args[2]][1]) is not None and len(fm[0].args) == 4 and fm[0].args[3] == mk('arg', 1, f.args[1][0]), 'line shape', b + ':start', fm[0].loc, 'the line starts as %r' % T[fm[0].args[2]][1], tr, '%s starts as %s' % (b, T[fm[0].args[2]][1]))
        if p.kind == 'ret':
            text = written(p)
            if text is None:
                continue
            o.decide(re.fullmatch(last, text) is not None, 'line shape', b + ':end', loc, 'the line is not written out whole, ended by one newline', tr, '%s is written out as one line' % b)
            continue
        if p.kind != 'back':
            continue
        k0 = max((i for i, e in enumerate(p.ev) if e.kind == 'loop'), default=-1)
        it = [e for e in p.ev[k0 + 1:] if e.kind == 'call' and short(e.name) == 'snprintf']
        back = (p.st.user or {}).get('back') or {}
        for e in it:
            off = T[e.args[0]]
            idx = off[2][-1] if off[0] == 'g' and off[2] else None
            iv = idx[1] if idx and idx[0] == 'i' else None
            bv = back.get(T[iv][1]) if iv is not None and T[iv][0] == 'phi' else None
            if bv is not None:
                o.decide(bv == fsum([(iv, 1), (e.res, 1)]), 'line shape', b + ':advance', e.loc, 'the next column is placed at %s' % show(bv), tr, '%s: each column follows the one before' % b)
        if loop:
            o.decide(len(it) == 1 and T[it[0].args[2]][0] == 'str' and re.fullmatch(loop, T[it[0].args[2]][1]) is not None, 'line shape', b + ':column', it[0].loc if it else loc, 'a column is written as %s' % [show(e.args[2]) for e in it], tr, '%s: every column is quoted' % b)
        elif b == 'dfrow':
            ch = [t for e in p.ev[k0 + 1:] if e.kind == 'assume' for t in [eqchar(e.val)] if t]
            if ch and chr(ch[0]) in COLS:
                handled.add(chr(ch[0]))
                w = COLS[chr(ch[0])]
                okc = len(it) == 1 and T[it[0].args[2]][0] == 'str' and re.fullmatch(w, T[it[0].args[2]][1]) is not None
                if okc:
                    reg = show(it[0].args[3])
                    okc = not ('gp_offset' in reg and chr(ch[0]) in 'gf') and not ('fp_offset' in reg and chr(ch[0]) in 'du')
                o.decide(okc, 'line shape', b + ':column ' + chr(ch[0]), it[0].loc if it else loc, "column type '%s' is written as %s" % (chr(ch[0]), [show(e.args[2]) for e in it]), tr, "a '%s' column is written as %s" % (chr(ch[0]), show(it[0].args[2]) if it else ''))
    if b == 'dfrow' and decided and handled:
        for x in sorted(set(COLS) - handled):
            o.fail('line shape', 'dfrow:no ' + x, loc, "a column of type '%s' is not written" % x)


def written(p):
    """everything written to the file on a path, the formatted buffer standing as %s; None if unclear"""
    bufs = {root(e.args[0]) for e in p.ev if e.kind == 'call' and short(e.name) in ('snprintf', 'vsnprintf')}
    out = ''
    for e in p.ev:
        if e.kind != 'call':
            continue
        b, a = short(e.name), e.args
        if b in ('fputs', 'fputc', 'putc'):
            t = T[a[0]]
            if t[0] == 'str' and b == 'fputs':
                out += t[1]
            elif b == 'fputs' and root(a[0]) in bufs:
                out += '%s'
            elif t[0] == 'c' and b != 'fputs':
                out += chr(t[1])
            else:
                return None
        elif b == 'fprintf':
            t = T[a[1]]
            if t[0] != 'str' or t[1].count('%') != len(a) - 2 or t[1].count('%s') != len(a) - 2 or any(root(x) not in bufs for x in a[2:]):
                return None
            out += t[1]
        elif b in ('fwrite', 'vfprintf', 'puts', 'write', 'fflush_unlocked'):
            return None
    return out


def eqchar(v):
    t = T[v]
    if t[0] == 'cmp' and t[1] == '=':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if T[a][0] == 'c' and T[b][0] != 'c':
                return T[a][1]
    return None


# ---- one header, then everything else, then one footer -----------------------

EMIT = ('dfpair', 'dfrow', 'dfrowhdr', 'dfprocstatus')


def r_frame(c):
    m = callmap()
    names = set(m) | {x for v in m.values() for x in v}
    isctor = lambda n: re.search(r'(?:^|::)(\w+)(?:<.*>)?::\1\(', n) is not None
    direct = {n for n in names if base(n) in EMIT}
    emits = reach(m, direct) | direct
    frames = {n for n in names if base(n) in ('dfheader', 'dffooter')}
    framed = reach(m, frames) | frames
    plain = reach(m, direct, cut=lambda n: isctor(n) or base(n) in ('dfheader', 'dffooter')) | direct
    srcs = dict(unit_bcs())
    jobs = []
    for src, fns in calls():
        for f in fns:
            if base(f['name']) == 'main' and (f['name'] in plain or any(k['to'] in plain or k['to'] in frames for k in f['calls'])):
                outs = [k for k in f['calls'] if k['to'] in plain and base(k['to']) != 'dfprocstatus']
                if outs or any(k['to'] in framed for k in f['calls']):
                    jobs.append((src, f['name']))
    c.count('programs that print data files', len(jobs))

    def work(j):
        src, n = j
        o = Out()
        fns = [f for s, fs in calls() if s == src for f in fs]
        byname = {f['name']: f for f in fns}
        # keep every call that is not on the way to a header or footer
        marks, todo, seen = set(), [n], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for k in byname[x]['calls'] if x in byname else ():
                if k['to'] in framed and k['to'] not in frames and k['to'] in byname:
                    todo.append(k['to'])
                elif k['to'] != '?':
                    marks.add('^' + re.escape(k['to']) + '$')
        for f in vf.graphs(srcs[src], ['^' + re.escape(n) + '$'], '\n'.join(sorted(marks))):
            frame_one(o, f, emits, os.path.relpath(src, vf.REPO))
        return o.done()
    for r in vf.pmap(work, jobs):
        c.absorb(r)


def frame_one(o, f, emits, src):
    ex = explore(f, eff=Effects(), maxpaths=20000)

    def file(e, i):
        return 'stdout' if 'stdout' in show(e.args[i]) else e.args[i]

    def kind(e):
        b = base(e.name)
        text = [T[a][1] for a in e.args or () if a is not None and T[a][0] == 'str']
        if b in ('dfheader', 'dffooter'):
            return b[2:], file(e, 0)
        if b in ('fprintf', 'fputs'):
            for k, w in (('header', HDR), ('footer', FTR)):
                if any(x.startswith(w) for x in text):
                    return k, file(e, 0 if b == 'fprintf' else 1)
        if b in EMIT and e.args:
            return 'emit', file(e, 0)
        if e.name in emits:
            return 'emit', 'stdout'
        return None, None
    paths = [p for p in ex.paths if p.kind != 'abort']
    begun = {'stdout'} | {kind(e)[1] for p in paths for e in p.ev if e.kind == 'call' and kind(e)[0] == 'header'}
    loc = '%s:%d' % (f.file, f.line)
    for p in paths:
        st, bad = {}, None
        for e in p.ev:
            if e.kind != 'call':
                continue
            k, fl = kind(e)
            s = st.get(fl, 'before')
            if base(e.name) == 'fclose' and st.get(e.args[0]) == 'in':
                bad = bad or (e.loc, 'the file is closed without its footer')
            if k == 'header':
                if s == 'in':
                    bad = bad or (e.loc, 'a second header is written inside the file')
                st[fl] = 'in'
            elif k == 'footer':
                if s != 'in':
                    bad = bad or (e.loc, 'a footer is written without a header before it')
                st[fl] = 'after'
            elif k == 'emit' and fl in begun and s != 'in':
                bad = bad or (e.loc, '%s writes %s' % (generic(e.name), 'before the header' if s == 'before' else 'after the footer'))
        if p.kind == 'ret' and 'in' in st.values():
            bad = bad or (loc, 'the program ends without writing the footer')
        o.decide(bad is None, 'frame', '%s:%s' % (src, bad[1] if bad else ''), bad[0] if bad else loc, '%s: %s' % (src, bad[1] if bad else ''), lambda: trace(p), '%s: header, then the results, then the footer' % src)


# ---- pairs once, rows below their header -------------------------------------

def shallow(src, f):
    """the flow graph of one function with every call kept as a call"""
    marks = sorted({'^' + re.escape(k['to']) + '$' for k in f['calls'] if k['to'] != '?'})
    g = vf.graphs(dict(unit_bcs())[src], ['^' + re.escape(f['name']) + '$'], '\n'.join(marks))
    return g[0] if g else None


def r_keys_rows(c):
    m = {}
    rep = {}
    defs_ = {}
    for src, fns in calls():
        for f in fns:
            g = gname(f['name'])
            defs_.setdefault(f['name'], []).append((src, f))
            m.setdefault(f['name'], set()).update(k['to'] for k in f['calls'])
    direct = {x for v in m.values() for x in v if base(x) in EMIT}
    em = reach(m, direct)
    for n in em:
        for src, f in defs_[n]:
            if base(n) == 'main':
                rep.setdefault(os.path.relpath(src, vf.REPO) + ':main', (src, f))
            elif len(defs_[n]) >= 1:
                rep.setdefault(gname(n), (src, f))
    names = sorted(rep)

    def work(g):
        """the sequences of (what is written or called) on the paths of g"""
        src, f = rep[g]
        fn = shallow(src, f)
        if fn is None:
            return None
        try:
            ex = explore(fn, eff=Effects(), maxpaths=20000)
        except AnalysisError:
            return None
        out = set()
        for p in ex.paths:
            if p.kind == 'abort':
                continue
            seq, inloop = [], False
            for e in p.ev:
                if e.kind == 'loop':
                    seq.append(('loop',))
                elif e.kind == 'call':
                    b = base(e.name)
                    if b in ('dfpair', 'dfrow', 'dfrowhdr') and len(e.args) > 1:
                        t = T[e.args[1]]
                        fl = 'stdout' if 'stdout' in show(e.args[0]) else 'out' if T[e.args[0]][0] == 'arg' else show(e.args[0])
                        seq.append((b, t[1] if t[0] == 'str' else None, e.loc, fl))
                    elif e.name in em:
                        seq.append(('call', gname(e.name), e.loc))
            out.add((p.kind, tuple(seq)))
        return sorted(out, key=str), '%s:%d' % (fn.file, fn.line)
    res = dict(zip(names, vf.pmap(work, names)))
    res = {g: r for g, r in res.items() if r is not None}
    c.count('functions that write pairs or rows', len(res))
    # keys each function may write
    K = {g: set() for g in res}
    ch = True
    while ch:
        ch = False
        for g, (paths, loc) in res.items():
            for kind, seq in paths:
                for x in seq:
                    new = {x[1]} if x[0] == 'dfpair' and x[1] and x[3] in ('stdout', 'out') else K.get(x[1], set()) if x[0] == 'call' else set()
                    if not new <= K[g]:
                        K[g] |= new
                        ch = True
    # a call that writes a row of its own reports one of several searches
    writes_rows = {g for g, (paths, _) in res.items() if any(x[0] == 'dfrow' for _, s in paths for x in s)}
    for g, (paths, loc) in sorted(res.items()):
        bad = None
        for kind, seq in paths:
            seen = {}
            for i, x in enumerate(seq):
                if x[0] == 'dfpair':
                    ks, l = {x[1]} if x[1] and x[3] in ('stdout', 'out') else set(), x[2]
                elif x[0] == 'call':
                    ks, l = K.get(x[1], set()), x[2]
                else:
                    continue
                for k in ks:
                    if k in seen:
                        bad = bad or (k, l, 'written again after %s' % rel(seen[k]))
                    elif kind == 'back' and ('loop',) in seq[:i] and looped(seq, i) and not (x[0] == 'call' and x[1] in writes_rows):
                        bad = bad or (k, l, 'written once in every round of a loop')
                    seen[k] = l
        c.decide(bad is None, 'pairs once', '%s:%s' % (g, bad[0] if bad else ''), bad[1] if bad else loc, '"%s" is %s' % (bad[0], bad[2]) if bad else '', sample='%s writes each of its keys once' % g)
    # what the parts of one run write must not overlap
    runs = {g for g, (paths, _) in res.items() if any(x[0] == 'dfpair' and x[1] == 'final sol cost' for _, s in paths for x in s)}
    mains = {g: K[g] for g in K if g.endswith(':main') and any(K[x] <= K[g] for x in runs)}
    common = set().union(*[k for g, k in mains.items()]) if mains else set()
    algs = {}
    for g in K:
        a = g.rsplit('::', 1)
        if len(a) == 2 and a[1] in ('search', 'output'):
            algs.setdefault(a[0], {})[a[1]] = g
    for a, d in sorted(algs.items()):
        if len(d) == 2:
            x = K[d['search']] & K[d['output']]
            c.decide(not x, 'pairs once', '%s:search and output' % a, res[d['output']][1], '%s is written while searching and again in the output' % sorted(x), sample='%s: the search and its output write different keys' % a)
        for w, g in d.items():
            if a in ('Result', 'SearchStats', 'Limit', 'SearchAlgorithm'):
                continue
            y = K[g] & common
            c.decide(not y, 'pairs once', '%s:%s and the program' % (a, w), res[g][1], '%s is written by the search and by the program around it' % sorted(y), sample='%s and the programs write different keys' % g)
    # rows
    req = {g: {} for g in res}
    must = {g: None for g in res}
    for _ in range(50):
        ch = False
        for g, (paths, loc) in res.items():
            r, mu = {}, None
            # headers written in some round of a loop before the rows of that loop
            early = set()
            for kind, seq in paths:
                hs = set()
                for x in seq:
                    if x == ('loop',):
                        hs = set()
                    elif x[0] == 'dfrowhdr' and ('loop',) in seq[:seq.index(x)]:
                        hs.add(x[1])
                    elif x[0] == 'dfrow' and x[1] in hs:
                        early.add((x[1], x[2]))
            for kind, seq in paths:
                st = set()
                for x in seq:
                    if x[0] == 'dfrow' and (x[1], x[2]) in early:
                        continue
                    if x[0] == 'dfrowhdr' and x[1]:
                        st.add(x[1])
                    elif x[0] == 'dfrow' and x[1]:
                        if x[1] not in st:
                            r.setdefault(x[1], x[2])
                    elif x[0] == 'call':
                        for nm, l in req.get(x[1], {}).items():
                            if nm not in st:
                                r.setdefault(nm, l)
                        st |= must.get(x[1]) or set()
                if kind == 'ret':
                    mu = st if mu is None else mu & st
            mu = mu or set()
            if set(r) != set(req[g]) or mu != must[g]:
                req[g], must[g] = r, mu
                ch = True
        if not ch:
            break
    called = {x[1] for paths, _ in res.values() for _, seq in paths for x in seq if x[0] == 'call'}
    for g in sorted(res):
        if g in called and base(g) not in ('search', 'main') and not g.endswith(':main'):
            continue
        if not any(x[0] in ('dfrow', 'call') for _, seq in res[g][0] for x in seq):
            continue
        L = req[g]
        c.decide(not L, 'rows below their header', '%s:%s' % (g, sorted(L)), next(iter(L.values()), res[g][1]), 'rows %s can be written before their header' % sorted(L), sample='%s: headers come before rows' % g)


def looped(seq, i):
    """element i of a path that goes round: it lies after the header of the loop the path closes"""
    last = max(k for k, x in enumerate(seq) if x == ('loop',))
    return i > last


def gname(n):
    return generic(n)


def P12(pid, tier):
    c = Check(pid, tier, 'Every translation unit is type checked with the printing functions declared as taking formats; the types of the arguments of every row '
              'are read from the compiler IR; on every path of every program the header comes first and the footer last; every text formatted into a buffer is used only '
              'after its measured length was compared with the room, or in room sized by that length; keys written along any path of a run are distinct; rows follow their header.',
              ['the compiler knows printf and scanf conversions', 'results are printed to standard output'])
    r_formats(c)
    r_rows(c)
    r_cut(c)
    r_lines(c)
    r_frame(c)
    r_keys_rows(c)
    for r, n in (('formats', 500), ('frame', 8), ('nothing cut', 10), ('rows', 8), ('pairs once', 20)):
        c.atleast(r, n)
    return c.finish()

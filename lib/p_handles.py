"""P16: files are opened, written, closed and replaced safely.

A typestate of file and directory handles over the flow graphs (helpers of the
repository inlined) of every function that opens one: what is known of the
handle on each path (not looked at, open, null, closed), what was learned about
the success of writing to it, and what directory entries have been told apart
from the directory itself and its parent."""
import os, re
import vf, units, srch
from vf import rel
from flow import *
from p_reads import G, MARKS, NORETURN, neverback, generic

OPEN = re.compile(r'^(fopen|fopen64|fdopen|freopen|popen|tmpfile|tmpfile64|opendir)$')
CLOSE = re.compile(r'^(fclose|pclose|closedir)$')
READ = re.compile(r'^(?:__isoc\d+_)?(fscanf|vfscanf|fgetc|getc|fgets|fread|getline|getdelim|ungetc|_IO_getc)$|^(dfread|readline)\(')
WRITE = re.compile(r'^(fprintf|vfprintf|fputs|fputc|putc|fwrite|_IO_putc|fputs_unlocked)$|^(dfpair|dfrow|dfrowhdr|dfheader|dffooter|dfwrite)\w*\(')
STDW = re.compile(r'^(printf|puts|putchar)$')
SITE = re.compile(r'\b(fopen|fopen64|fdopen|popen|tmpfile|tmpfile64|opendir|rename)$')
FILEARG = {'fwrite': 3, 'fread': 3, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fgets': 2, 'ungetc': 1, '_IO_putc': 1, 'getline': 2, 'getdelim': 3}
PUSH = re.compile(r'::(push_back|emplace_back|insert|emplace|push|push_front)\(')
STD = re.compile(r'^@[eg]:(@g:)?(stdin|stdout|stderr)$')


def srch_ops(i):
    """the values an instruction uses"""
    out = []
    for k in ('a', 'b', 'ptr', 'val', 'base', 'cond'):
        if isinstance(i.get(k), str):
            out.append(i[k])
    for k in ('args', 'ops'):
        out += [x for x in i.get(k, ()) if isinstance(x, str)]
    for p in i.get('path', ()):
        out += [x for x in p[1:] if isinstance(x, str)]
    return [x for x in out if x.startswith('%')]


class Handles:
    def __init__(self, g, o, what, ends):
        self.g, self.o, self.what, self.ends = g, o, what, ends
        self.sites, self.dents = {}, {}
        for k in g.live:
            for j, i in enumerate(g.blocks[k]):
                if i['op'] == 'call' and 'id' in i and OPEN.match(i['callee']):
                    a = i['args']
                    m = a[1][2:] if len(a) > 1 and a[1].startswith('s:') else 'd' if i['callee'] == 'opendir' else ''
                    self.sites[(k, j)] = m
                elif i['op'] == 'call' and 'id' in i and i['callee'] in ('readdir', 'readdir64'):
                    self.dents[(k, j)] = i
        self.bad = {}
        self.wrote = {}
        self.odd = False

    # what a value is: ('h', site), ('k', n), ('t', site, flag, value when the flag holds), ('alias', v), ('d', site)
    def name(self, v, N):
        seen = 0
        while isinstance(v, str) and seen < 20:
            seen += 1
            if v in N:
                n = N[v]
                if n[0] == 'alias':
                    v = n[1]
                    continue
                return n
            i = self.g.defs.get(v)
            if i is None:
                return None
            if i['op'] == 'cast':
                v = i['a']
                continue
            if i['op'] == 'load':
                w = self.g.where(i)
                return N.get(w)
            if i['op'] == 'gep':
                n = self.name(i['base'], N)
                return n if n and n[0] == 'd' else None
            if i['op'] == 'alloca':
                n = N.get(self.g.place(v))
                return n if n and n[0] == 'd' else None
            return None
        return None

    def isstd(self, v):
        v = self.g.under(v)
        if STD.match(v):
            return True
        i = self.g.defs.get(v)
        return i is not None and i['op'] == 'load' and isinstance(i['ptr'], str) and STD.match(i['ptr']) is not None

    def say(self, s, rule, why, i):
        self.bad.setdefault((s, rule), (why, i.get('loc')))

    def run(self):
        g = self.g
        if not self.sites and not self.dents:
            return
        IN = {0: {(frozenset(), frozenset(), frozenset())}}
        work, count = [0], 0
        while work:
            k = work.pop(0)
            todo = IN[k] - self.done(k)
            for st in todo:
                self._done[k].add(st)
                count += 1
                S, N, C = dict(st[0]), dict(st[1]), dict(st[2])
                alive = True
                for j, i in enumerate(g.blocks[k]):
                    if i['op'] == 'phi':
                        continue
                    self.step(k, j, i, S, N)
                t = g.blocks[k][-1] if g.blocks[k] else {'op': ''}
                if t['op'] == 'ret':
                    self.leave(t, S, N)
                    continue
                for x, s in enumerate(g.succ[k]):
                    S2, C2 = dict(S), dict(C)
                    if t['op'] == 'br' and 'cond' in t and len(g.succ[k]) == 2:
                        if not self.assume(t['cond'], x == 0, S2, N, C2):
                            continue
                    N2 = dict(N)
                    for i in g.blocks[s]:
                        if i['op'] != 'phi':
                            break
                        for b, v in i['in_']:
                            if b == k:
                                N2.pop(i['id'], None)
                                n = self.name(v, N)
                                if n:
                                    N2[i['id']] = n
                                elif re.match(r'i:-?[01]$|null$', v):
                                    N2[i['id']] = ('k', 0 if v in ('null', 'i:0') else 1)
                                elif v in g.defs and g.defs[v]['op'] in ('icmp', 'bin', 'cast') and v != i['id']:
                                    N2[i['id']] = ('alias', v)
                    if s in self.heads():
                        C2 = {}
                    more, grew = set(), True
                    while grew:
                        grew = False
                        for a, n in N2.items():
                            if n[0] == 'alias' and n[1] not in more and (a in more or self.wanted(a, s)):
                                more |= {n[1]} | self.chain(n[1])
                                grew = True
                    N2 = {a: n for a, n in N2.items() if (n[0] not in ('h', 't', 'd') or n[1] in S2) and (a in more or self.wanted(a, s))}
                    out = (frozenset(S2.items()), frozenset(N2.items()), frozenset(C2.items()))
                    L = IN.setdefault(s, set())
                    if out not in L:
                        L.add(out)
                        if s not in work:
                            work.append(s)
            if count > 40000:
                self.o.r.append(('tag', ('undecided', 'too many ways through ' + self.what, None)))
                return
        self.report()

    def wanted(self, a, s):
        """whether a value is looked at again from block s on"""
        if not isinstance(a, str):
            return True
        if not hasattr(self, '_live'):
            g = self.g
            use, de = {}, {}
            for k in g.live:
                u, d = set(), set()
                for i in g.blocks[k]:
                    if i['op'] != 'phi':
                        for x in srch_ops(i):
                            v = g.under(x)
                            for y in (x, v):
                                if y not in d:
                                    u.add(y)
                    if 'id' in i:
                        d.add(i['id'])
                use[k], de[k] = u, d
            live = {k: set(use[k]) for k in g.live}
            ch = True
            while ch:
                ch = False
                for k in sorted(g.live, reverse=True):
                    n = set(live[k])
                    for t in g.succ[k]:
                        n |= live[t] - de[k]
                        for i in g.blocks[t]:
                            if i['op'] != 'phi':
                                break
                            n |= {g.under(v) for b, v in i['in_'] if b == k} | {v for b, v in i['in_'] if b == k}
                    n |= use[k]
                    if n != live[k]:
                        live[k] = n
                        ch = True
            for k in g.live:
                for i in g.blocks[k]:
                    if i['op'] == 'phi' and 'id' in i:
                        live[k].add(i['id'])
            # through values computed from others
            self._live = live
        L = self._live[s]
        if a in L:
            return True
        return any(a in self.chain(x) for x in L)

    def chain(self, x):
        """what a value is computed from without memory in between"""
        if not hasattr(self, '_chain'):
            self._chain = {}
        if x not in self._chain:
            self._chain[x] = set()
            i = self.g.defs.get(x)
            if i is not None and i['op'] in ('icmp', 'bin', 'cast', 'gep', 'select'):
                for y in srch_ops(i):
                    self._chain[x] |= {y} | self.chain(y)
        return self._chain[x]

    def done(self, k):
        if not hasattr(self, '_done'):
            self._done = {}
        return self._done.setdefault(k, set())

    def heads(self):
        """blocks an edge goes back to"""
        if not hasattr(self, '_heads'):
            order, seen = [], set()
            st = [(0, iter(self.g.succ[0]))]
            seen.add(0)
            on = {0}
            self._heads = set()
            while st:
                k, it = st[-1]
                for s in it:
                    if s in on:
                        self._heads.add(s)
                    elif s not in seen:
                        seen.add(s)
                        on.add(s)
                        st.append((s, iter(self.g.succ[s])))
                        break
                else:
                    st.pop()
                    on.discard(k)
        return self._heads

    # a handle: (known, flags)
    def step(self, k, j, i, S, N):
        g, op = self.g, i['op']
        if (k, j) in self.sites:
            s = (k, j)
            if s in S and S[s][0] == 'open' and 'away' not in S[s][1]:
                self.say(s, 'close', 'is opened again while the one before was not closed', i)
            for a in [a for a, n in N.items() if n[0] in ('h', 't') and n[1] == s]:
                del N[a]
            S[s] = ('?', frozenset())
            N[i['id']] = ('h', s)
            if i['callee'] != 'opendir':
                return
            return
        if (k, j) in self.dents:
            h = self.name(i['args'][0], N)
            if h and h[0] == 'h':
                self.use(h[1], i, S, 'read')
            s = (k, j)
            # the entry before is gone
            for a in [a for a, n in N.items() if n[0] in ('t', 'd') and n[1] in self.dents]:
                del N[a]
            for q in [q for q in S if q in self.dents]:
                del S[q]
            S[s] = ('dent', frozenset())
            N[i['id']] = ('d', s)
            return
        if op == 'store':
            w, n = g.where(i), self.name(i['val'], N)
            N.pop(w, None)
            if n:
                r = w[0]
                if n[0] == 'h' and not (isinstance(r, str) and r.startswith('%') and g.local(r) if hasattr(g, 'local') else self.local(r)):
                    self.flag(n[1], 'away', S)
                N[w] = n
            return
        if op != 'call':
            return
        c, a = i['callee'], i['args']
        if c.startswith('llvm.'):
            return
        hs = [(x, self.name(v, N)) for x, v in enumerate(a)]
        if c in ('strcmp', 'strncmp') or re.search(r'basic_string<.*::compare\(|std::operator[=!]=<char|::operator[=!]=\(', c):
            d = next((n for x, n in hs if n and n[0] == 'd'), None)
            lit = next((v[2:] for v in a if isinstance(v, str) and v.startswith('s:')), None)
            if d and lit in ('.', '..') and 'id' in i:
                eq = 'operator==' in c
                N[i['id']] = ('t', d[1], lit, 'zero' if eq else 'nonzero')
                return
        if re.search(r'basic_string<[^()]*::(basic_string|assign|operator=)(<.*>)?\(', c) and len(a) > 1:
            d = next((n for x, n in hs[1:] if n and n[0] == 'd'), None)
            if d:
                N[g.place(a[0])] = d
        if c.startswith('std::') and 'ptr' in c:
            for x, n in hs:
                if n and n[0] == 'h':
                    self.flag(n[1], 'away', S)
        if PUSH.search(c) and self.dents and c.startswith('std::vector'):
            for s in self.dents:
                if s in S and S[s][0] == 'dent' and self.recent(i, s):
                    miss = [x for x in ('.', '..') if x not in S[s][1]]
                    if miss and not self.oddtests(s):
                        self.say(s, 'entries', 'an entry is kept that may be the directory itself or its parent (%s)' % ' and '.join('"%s"' % x for x in miss), i)
                    else:
                        self.o.r.append(('ok', 'entries', 1, '%s: entries kept are not "." or ".."' % self.what))
        if (CLOSE.match(c) and a[:1] == ['null']) or FILEARG.get(c, 99) < len(a) and a[FILEARG[c]] == 'null':
            self.say(next(iter(sorted(self.sites)), next(iter(sorted(self.dents)), None)), 'use', 'is not what %s is given: it gets no file at all' % c, i)
            return
        if CLOSE.match(c):
            n = hs[0][1]
            if n and n[0] == 'h':
                s = n[1]
                kn, fl = S.get(s, ('?', frozenset()))
                if kn == 'closed':
                    self.say(s, 'use', 'is closed twice', i)
                elif kn != 'open':
                    self.say(s, 'use', 'is closed although it may not have been opened', i)
                S[s] = ('closed', fl)
                if 'id' in i:
                    N[i['id']] = ('t', s, 'closeok', 'zero')
            return
        if c == 'ferror':
            n = hs[0][1]
            if n and n[0] == 'h':
                self.use(n[1], i, S, '')
                if 'id' in i:
                    N[i['id']] = ('t', n[1], 'noerror', 'zero')
            return
        if c in ('rename', 'renameat'):
            for s, m in self.sites.items():
                if m[:1] in ('w', 'a') and s in S and S[s][0] != 'null':
                    miss = [y for x, y in (('closeok', 'closing it'), ('noerror', 'every write to it')) if x not in S[s][1]]
                    if miss:
                        self.say(s, 'replace', 'may take the place of another file although it is not known that %s succeeded' % ' and '.join(miss), i)
                    else:
                        self.o.r.append(('ok', 'replace', 1, '%s: the file was written whole' % self.what))
            return
        kind = 'read' if READ.match(c) else 'write' if WRITE.match(c) else ''
        for x, n in hs:
            if n and n[0] == 'h':
                ks = SUM.get((c, x), ())
                self.use(n[1], i, S, kind or ('read' if 'read' in ks and 'write' not in ks else 'write' if 'write' in ks and 'read' not in ks else ''))
        if kind == 'write' and a and self.isstd(a[0]) and 'stdout' in self.stdname(a[0]) and re.match(r'df', c):
            # part of a data file whose other parts go to a file of their own
            for s in S:
                if s in self.sites and self.sites[s][:1] in ('w', 'a') and S[s][0] == 'open' and c.split('(')[0] in {f[3:] for f in S[s][1] if f[:3] == 'by:'}:
                    self.say(s, 'output', 'does not get all that belongs to it: %s writes to standard output' % c.split('(')[0], i)
        if kind == 'write' or STDW.match(c) or not c.startswith(('std::', '__')):
            if STDW.match(c) or any(self.isstd(v) and not v.endswith('stderr') and 'stdout' in self.stdname(v) for v in a):
                for s in S:
                    if s in self.sites and self.sites[s][:1] in ('w', 'a') and S[s][0] == 'open':
                        self.flag(s, 'beside', S)
                        self.wrote.setdefault(s, i.get('loc'))

    def stdname(self, v):
        v = self.g.under(v)
        i = self.g.defs.get(v)
        return v if i is None else str(i.get('ptr'))

    def recent(self, i, s):
        """what is pushed comes from the entry, as far as one can tell"""
        return True

    def oddtests(self, s):
        """the name of the entry is looked at in some other way"""
        g = self.g
        for i in g.fn.instrs():
            if i['op'] == 'load' and i.get('ty') == 'i8':
                p = str(g.where(i))
                if 'd_name' in p:
                    return True
        return False

    def local(self, r):
        i = self.g.defs.get(r) if isinstance(r, str) else None
        return i is not None and i['op'] == 'alloca'

    def flag(self, s, f, S):
        if s in S:
            S[s] = (S[s][0], S[s][1] | {f})

    def use(self, s, i, S, kind):
        kn = S.get(s, ('?',))[0]
        if 'away' in S.get(s, ('?', ()))[1] and i['op'] == 'call' and i['callee'].startswith('std::'):
            return
        if kn == 'closed':
            self.say(s, 'use', 'is used after it was closed', i)
        elif kn == 'null':
            self.say(s, 'use', 'is used although opening it failed', i)
        elif kn == '?':
            self.say(s, 'use', 'is used before it is known to be open', i)
        m = self.sites.get(s, '')
        if '+' not in m:
            if kind == 'read' and m[:1] in ('w', 'a'):
                self.say(s, 'mode', 'was opened for writing and is read', i)
            if kind == 'write' and m[:1] == 'r':
                self.say(s, 'mode', 'was opened for reading and is written', i)
        if kind == 'write' and i['callee'].startswith('df'):
            self.flag(s, 'by:' + i['callee'].split('(')[0], S)
        if kind != 'read' and i['callee'] != 'ferror':
            self.flag(s, 'written', S)

    def leave(self, t, S, N):
        n = self.name(t['val'], N) if isinstance(t.get('val'), str) else None
        for s in S:
            if s not in self.sites:
                continue
            kn, fl = S[s]
            if 'beside' in fl and 'written' not in fl:
                self.say(s, 'output', 'gets nothing: what is written while it is open goes to standard output', {'loc': self.wrote.get(s)})
            if kn == 'open' and not self.ends and 'away' not in fl and not (n and n == ('h', s)) and not str(t.get('val', '')).startswith('%agg'):
                self.say(s, 'close', 'is still open when the function ends', t)

    def assume(self, v, pol, S, N, C, depth=0):
        g = self.g
        if depth > 10:
            return True
        n = N.get(v)
        if n and n[0] == 'alias':
            return self.assume(n[1], pol, S, N, C, depth + 1)
        if n and n[0] == 'k':
            return bool(n[1]) == pol
        if n and n[0] in ('h', 't'):
            return self.learn(n, 'ne' if pol else 'eq', S)
        i = g.defs.get(v)
        if i is None:
            return self.corr(v, pol, C)
        if i['op'] == 'cast':
            return self.assume(i['a'], pol, S, N, C, depth + 1)
        if i['op'] == 'bin' and i['kind'] == 'xor' and i['ops'][1] in ('i:1', 'i:-1'):
            return self.assume(i['ops'][0], not pol, S, N, C, depth + 1)
        if i['op'] == 'bin' and i['kind'] == ('and' if pol else 'or'):
            return all(self.assume(x, pol, S, N, C, depth + 1) for x in i['ops'])
        if i['op'] == 'icmp':
            p, a, b = i['pred'], i['a'], i['b']
            if not pol:
                p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            if re.match(r'i:-?\d+$|null$', a):
                a, b = b, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            x = self.name(a, N)
            y = self.name(b, N)
            if b in ('null', 'i:0'):
                if x and x[0] in ('h', 't'):
                    return self.learn(x, p, S)
                if x and x[0] == 'k' and p in ('eq', 'ne'):
                    return (x[1] != 0) == (p == 'ne')
                z = g.defs.get(g.under(a))
                if p in ('eq', 'ne') and z is not None and z['op'] == 'bin' and z['kind'] == 'or':
                    return p == 'ne' or all(self.zero(q, S, N, C, depth + 1) for q in z['ops'])
                if p in ('eq', 'ne') and self.g.isbool(a):
                    return self.assume(g.under(a), p == 'ne', S, N, C, depth + 1)
            elif b == 'i:-1' and x and x[0] == 't' and x[2] == 'closeok':
                # fclose gives EOF or nothing
                return self.learn(x, {'eq': 'ne', 'ne': 'eq'}.get(p, ''), S)
            for h, o in ((x, b), (y, a)):
                if h and h[0] == 'h' and self.isstd(o) and p in ('eq', 'ne') and S.get(h[1], ('?',))[0] != 'null':
                    return p == 'ne'
            key = (i['pred'] in ('eq', 'ne') and 'eq' or i['pred'], str(g.canon(i['a'])), str(g.canon(i['b'])))
            return self.corr(key, pol == (i['pred'] != 'ne'), C) if self.steady(i['a']) and self.steady(i['b']) else True
        return True

    def zero(self, v, S, N, C, depth):
        """v is nothing"""
        n = self.name(v, N)
        if n and n[0] in ('h', 't'):
            return self.learn(n, 'eq', S)
        if n and n[0] == 'k':
            return n[1] == 0
        i = self.g.defs.get(self.g.under(v))
        if depth < 10 and i is not None and i['op'] == 'bin' and i['kind'] == 'or':
            return all(self.zero(q, S, N, C, depth + 1) for q in i['ops'])
        return self.assume(v, False, S, N, C, depth) if self.g.isbool(v) else True

    def steady(self, v):
        i = self.g.defs.get(v)
        return i is None or i['op'] in ('phi', 'call') or i['op'] == 'cast' and self.steady(i['a'])

    def corr(self, key, pol, C):
        if key in C:
            return C[key] == pol
        if key not in self.again():
            return True
        C[key] = pol
        return True

    def again(self):
        """conditions that are looked at more than once"""
        if not hasattr(self, '_again'):
            n, g = {}, self.g
            for k in g.live:
                t = g.blocks[k][-1] if g.blocks[k] else {'op': ''}
                if t['op'] != 'br' or 'cond' not in t:
                    continue
                for key in self.keys(t['cond']):
                    n[key] = n.get(key, 0) + 1
            self._again = {k for k in n if n[k] > 1}
        return self._again

    def keys(self, v, depth=0):
        g = self.g
        i = g.defs.get(v)
        if i is None:
            return [v]
        if depth > 10:
            return []
        if i['op'] == 'icmp':
            r = [(i['pred'] in ('eq', 'ne') and 'eq' or i['pred'], str(g.canon(i['a'])), str(g.canon(i['b'])))]
            return r + [k for x in (i['a'], i['b']) if g.isbool(x) for k in self.keys(x, depth + 1)]
        if i['op'] == 'phi':
            return [k for b, x in i['in_'] for k in self.keys(x, depth + 5)]
        if i['op'] in ('cast', 'bin'):
            return [k for x in ([i['a']] if i['op'] == 'cast' else i['ops']) for k in self.keys(x, depth + 1)]
        return []

    def learn(self, n, p, S):
        s = n[1]
        if s not in S:
            return True
        kn, fl = S[s]
        if n[0] == 'h':
            if p == 'eq':
                if kn in ('open', 'closed'):
                    return False
                S[s] = ('null', fl)
            elif p in ('ne', 'ugt'):
                if kn == 'null':
                    return False
                if kn == '?':
                    S[s] = ('open', fl)
            return True
        want = {'zero': 'eq', 'nonzero': 'ne'}[n[3]]
        if p in ('eq', 'ne'):
            if p == want:
                S[s] = (kn, fl | {n[2]})
            elif n[2] in fl:
                return False
        elif p in ('sge', 'ule', 'sle') and n[2] == 'closeok' and p == 'sge':
            S[s] = (kn, fl | {n[2]})
        return True

    def report(self):
        g = self.g
        for s, m in sorted(self.sites.items()):
            i = g.blocks[s[0]][s[1]]
            mine = [(r, w) for (q, r), w in self.bad.items() if q == s]
            for r in ('use', 'close', 'mode', 'output', 'replace'):
                w = next((w for q, w in mine if q == r), None)
                key = '%s:%s:%s' % (i.get('in') or self.what, i['callee'], m)
                if r == 'replace' and not w:
                    continue
                self.o.decide(w is None, r, key, (w and w[1]) or i.get('loc'), 'what is opened at %s %s' % (rel(i.get('loc', '')), w[0]) if w else '',
                              sample='%s: what %s opens' % (self.what, i['callee']))
        for s in self.dents:
            w = self.bad.get((s, 'entries'))
            if w:
                self.o.decide(False, 'entries', '%s:entries' % (g.blocks[s[0]][s[1]].get('in') or self.what), w[1], w[0])


FOLLOW = re.compile(r'^(stat|stat64|access|opendir|__xstat)$')
DEL = re.compile(r'^(remove|unlink|rmdir|unlinkat)$')


def trees(o):
    """functions that delete what they find in a directory, and what is in there"""
    cm = units.callmap()
    dele = {f for f, cs in cm.items() if any(DEL.match(x) for x in cs)}
    for f in sorted(dele):
        # recursive, itself or through others of the repository
        seen, todo = set(), list(cm.get(f, ()))
        while todo:
            x = todo.pop()
            if x in seen or x not in cm or x.startswith(('std::', '__gnu', 'boost::')):
                continue
            seen.add(x)
            todo += cm[x]
        if f in seen:
            yield f


SUM = {}


def summaries():
    """(function, argument) -> what is done with the file it is given"""
    bcs, seen, js = dict(units.unit_bcs()), set(), {}
    for src, fns in units.calls():
        for f in fns:
            if '_IO_FILE*' in f['name'] and f['name'] not in seen and bcs.get(src) and not f['name'].startswith(('std::', 'boost::')):
                seen.add(f['name'])
                js.setdefault(src, []).append(f['name'])
    def one(j):
        return vf.graphs([bcs[j[0]]], ['^' + re.escape(x) + '$' for x in j[1]], '.')
    D, E = {}, {}
    with vf.ThreadPoolExecutor(8) as ex:
        for fs in ex.map(one, sorted(js.items())):
            for f in fs:
                g = G(f)
                hot = {'%' + str(k): k for k in range(len(f.args))}
                for i in f.instrs():
                    if i['op'] != 'call':
                        continue
                    kind = 'read' if READ.match(i['callee']) else 'write' if WRITE.match(i['callee']) else None
                    for x, v in enumerate(i['args']):
                        k = hot.get(g.under(v))
                        if k is None:
                            continue
                        if kind and i.get('aty', ['ptr'] * 9)[x] == 'ptr':
                            D.setdefault((f.dem, k), set()).add(kind)
                        else:
                            E.setdefault((f.dem, k), set()).add((i['callee'], x))
    ch = True
    while ch:
        ch = False
        for a, bs in E.items():
            for b in bs:
                n = D.get(b, set()) - D.get(a, set())
                if n:
                    D.setdefault(a, set()).update(n)
                    ch = True
    for (f, k), v in D.items():
        if '_IO_FILE' in f:
            SUM[(f, k)] = sorted(v)


def work():
    seen, out = set(), []
    bcs = dict(units.unit_bcs())
    cm = units.callmap()
    opens = {f for f, cs in cm.items() if any(SITE.match(x) for x in cs)}
    near = opens | {f for f, cs in cm.items() if any(x in opens for x in cs)}
    for src, fns in units.calls():
        L = []
        for f in fns:
            if f['name'] not in near or f['name'].startswith(('std::', 'boost::', '__gnu')):
                continue
            k = (f['name'], src) if re.match(r'main($|\()', f['name']) else re.sub(r'<.*>', '', f['name']) if '<' in f['name'].split('(')[0] else (f['name'], f['file'])
            if k in seen:
                continue
            seen.add(k)
            L.append(f['name'])
        if L and bcs.get(src):
            out.append((src, [bcs[src]], L))
    return out


def unit(j):
    src, bcs, names = j
    o = srch.Out()
    fns = vf.graphs(bcs, ['^' + re.escape(x) + '$' for x in names], MARKS)
    gone = neverback(bcs, fns)
    for fn in fns:
        what = generic(fn.dem)
        ends = what.startswith('main')
        if ends:
            what = os.path.relpath(src, vf.REPO)[:-3] + ':main'
        Handles(G(fn, gone), o, what, ends).run()
    o.r.append(('tag', ('functions', os.path.relpath(src, vf.REPO), len(fns))))
    return o.done()


def P16(pid, tier):
    c = vf.Check(pid, tier,
        'Typestate of file and directory handles over the inlined LLVM IR of every function that opens one (not looked at, open, null, closed; with what is known of the success of writing and closing): used only while open, in the mode it was opened for, closed unless handed on, what is written while an output file is open goes there, and a file takes the place of another only when it is known to have been written and closed without error; '
        'directory entries kept are neither the directory nor its parent, and what deletes a directory tree does not follow links out of it',
        ['functions given a handle do not close it, unless they are inlined',
         'main programs may leave files open when they end'],
        'finite-state typestate dataflow')
    summaries()
    c.count('functions that are given a file', len({f for f, k in SUM}))
    for r in vf.pmap(unit, work()):
        c.absorb(r)
    c.count('functions', sum(t[2] for t in c.tags if t[0] == 'functions'))
    for t in c.tags:
        if t[0] == 'undecided':
            c.ok('undecided', 1, t[1]); print(t) if os.environ.get('DBG') else 0
    bcs = dict(units.unit_bcs())
    home = {f['name']: s for s, fs in units.calls() for f in fs}
    n = 0
    for f in trees(None):
        n += 1
        src = home[f]
        for fn in vf.graphs([bcs[src]], ['^' + re.escape(f) + '$'], MARKS):
            g = G(fn)
            bad = None
            for i in fn.instrs():
                if i['op'] == 'call' and FOLLOW.match(i['callee']) and i['callee'] != 'opendir' and decides(g, i):
                    bad = bad or i
            c.decide(bad is None, 'tree', generic(fn.dem), bad and bad.get('loc') or fn.file,
                     'deletes what it finds in a directory, but looks through links (%s) to tell a directory from a file: what a link points to is deleted too' % (bad and bad['callee']),
                     sample='%s does not follow links' % generic(fn.dem))
    c.count('functions that delete trees', n)
    c.atleast('use', 15)
    c.atleast('close', 15)
    c.atleast('entries', 1)
    return c.finish()


def decides(g, i):
    """the kind of file the call gives is looked at"""
    if i['callee'] == 'access':
        return False
    r = g.place(i['args'][-1])[0]
    return any(l['op'] == 'load' and g.where(l)[0] == r and 'st_mode' in str(g.where(l)) for l in g.fn.instrs())

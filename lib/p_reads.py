"""P14: what a file or a command line is missing is noticed before it is used.

Three dataflows over the inlined flow graphs of the functions that read:
 * the result of every read is followed as the finite set of values it can
   still have (-1, 0 .. number of conversions); what was read is used only
   where that set is down to "everything was read";
 * available difference facts (a <= b + k), generated by comparisons, killed
   by writes, decide that an index that comes from a file, or an index into
   the arguments, is inside the array;
 * a loop that reads characters has a way out when there are no more."""
import os, re
import vf, units, srch
from flow import NORETURN, short
from p_init import jobs

MARKS = r'''
^std::
^boost::
^__gnu_cxx::
^.*\b(getsearch|searchGet|search)<
^(dfpair|dfrow|dfrowhdr|dfheader|dffooter|fatal|fatalx|warn|warnx)\(
^Image::
'''
SCAN = re.compile(r'^(?:__isoc\d+_)?(fscanf|sscanf|scanf)$')
STRTO = re.compile(r'^(?:__isoc\d+_)?(strtol|strtoul|strtoll|strtoull|atoi|atol|atoll)$|^std::__cxx11::sto(i|l|ul|ll|ull)\b')
EXTRACT = re.compile(r'std::(istream::|basic_istream<.*?>::)operator>>\(|^std::basic_istream<.*operator>>')
GETC = re.compile(r'^(fgetc|getc|getchar|_IO_getc|getc_unlocked|fgetc_unlocked)$')
OKSTREAM = re.compile(r'std::(basic_ios<.*>|ios)::(operator bool|operator!|fail|good)\(')
CONV = re.compile(r'%(\*?)(\d*)(hh|h|ll|l|L|z|j)?(\[\^?\]?[^\]]*\]|.)')


def convs(fmt):
    """the conversions of a scanf format that store something, as letters"""
    return [m.group(4)[0] for m in CONV.finditer(fmt) if m.group(4) != '%' and not m.group(1)]


class G:
    """one flow graph with what all the rules need"""

    def __init__(self, fn, gone=()):
        self.fn, self.gone = fn, gone
        self.defs = {i['id']: i for i in fn.instrs() if 'id' in i}
        self.blocks, self.succ = [], []
        for k, b in enumerate(fn.blocks):
            cut, dead = [], False
            for i in b:
                cut.append(i)
                if i['op'] == 'call' and (NORETURN.match(i['callee']) or i['callee'] in gone):
                    dead = True
                    break
            self.blocks.append(cut)
            self.succ.append([] if dead else fn.succs(k))
        live, todo = {0}, [0]
        while todo:
            for s in self.succ[todo.pop()]:
                if s not in live:
                    live.add(s)
                    todo.append(s)
        self.live = live
        self.pred = {}
        for k in live:
            for s in self.succ[k]:
                self.pred.setdefault(s, []).append(k)
        self.memo = {}
        self.argc, self.argv = argpair(fn) or ('', '')
        self.plus = set()       # what is never negative
        for i in fn.instrs():
            if i['op'] == 'cast' and i.get('kind') == 'zext':
                self.plus.add(self.canon(i['a']))
            elif i['op'] == 'call' and 'id' in i and short(i['callee']).endswith('::size'):
                self.plus.add(self.canon(i['id']))

    def argtype(self, v):
        n = int(v[1:]) if v[0] == '%' else -1
        return self.fn.args[n][1] if 0 <= n < len(self.fn.args) else None

    def place(self, v, depth=0):
        """a name for the memory a pointer stands for: (root, path...)"""
        if v in self.memo:
            return self.memo[v]
        r = (v,)
        i = self.defs.get(v)
        if i is not None and depth < 30:
            if i['op'] == 'gep':
                b = self.place(i['base'], depth + 1)
                r = b
                for p in i['path']:
                    if p[0] == 'f':
                        r += ((p[1], p[2]),)
                    elif p[0] == 'i':
                        x = p[1]
                        r += (('[]', x if x.startswith('i:') else self.canon(x)),)
                    else:
                        r += (('+', str(p[1])),)
            elif i['op'] == 'cast' and i.get('kind') in ('bitcast', 'freeze'):
                r = self.place(i['a'], depth + 1)
            elif i['op'] == 'load':
                r = (('*',) + self.where(i, depth + 1),)
        self.memo[v] = r
        return r

    def where(self, i, depth=0):
        """the memory a load or store touches"""
        r = self.place(i['ptr'], depth)
        for p in i.get('leaf', ()):
            r += ((p[1], p[2]),) if p[0] == 'f' else (('[]', p[1]),)
        return r

    def canon(self, v, depth=0):
        """SSA values that read the same memory have the same name"""
        i = self.defs.get(v)
        if i is None:
            return v
        if i['op'] == 'load':
            return ('m',) + self.where(i)
        if i['op'] == 'call' and short(i['callee']).endswith('::size') and i['args']:
            return ('size',) + self.place(i['args'][0])
        if i['op'] == 'cast' and i.get('kind') in ('sext', 'zext', 'trunc', 'bitcast', 'freeze') and depth < 20:
            return self.canon(i['a'], depth + 1)
        if i['op'] == 'bin' and depth < 6 and i['kind'] in ('mul', 'add', 'sub', 'udiv', 'sdiv', 'shl'):
            return (i['kind'],) + tuple(self.canon(x, depth + 1) for x in i['ops'])
        return v

    def lin(self, v, depth=0):
        """(base, offset): the value as something plus a constant"""
        if isinstance(v, str) and v.startswith('i:'):
            return (0, int(v[2:]))
        i = self.defs.get(v)
        if i is not None and depth < 20:
            if i['op'] == 'cast' and i.get('kind') in ('sext', 'zext', 'trunc', 'freeze'):
                return self.lin(i['a'], depth + 1)
            if i['op'] == 'bin' and i['kind'] in ('add', 'sub'):
                a, b = i['ops']
                if b.startswith('i:'):
                    x, k = self.lin(a, depth + 1)
                    return x, k + (int(b[2:]) if i['kind'] == 'add' else -int(b[2:]))
                if a.startswith('i:') and i['kind'] == 'add':
                    x, k = self.lin(b, depth + 1)
                    return x, k + int(a[2:])
        return self.canon(v), 0

    # ---- what a condition says -------------------------------------------
    def facts(self, v, pol, depth=0):
        """difference facts (a, b, k): a <= b + k that hold when v is pol"""
        i = self.defs.get(v)
        if i is None or depth > 8:
            return []
        if i['op'] == 'icmp':
            p = i['pred']
            if not pol:
                p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            if i['b'] == 'null' or i['a'] == 'null':
                return []
            j = self.defs.get(i['a'])
            if j is not None and i['b'] == 'i:0' and p in ('ne', 'eq') and self.isbool(i['a']):
                return self.facts(self.under(i['a']), p == 'ne', depth + 1)
            out = []
            (a, x), (b, y) = self.lin(i['a']), self.lin(i['b'])
            # a difference compared with a constant
            if a == 0:
                (a, x), (b, y) = (b, y), (a, x)
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if b == 0 and isinstance(a, tuple) and a[0] == 'sub' and len(a) == 3 and p[0] == 's' or b == 0 and isinstance(a, tuple) and a[0] == 'sub' and p == 'eq':
                (m, c1), (n, c2) = self.split(i, a)
                k = y - x + c2 - c1
                if p in ('slt', 'sle', 'eq'):
                    out.append((m, n, k - (p == 'slt')))
                if p in ('sgt', 'sge', 'eq'):
                    out.append((n, m, -k - (p == 'sgt')))
            if p in ('slt', 'ult', 'sle', 'ule', 'eq'):
                out.append((a, b, y - x - (p in ('slt', 'ult'))))
            if p in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                out.append((b, a, x - y - (p in ('sgt', 'ugt'))))
            if p == 'ne' and i['b'] == 'i:0' and self.unsigned(i['a']):
                out.append((0, a, x - 1))
            # below an unsigned bound is also not negative
            if p in ('ult', 'ule'):
                out.append((0, a, x))
            return out
        if i['op'] == 'bin' and i['kind'] == 'xor' and i['ops'][1] in ('i:1', 'i:-1'):
            return self.facts(i['ops'][0], not pol, depth + 1)
        if i['op'] == 'bin' and i['kind'] == ('and' if pol else 'or'):
            return self.facts(i['ops'][0], pol, depth + 1) + self.facts(i['ops'][1], pol, depth + 1)
        if i['op'] == 'cast':
            return self.facts(i['a'], pol, depth + 1)
        return []

    def split(self, i, a):
        """the two sides of the difference compared in i"""
        for v in (i['a'], i['b']):
            d = self.defs.get(v)
            for _ in range(20):
                if d is None:
                    break
                if d['op'] == 'cast' and d.get('kind') in ('sext', 'zext', 'trunc', 'freeze'):
                    d = self.defs.get(d['a'])
                elif d['op'] == 'bin' and d['kind'] in ('add', 'sub') and any(x.startswith('i:') for x in d['ops']):
                    d = self.defs.get(next(x for x in d['ops'] if not x.startswith('i:')))
                else:
                    break
            if d is not None and d['op'] == 'bin' and d['kind'] == 'sub' and self.canon(d['id']) == a:
                return self.lin(d['ops'][0]), self.lin(d['ops'][1])
        return (a[1], 0), (a[2], 0)

    def under(self, v):
        i = self.defs.get(v)
        while i is not None and i['op'] == 'cast':
            v = i['a']
            i = self.defs.get(v)
        return v

    def isbool(self, v):
        i = self.defs.get(self.under(v))
        return i is not None and (i['op'] == 'icmp' or i.get('ty') == 'i1')

    def flag(self, v):
        """is it a truth value, whatever its width?"""
        i = self.defs.get(v)
        for _ in range(8):
            if i is None or i['op'] != 'cast':
                break
            i = self.defs.get(i['a'])
        return i is not None and (i['op'] == 'icmp' or i.get('ty') == 'i1' or i['op'] == 'phi' and all(x in ('i:0', 'i:1') or x[0] == '%' and self.defs.get(x, {}).get('op') in ('icmp',) for b, x in i['in_']))

    def unsigned(self, v):
        i = self.defs.get(v)
        return i is not None and i['op'] == 'call' and short(i['callee']).endswith('::size')

    # ---- available facts -----------------------------------------------------
    def slice(self, bases):
        """the values whose order can matter for the bases"""
        R = {0, self.argc} | set(bases)
        cmps, stores = [], {}
        for k in self.live:
            for i in self.blocks[k]:
                if i['op'] == 'icmp' and i['b'] != 'null' and i['a'] != 'null':
                    a, b = self.lin(i['a'])[0], self.lin(i['b'])[0]
                    cmps.append((a, b))
                    for x, y in ((a, b), (b, a)):
                        if y == 0 and isinstance(x, tuple) and x[0] == 'sub':
                            (p, _), (q, _) = self.split(i, x)
                            cmps.append((p, q))
                elif i['op'] == 'store' and i.get('vty', '').startswith('i'):
                    stores.setdefault(('m',) + self.where(i), []).append(i['val'])
                elif i['op'] == 'switch':
                    pass
        for rnd in range(3):
            todo = list(R)
            while todo:
                x = todo.pop()
                L = []
                i = self.defs.get(x) if isinstance(x, str) else None
                if i is not None and i['op'] == 'phi':
                    L = [v for b, v in i['in_']]
                L += stores.get(x, [])
                for v in L:
                    y = self.lin(v)[0]
                    if y not in R:
                        R.add(y)
                        todo.append(y)
            if rnd < 2:
                R |= {b for a, b in cmps if a in R and a != 0 and a != self.argc} | {a for a, b in cmps if b in R and b != 0 and b != self.argc}
        self.R = R
        return self

    def solve(self):
        """per block, the difference facts that hold at its start"""
        n = len(self.blocks)
        self.IN = [None] * n
        self.IN[0] = {}
        grown = {}
        work = [0]
        visits = [0] * n
        while work:
            k = work.pop(0)
            visits[k] += 1
            cur = self.through(k, len(self.blocks[k]))
            t = self.blocks[k][-1] if self.blocks[k] else {'op': ''}
            for x, s in enumerate(self.succ[k]):
                out = dict(cur)
                if t['op'] == 'br' and 'cond' in t and len(self.succ[k]) == 2 and self.succ[k][0] != self.succ[k][1]:
                    self.learn(out, k, t['cond'], x == 0)
                elif t['op'] == 'switch':
                    vals = [c for c, b in t['cases'] if b == s]
                    if len(vals) == 1 and s != t['default']:
                        c = int(str(vals[0]).replace('i:', ''))
                        b, d = self.lin(t['cond'] if 'cond' in t else t.get('val'))
                        self.put(out, b, 0, c - d)
                        self.put(out, 0, b, d - c)
                self.phis(out, k, s)
                old = self.IN[s]
                if old is None:
                    new = out
                else:
                    new = {}
                    for f, c in old.items():
                        if f in out:
                            m = max(c, out[f])
                            if m > c:
                                grown[(s, f)] = grown.get((s, f), 0) + 1
                                if grown[(s, f)] > 4:
                                    continue
                            new[f] = m
                        else:
                            m = self.shortest(out, f[0], f[1])
                            if m is not None and m <= c:
                                new[f] = c
                    # what follows from the old and is stated in the new
                    for f, c in out.items():
                        if f not in old:
                            m = self.shortest(old, f[0], f[1])
                            if m is not None and m <= c:
                                new[f] = c
                                grown[(s, f)] = grown.get((s, f), 0) + 1
                                if grown[(s, f)] > 4:
                                    del new[f]
                if new != old:
                    self.IN[s] = new
                    if s not in work:
                        work.append(s)
            if visits[k] > 60:
                self.IN[k] = {}
        return self

    def put(self, F, a, b, k):
        if a == b or a not in self.R or b not in self.R:
            return
        if (a, b) not in F or F[(a, b)] > k:
            F[(a, b)] = k

    def learn(self, F, k, v, pol):
        for a, b, c in self.facts(v, pol):
            self.put(F, a, b, c)
        # a truth value put together from several: it came the way that allows it
        i = self.defs.get(v)
        for _ in range(8):
            if i is None:
                break
            if i['op'] == 'cast':
                v = i['a']
            elif i['op'] == 'bin' and i['kind'] == 'xor' and i['ops'][1] in ('i:1', 'i:-1'):
                v, pol = i['ops'][0], not pol
            elif i['op'] == 'icmp' and i['b'] == 'i:0' and i['pred'] in ('ne', 'eq') and self.flag(i['a']):
                v, pol = i['a'], pol == (i['pred'] == 'ne')
            else:
                break
            i = self.defs.get(v)
        if i is not None and i['op'] == 'phi':
            L = [(b, x) for b, x in i['in_'] if not (x in ('i:0', 'i:1', 'i:-1') and (x != 'i:0') != pol)]
            if len(L) == 1:
                b, x = L[0]
                G_ = dict(self.through(b, len(self.blocks[b]))) if self.IN[b] is not None else {}
                tb = self.blocks[b][-1]
                if tb['op'] == 'br' and 'cond' in tb:
                    for n_, s in enumerate(self.succ[b]):
                        if s == self.blockof(i['id']):
                            self.learn(G_, b, tb['cond'], n_ == 0)
                if x[0] == '%':
                    self.learn(G_, b, x, pol)
                for (p, q), c in G_.items():
                    self.put(F, p, q, c)

    def blockof(self, v):
        if not hasattr(self, '_bo'):
            self._bo = {i['id']: k for k, b in enumerate(self.blocks) for i in b if 'id' in i}
        return self._bo.get(v)

    def phis(self, F, k, s):
        new = []
        for i in self.blocks[s]:
            if i['op'] != 'phi':
                break
            for b, x in i['in_']:
                if b != k:
                    continue
                p = i['id']
                a, c = self.lin(x)
                new.append((p, a, c))
        # facts about the phis themselves are about their old values
        old = dict(F)
        names = {p for p, _, _ in new}
        if names:
            for f in [f for f in F if f[0] in names or f[1] in names or self.mentions(f[0], names) or self.mentions(f[1], names)]:
                del F[f]
        for p, a, c in new:
            # p = a + c
            if a in names and a != p:
                continue
            for (x, y), d in old.items():
                if x == a and y not in names and y != p:
                    self.put(F, p, y, d + c)
                if y == a and x not in names and x != p:
                    self.put(F, x, p, d - c)
            if a != p and a not in names:
                self.put(F, p, a, c)
                self.put(F, a, p, -c)

    def mentions(self, f, names):
        if isinstance(f, tuple):
            return any(self.mentions(x, names) for x in f)
        return f in names

    def through(self, k, upto):
        F = dict(self.IN[k] or {})
        for i in self.blocks[k][:upto]:
            self.kill(F, i)
        return F

    def kill(self, F, i):
        if i['op'] == 'store':
            w = self.where(i)
            self.drop(F, w)
            if i['val'][0] in '%i' and i.get('vty', '').startswith('i'):
                a, c = self.lin(i['val'])
                m = ('m',) + w
                if a != m:
                    self.put(F, m, a, c)
                    self.put(F, a, m, -c)
        elif i['op'] == 'call' and not i['callee'].startswith('llvm.'):
            n = i['callee']
            if SCAN.match(n) or EXTRACT.search(n):
                for a in i['args'][1:]:
                    if a[0] == '%':
                        self.drop(F, self.place(a))
            elif re.search(r'::(resize|clear|push_back|pop_back|emplace_back|insert|erase|assign|operator=|swap)$', short(n)) and i['args']:
                self.drop(F, self.place(i['args'][0]), True)
        if i['op'] == 'call' and self.argc in i['args'] and self.argv in i['args'] and re.search(r'^<indirect>|\bgetsearch<', i['callee']):
            # what picks the algorithm returns only if one is named
            self.put(F, 0, self.argc, -2)
        if 'id' in i and i['op'] not in ('phi',):
            # the instruction gives its name a new value
            nm = i['id']
            for f in [f for f in F if self.mentions(f[0], (nm,)) or self.mentions(f[1], (nm,))]:
                del F[f]

    def drop(self, F, w, size=False):
        m = ('m',) + w
        for f in list(F):
            if any(self.hit(x, w, size) for x in f):
                del F[f]

    def hit(self, x, w, size):
        if not isinstance(x, tuple):
            return False
        if x[:1] == ('m',):
            p = x[1:]
            if p[:len(w)] == w or w[:len(p)] == p:
                return not size or len(p) > len(w) or False
            # another object's field of the same name, through a pointer
            if len(w) > 1 and len(p) > 1 and w[-1] == p[-1] and w[0] != p[0] and not size and not (self.local(w[0]) or self.local(p[0])):
                return True
            return False
        if x[:1] == ('size',):
            return size and x[1:] == w
        return any(self.hit(y, w, size) for y in x)

    def local(self, r):
        i = self.defs.get(r) if isinstance(r, str) else None
        return i is not None and i['op'] == 'alloca'

    def shortest(self, F, a, b):
        """the least k with a <= b + k, or None"""
        if a == b:
            return 0
        out = {}
        for (x, y), k in F.items():
            out.setdefault(x, []).append((y, k))
        out.setdefault(0, []).extend((y, 0) for y in self.plus)
        best = {a: 0}
        work = [a]
        for _ in range(2000):
            if not work:
                break
            x = work.pop(0)
            for y, k in out.get(x, ()):
                d = best[x] + k
                if y not in best or d < best[y]:
                    if y == a:
                        continue
                    best[y] = d
                    work.append(y)
        return best.get(b)


# ---- what was read is used only when it was read ----------------------------

class Reads:
    """sites: instruction index -> number of conversions and the memory filled"""

    def __init__(self, g, o, what):
        self.g, self.o, self.what = g, o, what
        self.sites = {}
        for k in g.live:
            for j, i in enumerate(g.blocks[k]):
                if i['op'] != 'call':
                    continue
                s = self.site(i)
                if s:
                    self.sites[(k, j)] = s

    def site(self, i):
        n = i['callee']
        g = self.g
        m = SCAN.match(n)
        if m:
            a = i['args']
            at = 0 if m.group(1) == 'scanf' else 1
            if len(a) <= at or not a[at].startswith('s:'):
                self.o.r.append(('tag', ('undecided', 'format not constant', i.get('loc'))))
                return None
            cs = convs(a[at][2:])
            dst = [(x, c) for x, c in zip(a[at + 1:], cs) if c != 'n']
            if not dst:
                return None
            return ('count', len(dst), [x for x, c in dst])
        if EXTRACT.search(n):
            tys = i.get('aty', [])
            if 'std::istream::operator>>(' in n or re.search(r'basic_istream<.*?>::operator>>\(', n):
                if re.search(r'operator>>\((std|\w+ \(\*)', n):
                    return None      # a manipulator
                return ('stream', i['args'][0], [i['args'][1]])
            return None      # strings and characters keep a defined value
        if n == 'fgets':
            return ('null', None, [i['args'][0]])
        if n == 'fread':
            return ('some', None, [i['args'][0]])
        return None

    def run(self):
        g = self.g
        if not self.sites:
            return
        key = {}
        full = {}
        for s, (kind, n, dst) in self.sites.items():
            full[s] = frozenset(range(-1, n + 1)) if kind == 'count' else frozenset((0, 1))
        good = {s: frozenset((n,)) if kind == 'count' else frozenset((1,)) for s, (kind, n, dst) in self.sites.items()}
        # state: frozenset of (site, values still possible), and names of results: (value, site)
        IN = {0: {(frozenset(), frozenset())}}
        work = [0]
        bad = {}
        count = 0
        while work:
            k = work.pop(0)
            outs = set()
            for st in IN[k]:
                count += 1
                sit, names = dict(st[0]), dict(st[1])
                for j, i in enumerate(g.blocks[k]):
                    if (k, j) in self.sites:
                        sit[(k, j)] = full[(k, j)]
                        if 'id' in i and self.sites[(k, j)][0] != 'stream':
                            names[i['id']] = (k, j)
                        # reading the same memory again
                        for s in list(sit):
                            if s != (k, j) and any(self.over(x, self.sites[(k, j)][2]) for x in self.sites[s][2]):
                                del sit[s]
                        continue
                    if i['op'] == 'phi':
                        continue
                    u = self.use(i, sit, good)
                    if u:
                        bad.setdefault(u, i.get('loc'))
                        sit.pop(u, None)
                    # a store replaces what was read
                    if i['op'] == 'store':
                        w = g.where(i)
                        for s in list(sit):
                            if any(g.place(x) == w for x in self.sites[s][2]):
                                del sit[s]
                t = g.blocks[k][-1] if g.blocks[k] else {'op': ''}
                if t['op'] == 'ret':
                    self.leave(t, sit, names, good, bad)
                    continue
                for x, s in enumerate(g.succ[k]):
                    sit2 = dict(sit)
                    feas = True
                    if t['op'] == 'br' and 'cond' in t and len(g.succ[k]) == 2:
                        feas = self.refine(t['cond'], x == 0, sit2, names)
                    elif t['op'] == 'switch':
                        feas = self.switch(t, s, sit2, names)
                    if not feas:
                        continue
                    nm2 = dict(names)
                    for i in g.blocks[s]:
                        if i['op'] != 'phi':
                            break
                        for b, v in i['in_']:
                            if b == k:
                                r = names.get(g.under(v))
                                if r is not None:
                                    nm2[i['id']] = r
                                elif i['id'] in nm2:
                                    del nm2[i['id']]
                    for q in [q for q in sit2 if sit2[q] == good[q]]:
                        del sit2[q]
                    nm2 = {a: b for a, b in nm2.items() if b in sit2}
                    out = (frozenset(sit2.items()), frozenset(nm2.items()))
                    L = IN.setdefault(s, set())
                    if out not in L:
                        L.add(out)
                        if s not in work:
                            work.append(s)
            if count > 60000:
                self.o.r.append(('tag', ('undecided', 'too many ways through ' + self.what, None)))
                return
        for s, (kind, n, dst) in self.sites.items():
            i = g.blocks[s[0]][s[1]]
            self.o.decide(s not in bad, 'read', '%s:%s' % (i.get('in') or self.what, self.label(i)), i.get('loc'),
                          'what is read here can be used (at %s) although the read failed' % rel(bad.get(s)) if s in bad else '',
                          sample='%s: %s' % (self.what, self.label(i)))

    def label(self, i):
        n = i['callee']
        if SCAN.match(n):
            return next(a[2:] for a in i['args'] if a.startswith('s:')).strip()
        w = self.g.place(i['args'][1] if EXTRACT.search(n) else i['args'][0])
        return short(n).split('::')[-1] + ' ' + self.nm(w)

    def nm(self, w):
        i = self.g.defs.get(w[0]) if isinstance(w[0], str) else None
        out = [re.sub(r'\.i\d*$', '', i['nm']).split('.')[0]] if i is not None and 'nm' in i else []
        return '.'.join(out + [x[1] for x in w[1:] if isinstance(x, tuple) and x[0] not in ('[]', '+')])

    def over(self, x, ys):
        p = self.g.place(x)
        return any(self.g.place(y) == p for y in ys)

    def use(self, i, sit, good):
        g = self.g
        for s in sit:
            if sit[s] == good[s]:
                continue
            for x in self.sites[s][2]:
                p = g.place(x)
                if i['op'] == 'load':
                    w = g.where(i)
                    if w == p or (w[:len(p)] == p) or (len(w) > 1 and len(p) > 1 and w[:-1] == p[:-1] and w[-1][0] == '[]' == p[-1][0]):
                        return s
                elif i['op'] == 'call' and not i['callee'].startswith('llvm.lifetime') and not NORETURN.match(i['callee']) and i['callee'] not in g.gone:
                    if SCAN.match(i['callee']) or EXTRACT.search(i['callee']):
                        continue
                    if re.search(r'::~\w+$', short(i['callee'])):
                        continue
                    if any(a[0] == '%' and g.place(a) == p for a in i['args']):
                        return s
        return None

    def leave(self, t, sit, names, good, bad):
        """the function ends with something read that was not looked at"""
        g = self.g
        v = t.get('val')
        told = v is not None and v != 'void'
        for s in sit:
            if sit[s] == good[s] or told:
                continue
            for x in self.sites[s][2]:
                r = g.place(x)[0]
                if isinstance(r, str) and g.local(r):
                    continue
                bad.setdefault(s, t.get('loc') or g.blocks[s[0]][s[1]].get('loc'))

    def refine(self, v, pol, sit, names, depth=0):
        """narrow the results a condition speaks about; False: impossible"""
        g = self.g
        i = g.defs.get(v)
        if i is None or depth > 8:
            return True
        if i['op'] == 'phi' and v in names:
            return self.narrow(names[v], 'ne' if pol else 'eq', 0, sit)
        if i['op'] == 'call' and OKSTREAM.search(i['callee']):
            neg = re.search(r'operator!|::fail', short(i['callee'])) is not None
            return self.stream(g.place(i['args'][0]), pol != neg, sit)
        if i['op'] == 'cast':
            return self.refine(i['a'], pol, sit, names, depth + 1)
        if i['op'] == 'bin' and i['kind'] == 'xor' and i['ops'][1] in ('i:1', 'i:-1'):
            return self.refine(i['ops'][0], not pol, sit, names, depth + 1)
        if i['op'] == 'bin' and i['kind'] == ('and' if pol else 'or'):
            return all(self.refine(x, pol, sit, names, depth + 1) for x in i['ops'])
        if i['op'] == 'icmp':
            p, a, b = i['pred'], i['a'], i['b']
            if not re.match(r'i:-?\d+$|null$', b):
                if re.match(r'i:-?\d+$|null$', a):
                    a, b = b, a
                    p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
                else:
                    # fread compared with what was asked for
                    for x in (a, b):
                        s = names.get(g.under(x))
                        if s in sit and self.sites[s][0] == 'some':
                            sit[s] = frozenset((1,))
                    return True
            s = names.get(g.under(a))
            if s is None:
                if b == 'i:0' and p in ('eq', 'ne'):
                    return self.refine(g.under(a), pol == (p == 'ne'), sit, names, depth + 1)
                return True
            if not pol:
                p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            return self.narrow(s, p, 0 if b == 'null' else int(b[2:]), sit)
        if i['op'] in ('call', 'load', 'phi') and v in names:
            return self.narrow(names[v], 'ne' if pol else 'eq', 0, sit)
        return True

    def narrow(self, s, p, c, sit):
        if s not in sit:
            return True
        if self.sites[s][0] == 'some':
            sit[s] = frozenset((1,))
            return True
        f = {'eq': lambda x: x == c, 'ne': lambda x: x != c, 'slt': lambda x: x < c, 'sge': lambda x: x >= c, 'sgt': lambda x: x > c, 'sle': lambda x: x <= c,
             'ult': lambda x: x % 2 ** 32 < c % 2 ** 32, 'uge': lambda x: x % 2 ** 32 >= c % 2 ** 32, 'ugt': lambda x: x % 2 ** 32 > c % 2 ** 32, 'ule': lambda x: x % 2 ** 32 <= c % 2 ** 32}[p]
        sit[s] = frozenset(x for x in sit[s] if f(x))
        return bool(sit[s])

    def stream(self, st, good, sit):
        for s in list(sit):
            if self.sites[s][0] == 'stream':
                sit[s] = frozenset((1,)) if good else frozenset((0,))
        return True

    def switch(self, t, s, sit, names):
        q = names.get(self.g.under(t.get('cond', t.get('val', ''))))
        if q is None:
            return True
        vals = [int(str(c).replace('i:', '')) for c, b in t['cases'] if b == s]
        vals = [v - 2 ** 32 if v >= 2 ** 31 else v for v in vals]
        allv = [int(str(c).replace('i:', '')) for c, b in t['cases']]
        allv = [v - 2 ** 32 if v >= 2 ** 31 else v for v in allv]
        if q in sit:
            sit[q] = frozenset(x for x in sit[q] if x in vals or (s == t['default'] and x not in allv))
            return bool(sit[q])
        return True


rel = vf.rel


# ---- an index from a file, or into the arguments, is inside the array -------

SIZING = re.compile(r'^operator new\[\]|^(malloc|calloc)$|::(resize|reserve|vector|assign)$|^safe::|^(void )?setsize')
TOKVEC = re.compile(r'std::vector<std::__cxx11::basic_string<.*::operator\[\]\(')


class Index:
    def __init__(self, g, o, what):
        self.g, self.o, self.what = g, o, what

    def sources(self):
        """values and memory that come from a file"""
        g = self.g
        self.val, self.mem, self.signed = {}, {}, set()
        for k in g.live:
            for i in g.blocks[k]:
                if i['op'] != 'call':
                    continue
                n = i['callee']
                m = SCAN.match(n)
                if m:
                    a = i['args']
                    at = 0 if m.group(1) == 'scanf' else 1
                    if len(a) > at and a[at].startswith('s:'):
                        for x, c in zip(a[at + 1:], convs(a[at][2:])):
                            if c in 'diuxXo':
                                self.mem[g.place(x)] = i.get('loc')
                                if c in 'di':
                                    self.signed.add(g.place(x))
                elif EXTRACT.search(n) and re.search(r'operator>>\((unsigned )?(int|long|short)', n):
                    d = i
                    while d is not None and d['op'] == 'call' and EXTRACT.search(d['callee']):
                        d = g.defs.get(g.place(d['args'][0])[0])
                    if d is not None and 'stringstream' in d.get('aty', ''):
                        continue      # a field of a data file
                    self.mem[g.place(i['args'][1])] = i.get('loc')
                    if not re.search(r'operator>>\(unsigned', n):
                        self.signed.add(g.place(i['args'][1]))
                elif STRTO.search(n) and 'id' in i and not self.fromargs(i['args'][0]):
                    self.val[i['id']] = i.get('loc')
        changed = True
        while changed:
            changed = False
            for k in g.live:
                for i in g.blocks[k]:
                    if 'id' in i and i['id'] not in self.val:
                        src = None
                        if i['op'] == 'load':
                            src = self.mem.get(g.where(i))
                        elif i['op'] == 'cast':
                            src = self.val.get(i['a'])
                        elif i['op'] == 'bin' and i['kind'] in ('add', 'sub', 'mul'):
                            src = next((self.val[x] for x in i['ops'] if x in self.val), None)
                        elif i['op'] == 'phi':
                            src = next((self.val[x] for b, x in i['in_'] if x in self.val), None)
                        if src is not None:
                            self.val[i['id']] = src
                            changed = True
                    elif i['op'] == 'store' and i['val'] in self.val:
                        w = g.where(i)
                        if w not in self.mem and len(w) <= 4:
                            self.mem[w] = self.val[i['val']]
                            changed = True
        # what sizes an array is not taken for an index
        self.size = set()
        for k in g.live:
            for i in g.blocks[k]:
                if i['op'] == 'call' and SIZING.search(short(i['callee'])):
                    for a in i['args']:
                        for x in self.leaves(a):
                            self.size.add(g.canon(x))
                # what a running number is compared with is a size too
                if i['op'] == 'icmp':
                    for a, b in ((i['a'], i['b']), (i['b'], i['a'])):
                        if a[0] == '%' and b[0] == '%' and self.counter(a) and b in self.val:
                            self.size.add(g.lin(b)[0])

    @staticmethod
    def member(w):
        """(class, field) of the member a place is, elements of it included"""
        while w and isinstance(w[-1], tuple) and w[-1][0] in ('[]', '+'):
            w = w[:-1]
        return w[-1] if len(w) > 1 and isinstance(w[-1], tuple) and w[-1][0] != '*' and len(w[-1]) == 2 else None

    def stored(self):
        """members that keep a number from the file, and the members that are checked"""
        g, o = self.g, self.o
        for w in self.mem:
            m = self.member(w)
            if m and ('m',) + w in self.size:
                o.r.append(('tag', ('size',) + m))
            if m:
                o.r.append(('tag', ('stored',) + m + (rel(self.mem[w]),)))
        dead = {}

        def stops(b, seen=()):
            """does every way from here end the program?"""
            if b in dead:
                return dead[b]
            if b in seen:
                return False
            if not g.succ[b]:
                r = not g.blocks[b] or g.blocks[b][-1]['op'] != 'ret'
            else:
                r = len(seen) < 30 and all(stops(s, seen + (b,)) for s in g.succ[b])
            dead[b] = r
            return r
        for k in g.live:
            t = g.blocks[k][-1] if g.blocks[k] else {'op': ''}
            if t['op'] != 'br' or 'cond' not in t or len(g.succ[k]) != 2:
                continue
            a, b = stops(g.succ[k][0]), stops(g.succ[k][1])
            if a == b:
                continue
            for x, y, c in g.facts(t['cond'], b):
                if isinstance(x, tuple) and x[:1] == ('m',):
                    m = self.member(x[1:])
                    if m:
                        o.r.append(('tag', ('guard',) + m + (rel(t.get('loc')),)))

    def fromargs(self, v):
        i = self.g.defs.get(v)
        if i is None or i['op'] != 'load':
            return False
        w = self.g.where(i)
        return w[0] == self.g.argv or isinstance(w[0], tuple) and self.g.argv in w[0]

    def counter(self, v):
        i = self.g.defs.get(self.g.under(v))
        return i is not None and i['op'] == 'phi' and v not in self.val

    def leaves(self, v, depth=0):
        """the values an index is put together from"""
        i = self.g.defs.get(v)
        if i is None or depth > 12:
            return [v]
        if i['op'] == 'cast':
            return self.leaves(i['a'], depth + 1)
        if i['op'] == 'bin' and i['kind'] in ('mul', 'add', 'sub'):
            return [x for a in i['ops'] for x in self.leaves(a, depth + 1)]
        if i['op'] == 'call' and 'with.overflow' in i['callee']:
            return [x for a in i['args'] for x in self.leaves(a, depth + 1)]
        if i['op'] == 'extractvalue':
            return self.leaves(i.get('a', i.get('val', '')), depth + 1)
        return [v]

    def terms(self, v, depth=0):
        """the addends and factors of an index, each a value plus a constant"""
        g = self.g
        x, c = g.lin(v)
        i = g.defs.get(v)
        while i is not None and i['op'] == 'cast':
            v = i['a']
            i = g.defs.get(v)
        if i is not None and i['op'] == 'bin' and depth < 8:
            if i['kind'] in ('add', 'sub') and not any(a.startswith('i:') for a in i['ops']) or i['kind'] == 'mul':
                return [t for a in i['ops'] for t in self.terms(a, depth + 1)]
            if i['kind'] in ('add', 'sub'):
                y = next(a for a in i['ops'] if not a.startswith('i:')) if any(not a.startswith('i:') for a in i['ops']) else None
                j = g.defs.get(g.under(y)) if y else None
                if j is not None and j['op'] == 'bin' and (j['kind'] == 'mul' or j['kind'] in ('add', 'sub') and not any(a.startswith('i:') for a in j['ops'])):
                    return self.terms(y, depth + 1)
        return [v]

    def signedchain(self, v, seen=()):
        i = self.g.defs.get(v)
        while i is not None and i['op'] == 'cast':
            if i['kind'] == 'sext':
                return True
            v = i['a']
            i = self.g.defs.get(v)
        if i is None or v in seen:
            return False
        if i['op'] == 'load':
            return i.get('ty') == 'i64' and self.g.where(i) in self.signed
        if i['op'] == 'call':
            return re.search(r'strtoll?$|ato|sto(i|l|ll)$', short(i['callee'])) is not None
        return i['op'] == 'phi' and any(self.signedchain(x, seen + (v,)) for b, x in i['in_'])

    def extents(self, obj, F):
        """what the array is known to have room for: canonical values (a, k): room for a + k"""
        g = self.g
        p = g.place(obj)
        out = [(('size',) + p, 0)]
        exact = False
        for k in g.live:
            for i in g.blocks[k]:
                if i['op'] == 'call' and re.search(r'::(resize|vector|assign)$', short(i['callee'])) and len(i['args']) > 1 and i['aty'][1] == 'i64' and g.place(i['args'][0]) == p:
                    out.append(g.lin(i['args'][1]))
                    exact = True
        return out, exact

    def run(self):
        g = self.g
        self.sources()
        self.stored()
        sinks, toks = [], []
        for k in sorted(g.live):
            for j, i in enumerate(g.blocks[k]):
                if i['op'] == 'gep':
                    n = 0
                    for p in i['path']:
                        if p[0] == 'i':
                            ln = None
                            if p[2] == 'a':
                                ln = i['alen'][n] if n < len(i.get('alen', [])) else None
                                n += 1
                            if p[1][0] == '%' and p[1] in self.val:
                                sinks.append((k, j, p[1], None, ln, i))
                elif i['op'] == 'call' and re.search(r'::operator\[\]$', short(i['callee'])) and re.match(r'std::(vector|array|deque|__cxx11::basic_string|bitset)<', i['callee']) and len(i['args']) > 1:
                    r = g.place(i['args'][0])[0]
                    if TOKVEC.search(i['callee']) and isinstance(r, str) and g.local(r):
                        toks.append((k, j, i))
                    elif i['args'][1] in self.val:
                        sinks.append((k, j, i['args'][1], i['args'][0], None, i))
        self.nsinks = len(sinks)
        if toks:
            self.tokens(toks)
        if not sinks:
            return
        g.slice({g.lin(t)[0] for _, _, v, _, _, _ in sinks for t in self.terms(v)} | {e for _, _, _, obj, _, _ in sinks if obj for e, _ in self.extents(obj, None)[0]}).solve()
        done = set()
        for k, j, v, obj, ln, i in sinks:
            if g.IN[k] is None:
                continue
            F = g.through(k, j)
            for t in self.terms(v):
                if g.under(t) not in self.val and t not in self.val:
                    continue
                x, c = g.lin(t)
                if x in self.size or x == 0:
                    continue
                whole = len(self.terms(v)) == 1
                E, exact = ([((0), ln)], True) if ln is not None else self.extents(obj, F) if obj else ([], False)
                okay = False
                if whole and exact or (obj and any(g.shortest(F, x, e) is not None for e, _ in E)):
                    okay = any((lambda s: s is not None and s + c <= a - 1)(g.shortest(F, x, e)) for e, a in E)
                else:
                    # below some bound that is not a running number of its own
                    okay = any(f[0] == x and f[1] not in (x,) and kk + c <= -1 + (0 if f[1] != 0 else 10 ** 9) and not (f[1] in self.val and False) for f, kk in F.items())
                low = True
                if self.signedchain(t):
                    s = g.shortest(F, 0, x)
                    low = s is not None and s <= c
                key = '%s:%s' % (i.get('in') or self.what, self.name(x))
                loc = i.get('loc')
                if (key, loc) in done:
                    continue
                done.add((key, loc))
                self.o.decide(okay, 'index', key + ':below', loc, '%s comes from the input and selects an element without having been checked against the size' % self.name(x), sample='%s: %s at %s' % (self.what, self.name(x), rel(loc)))
                if self.signedchain(t):
                    self.o.decide(low, 'index', key + ':negative', loc, '%s comes from the input and selects an element although it can be negative' % self.name(x), sample='%s: %s is not negative' % (self.what, self.name(x)))

    def members(self, want):
        """elements chosen by a member that keeps a number from a file"""
        g = self.g
        self.sources()
        sinks = []
        for k in sorted(g.live):
            for j, i in enumerate(g.blocks[k]):
                L = []
                if i['op'] == 'gep':
                    L = [p[1] for p in i['path'] if p[0] == 'i' and p[1][0] == '%']
                elif i['op'] == 'call' and re.search(r'::operator\[\]$', short(i['callee'])) and i['callee'].startswith('std::') and len(i['args']) > 1:
                    L = [i['args'][1]]
                for v in L:
                    ts = self.terms(v)
                    if len(ts) > 1:
                        continue
                    x, c = g.lin(v)
                    if isinstance(x, tuple) and x[:1] == ('m',) and self.member(x[1:]) in want:
                        sinks.append((k, j, x, c, i))
        if not sinks:
            return
        g.slice({x for _, _, x, _, _ in sinks}).solve()
        for k, j, x, c, i in sinks:
            if g.IN[k] is None:
                continue
            F = g.through(k, j)
            ok = any(f[0] == x and kk + c <= -1 for f, kk in F.items())
            self.o.r.append(('tag', ('chosen',) + self.member(x[1:]) + (i.get('in') or self.what, rel(i.get('loc')), ok)))

    def tokens(self, toks):
        """a field of a line is looked at only when the line has that many"""
        g = self.g
        sz = {('size',) + g.place(i['args'][0]) for k, j, i in toks}
        g.slice(sz | {g.lin(i['args'][1])[0] for k, j, i in toks}).solve()
        for k, j, i in toks:
            if g.IN[k] is None:
                continue
            b, c = g.lin(i['args'][1])
            s = g.shortest(g.through(k, j), b, ('size',) + g.place(i['args'][0]))
            n = i['args'][1]
            self.o.decide(s is not None and s + c <= -1, 'fields', '%s:%s' % (i.get('in') or self.what, 'field %s' % n[2:] if n[0] == 'i' else 'a running field'), i.get('loc'),
                          'a field of a line is looked at although the line may have fewer', sample='%s: field at %s' % (self.what, rel(i.get('loc'))))

    def name(self, x):
        g = self.g
        if isinstance(x, tuple) and x[:1] == ('m',):
            return Reads(g, self.o, self.what).nm(x[1:]) or 'a value'
        i = g.defs.get(x) if isinstance(x, str) else None
        if i is None:
            return 'a value'
        if i['op'] == 'call':
            return 'a number read with ' + short(i['callee']).replace('__isoc23_', '')
        return i.get('nm') or 'a value'


def argpair(fn):
    """(argc, argv) of a function that takes command line arguments"""
    A = fn.args
    for n in range(len(A) - 1):
        if A[n][1] == 'i32' and A[n + 1][1] == 'ptr':
            return '%' + str(n), '%' + str(n + 1)
    return None


class Args:
    """every argument that is looked at is there"""

    def __init__(self, g, o, what, argc, argv):
        self.g, self.o, self.what, self.argc, self.argv = g, o, what, argc, argv

    def run(self):
        g, o = self.g, self.o
        looks = []
        for k in sorted(g.live):
            for j, i in enumerate(g.blocks[k]):
                if i['op'] != 'load' or i.get('ty') != 'ptr':
                    continue
                v, idx = i['ptr'], []
                d = g.defs.get(v)
                while d is not None and d['op'] == 'gep' and len(d['path']) <= 1:
                    idx += [p[1] for p in d['path'] if p[0] == 'i']
                    if any(p[0] != 'i' for p in d['path']):
                        break
                    v = d['base']
                    d = g.defs.get(v)
                if v == self.argv and len(idx) <= 1:
                    looks.append((k, j, i, idx[0] if idx else 'i:0'))
        if not looks:
            return
        g.slice({g.lin(x)[0] for _, _, _, x in looks}).solve()
        for k, j, i, x in looks:
            if g.IN[k] is None:
                continue
            F = g.through(k, j)
            b, c = g.lin(x)
            s = g.shortest(F, b, self.argc)
            if b == 0 and c == 0 and re.match(r'main\b', self.g.fn.dem):
                continue      # the name of the program
            # the value may be handed on or checked against NULL
            okay = s is not None and s + c <= -1
            if not okay and self.nullchecked(i, k):
                okay = True
            o.decide(okay, 'args', '%s:%s' % (self.what, self.near(k, j, x)), i.get('loc'), 'an argument is looked at although there may be none left', sample='%s: %s' % (self.what, self.near(k, j, x)))

    def near(self, k, j, x):
        """the option this belongs to"""
        g = self.g
        i = g.blocks[k][j]
        for b in [g.blocks[k]] + [g.blocks[p] for p in g.pred.get(k, [])]:
            for q in b:
                if q['op'] == 'call' and short(q['callee']) in ('strcmp', 'std::operator==') and any(a.startswith('s:') for a in q['args']):
                    return next(a[2:] for a in q['args'] if a.startswith('s:')) + ('' if i in b and 'id' in i and i['id'] in q['args'] else ' value')
        return 'argument'

    def nullchecked(self, i, k):
        """is it only compared with NULL before anything else?"""
        g = self.g
        return any(q['op'] == 'icmp' and i['id'] in (q['a'], q['b']) and 'null' in (q['a'], q['b']) for q in g.blocks[k])


# ---- reading characters ends when there are none left -------------------------

class Eof:
    """follow the end of the input round a loop that reads characters"""

    def __init__(self, g, o, what):
        self.g, self.o, self.what = g, o, what

    def run(self):
        g = self.g
        for k in sorted(g.live):
            for j, i in enumerate(g.blocks[k]):
                if i['op'] == 'call' and (GETC.match(i['callee']) or i['callee'] == 'fgets') and 'id' in i and any(k in l['set'] for l in g.fn.loops.values()):
                    loops = sorted((l for l in g.fn.loops.values() if k in l['set']), key=lambda l: len(l['set']))
                    bad = self.stuck(k, j, i, loops[0]['set'])
                    self.o.decide(not bad, 'eof', '%s:%s' % (i.get('in') or self.what, rel(i.get('loc')).split(':')[0]), i.get('loc'), 'at the end of the input this is read for ever', sample='%s: the loop around %s ends with the input' % (self.what, rel(i.get('loc'))))

    def stuck(self, k, j, i, loop):
        """with the end of the input read, is there no way out of the loop?"""
        g = self.g
        end = -1 if GETC.match(i['callee']) else 0
        seen = set()
        todo = [(k, None, j, frozenset([(i['id'], end)]))]
        while todo:
            b, frm, start, env = todo.pop()
            if (b, frm, env) in seen:
                continue
            seen.add((b, frm, env))
            e = dict(env)
            if frm is not None:
                new = {}
                for p in g.blocks[b]:
                    if p['op'] != 'phi':
                        break
                    for q, v in p['in_']:
                        if q == frm:
                            x = self.ev(v, e)
                            new[p['id']] = x
                for a, x in new.items():
                    if x is None:
                        e.pop(a, None)
                    else:
                        e[a] = x
            again = False
            for q in g.blocks[b][start:] if frm is None else g.blocks[b]:
                if q['op'] == 'call' and (NORETURN.match(q['callee']) or q['callee'] in g.gone):
                    return False
                if frm is not None and q is i:
                    again = True
                    e[i['id']] = end
                elif 'id' in q and q['op'] != 'phi' and q is not i:
                    e.pop(q['id'], None)
            t = g.blocks[b][-1]
            if t['op'] == 'ret':
                return False
            nxt = list(g.succ[b])
            if t['op'] == 'br' and 'cond' in t and len(nxt) == 2:
                x = self.ev(t['cond'], e)
                if x is not None:
                    nxt = [nxt[0] if x else nxt[1]]
            elif t['op'] == 'switch':
                x = self.ev(t.get('cond', t.get('val', '')), e)
                if x is not None:
                    hit = [y for c, y in t['cases'] if (int(str(c).replace('i:', '')) - x) % 2 ** 32 == 0]
                    nxt = [hit[0] if hit else t['default']]
            elif t['op'] not in ('br', 'switch') and not nxt:
                return False
            for s in nxt:
                if s not in loop:
                    return False
                todo.append((s, b, 0, frozenset(e.items())))
        return True

    def ev(self, v, e, depth=0):
        if v in e:
            return e[v]
        if v.startswith('i:'):
            return int(v[2:])
        if v == 'null':
            return 0
        i = self.g.defs.get(v)
        if i is None or depth > 8:
            return None
        if i['op'] == 'cast':
            x = self.ev(i['a'], e, depth + 1)
            if x is None:
                return None
            if i['kind'] == 'trunc':
                m = re.match(r'i(\d+)', i.get('ty', ''))
                n = int(m.group(1)) if m else 64
                x &= (1 << n) - 1
                return x - (1 << n) if n > 1 and x >> (n - 1) else x
            if i['kind'] == 'zext':
                m = re.match(r'i(\d+)', i.get('from', ''))
                return x & ((1 << int(m.group(1))) - 1) if m else x
            return x
        if i['op'] == 'icmp':
            a, b = self.ev(i['a'], e, depth + 1), self.ev(i['b'], e, depth + 1)
            if a is None or b is None:
                return None
            u = 2 ** 64
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b,
                        'ult': a % u < b % u, 'ugt': a % u > b % u, 'ule': a % u <= b % u, 'uge': a % u >= b % u}[i['pred']])
        if i['op'] == 'bin' and i['kind'] in ('xor', 'and', 'or', 'add', 'sub'):
            a, b = (self.ev(x, e, depth + 1) for x in i['ops'])
            if a is None or b is None:
                return None
            r = {'xor': a ^ b, 'and': a & b, 'or': a | b, 'add': a + b, 'sub': a - b}[i['kind']]
            return r & 1 if i.get('ty') == 'i1' else r
        return None


# ---- the check ------------------------------------------------------------------

CTYPE = re.compile(r'\(([^()]*, )?int, (char|char const)(\*\*| const\*\*|\*\*)[,)]|\(int, char const\*\*|\(int, char\*\*')


def wanted(f):
    if f['name'].startswith(('std::', 'boost::', '__gnu_cxx')):
        return False
    if any(SCAN.match(k['to']) or EXTRACT.search(k['to']) or GETC.match(k['to']) or STRTO.search(k['to']) or TOKVEC.search(k['to']) or k['to'] in ('fgets', 'fread') for k in f['calls']):
        return True
    return bool(CTYPE.search(f['name'])) or re.match(r'main($|\()', f['name']) is not None


def neverback(bcs, fns):
    """functions with any number of arguments (they are not inlined) that do not return"""
    names = {i['callee'] for f in fns for i in f.instrs() if i['op'] == 'call' and 'vararg' in i and i.get('defined') and not NORETURN.match(i['callee'])}
    out = set()
    if names:
        for f in vf.graphs(bcs, ['^' + re.escape(x) + '$' for x in sorted(names)], MARKS):
            g = G(f)
            if not any(g.blocks[k] and g.blocks[k][-1]['op'] == 'ret' for k in g.live):
                out.add(f.dem)
    return out


def unit(j):
    """one file: the functions in it that read"""
    src, bcs, names = j
    o = srch.Out()
    n = 0
    fns = vf.graphs(bcs, ['^' + re.escape(x) + '$' for x in names], MARKS)
    gone = neverback(bcs, fns)
    for fn in fns:
        g = G(fn, gone)
        what = units.generic(fn.dem) if hasattr(units, 'generic') else generic(fn.dem)
        if what == 'main':
            what = os.path.relpath(src, vf.REPO)[:-3] + ':main'
        n += 1
        Reads(g, o, what).run()
        Eof(g, o, what).run()
        Index(g, o, what).run()
        a = argpair(fn)
        if a and (CTYPE.search(fn.dem) or fn.dem.startswith('main')):
            Args(g, o, what, *a).run()
    o.r.append(('tag', ('functions', os.path.relpath(src, vf.REPO), n)))
    return o.done()


def generic(n):
    from p_files import generic as gen
    return gen(n)


def work():
    """[(file, bitcode, functions)], every function once"""
    seen, out = set(), []
    bcs = dict(units.unit_bcs())
    for src, fns in units.calls():
        L = []
        for f in fns:
            if not wanted(f):
                continue
            # of a template one instance for the whole repository
            k = (f['name'], src) if re.match(r'main($|\()', f['name']) else re.sub(r'<.*>', '', f['name']) if '<' in f['name'].split('(')[0] else (f['name'], f['file'])
            if k in seen:
                continue
            seen.add(k)
            L.append(f['name'])
        if L and bcs.get(src):
            out.append((src, [bcs[src]], L))
    return out


def members(j):
    """one directory: where its members choose elements"""
    what, bcs, names, want = j
    o = srch.Out()
    for fn in vf.graphs(bcs, ['^' + re.escape(x) + '$' for x in names], MARKS):
        Index(G(fn), o, generic(fn.dem)).members(want)
    o.r = list(dict.fromkeys(o.r))
    return o.done()


def P14(pid, tier):
    c = vf.Check(pid, tier,
        'Dataflow over the inlined LLVM IR of every function that reads a file or the command line: the result of each read is followed as the finite set of values it can still have, '
        'and what was read may be used only where that set is "everything was read"; available difference facts (a <= b + k, from comparisons, killed by writes) decide that an index from a file, '
        'a field of a line and an argument are inside what they index; at the end of the input every loop that reads characters is followed to its exit',
        ['sizes read from a file are taken as they are (they only choose how much is allocated and read)',
         'data files written by the programs themselves have the fields of their rows',
         'numbers parsed from command line options are not indices',
         'text read with >> into a string has a value even when the read failed'],
        'finite-value typestate and difference-fact dataflow')
    n = 0
    for r in vf.pmap(unit, work()):
        c.absorb(r)
    fns = sum(t[2] for t in c.tags if t[0] == 'functions')
    stored = {}
    for t in c.tags:
        if t[0] == 'stored':
            stored.setdefault(t[1:3], t[3])
    for t in c.tags:
        if t[0] == 'size':
            stored.pop(t[1:3], None)
    guard = {t[1:3] for t in c.tags if t[0] == 'guard'}
    js = []
    for what, bcs, names in jobs():
        if any(loc.startswith(what if '/' not in what or os.path.isdir(os.path.join(vf.REPO, what)) else os.path.dirname(what)) for loc in stored.values()):
            js.append((what, bcs, [x for x in names if not re.match(r'.*\b(getsearch|searchGet)<', x) and '<' not in x.split('(')[0]], set(stored)))
    for r in vf.pmap(members, js):
        c.absorb(r)
    for t in sorted(t for t in c.tags if t[0] == 'chosen'):
        k, m, where, loc, ok = t[1:]
        c.decide(ok or (k, m) in guard, 'index', '%s.%s:stored' % (k, m), os.path.join(vf.REPO, loc.split(':')[0]) + ':' + loc.split(':')[-1],
                 '%s of %s is read from a file (%s) and chooses an element here; nothing checks it against the number of elements' % (m, k, stored[(k, m)]), sample='%s.%s is checked' % (k, m))
    for t in c.tags:
        if t[0] == 'undecided':
            c.count('reads not decided', 1)
    c.count('functions that read', fns)
    c.count('members that keep numbers from files', len(stored))
    c.atleast('read', 20)
    c.atleast('eof', 8)
    c.atleast('args', 150)
    return c.finish()

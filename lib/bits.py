"""Where every bit comes from: abstract interpretation over bit provenance.

Memory is a set of objects of bytes; every bit is a constant, a bit of an
object's original content, or an opaque term.  Loops whose bounds are constants
are unrolled; at a branch that is not decided the two sides are either followed
separately (`fork`) or joined again at the immediate post-dominator."""
import re
from flow import NORETURN, short


class Undecided(Exception):
    pass


class T(tuple):
    """a term, shared and with its hash remembered"""

    def __hash__(self):
        h = self.__dict__.get('h')
        if h is None:
            h = self.__dict__['h'] = tuple.__hash__(self)
        return h

    def __eq__(self, o):
        return self is o or (isinstance(o, tuple) and len(self) == len(o) and hash(self) == hash(o) and tuple.__eq__(self, o))

    def __ne__(self, o):
        return not self == o


_all = {}


def mk(*a):
    t = T(a)
    r = _all.setdefault(t, t)
    if r is t:
        t.__dict__['i'] = len(_all)
    return r


def before(a, b):
    """some fixed order of two terms"""
    if isinstance(a, T) and isinstance(b, T):
        return a.__dict__.get('i', 0) <= b.__dict__.get('i', 0)
    return repr(a) <= repr(b)


W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'double': 64, 'float': 32}


def width(ty):
    if ty in W:
        return W[ty]
    if ty == 'ptr':
        return 64
    raise Undecided('type ' + ty)


def num(v, w):
    return ('n', tuple((v >> k) & 1 for k in range(w)))


def isnum(v):
    return v[0] == 'n' and all(b in (0, 1) for b in v[1])


def uns(v):
    return sum(b << k for k, b in enumerate(v[1]))


def sgn(v):
    n = uns(v)
    return n - (1 << len(v[1])) if v[1][-1] else n


def neg(b):
    if b in (0, 1):
        return 1 - b
    return b[1] if b[0] == '~' else mk('~', b)


def ite(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    if (a, b) == (1, 0):
        return c
    if (a, b) == (0, 1):
        return neg(c)
    if c[0] == '~':
        return mk('ite', c[1], b, a)
    return mk('ite', c, a, b)


def bits(v, w=None):
    if v[0] == 'n':
        return v[1]
    if v[0] == 't':
        return tuple(mk('of', v, k) for k in range(v[1]))
    if v[0] == 'p':
        if v[1] is None and v[2] == 0:
            return (0,) * 64
        return tuple(mk('of', v, k) for k in range(64))
    raise Undecided('bits of %r' % (v[0],))


def unbits(bs):
    """the value whose bits these are"""
    b = bs[0]
    if isinstance(b, tuple) and b[0] == 'of' and b[2] == 0 and (b[1][0] == 'p' and len(bs) == 64 or b[1][0] == 't' and b[1][1] == len(bs)):
        if all(x == mk('of', b[1], k) for k, x in enumerate(bs)):
            return b[1]
    return ('n', tuple(bs))


def itev(c, a, b):
    if a == b:
        return a
    if a[0] == 't' or b[0] == 't':
        w = a[1] if a[0] == 't' else b[1]
        return mk('t', w, ite(c, a, b)) if isinstance(w, int) else ('n', tuple(ite(c, x, y) for x, y in zip(bits(a), bits(b))))
    return unbits([ite(c, x, y) for x, y in zip(bits(a), bits(b))])


def eqbit(a, b):
    """the bit 'a and b are the same'"""
    for v, o in ((a, b), (b, a)):
        if v[0] == 't' and isinstance(v[2], tuple) and v[2][0] == 'memcmp' and isnum(o) and uns(o) == 0:
            return eqbit(v[2][1], v[2][2])
        if v[0] == 't' and isinstance(v[2], tuple) and v[2][0] == 'sub' and isnum(o) and uns(o) == 0:
            return eqbit(v[2][1], v[2][2])
    if a[0] == 'p' and b[0] == 'p':
        if a == b:
            return 1
        if a[1] is None or b[1] is None:
            return 0
    x, y = bits(a), bits(b)
    pairs = []
    for p, q in zip(x, y):
        if p == q:
            continue
        if p in (0, 1) and q in (0, 1):
            return 0
        if q in (0, 1):
            p, q = q, p
        if p == 0 and isinstance(q, tuple) and q[0] == 'xor':
            p, q = q[1], q[2]
        if p in (0, 1):
            pairs.append((q, p))
        elif q in (0, 1):
            pairs.append((p, q))
        else:
            pairs.append((p, q) if before(p, q) else (q, p))
    if not pairs:
        return 1
    if len(pairs) == 1 and pairs[0][1] in (0, 1):
        return pairs[0][0] if pairs[0][1] else neg(pairs[0][0])
    return mk('eq', frozenset(pairs))


class State:
    __slots__ = ('env', 'mem', 'cond', 'log', 'n')

    def __init__(self):
        self.env, self.mem, self.cond, self.log, self.n = {}, {}, {}, [], 0

    def copy(self):
        s = State()
        s.env, s.cond, s.log, s.n = dict(self.env), dict(self.cond), list(self.log), self.n
        s.mem = {o: dict(m) for o, m in self.mem.items()}
        return s

    def truth(self, b):
        if b in (0, 1):
            return b
        if b in self.cond:
            return self.cond[b]
        n = neg(b)
        if n in self.cond:
            return 1 - self.cond[n]
        return None

    def rd(self, o, off):
        """the 8 bits of one byte"""
        m = self.mem.get(o)
        if m is not None and off in m:
            return m[off]
        if o is not None and o[0] == 'loc':
            return tuple(mk('undef', o, off, k) for k in range(8))
        return tuple(mk('in', o, off, k) for k in range(8))

    def wr(self, o, off, bs):
        m = self.mem.setdefault(o, {})
        for k in range(0, len(bs), 8):
            m[off + k // 8] = tuple(bs[k:k + 8])


def fcmp(pred, a, b):
    f = [float(x[2][1]) if x[0] == 't' and x[2][:1] == ('d',) else None for x in (a, b)]
    if None in f or f[0] != f[0] or f[1] != f[1]:
        return mk('fcmp', pred, a, b)
    return int({'lt': f[0] < f[1], 'gt': f[0] > f[1], 'le': f[0] <= f[1], 'ge': f[0] >= f[1], 'eq': f[0] == f[1], 'ne': f[0] != f[1]}.get(pred[1:], pred == 'ord'))


class Interp:
    def __init__(self, fn, mode='fork', call=None, assume=None, symstore=None, maxpaths=600, maxsteps=400000):
        self.symstore = symstore
        self.fn, self.mode, self.call = fn, mode, call
        self.assume = assume or (lambda b: b)      # what is known about original bits
        self.maxpaths, self.steps, self.maxsteps = maxpaths, 0, maxsteps
        self.out = []           # (State, return value)
        self.ipd = None

    # ---- values
    def val(self, st, s, ty=None):
        if s[:1] == '%':
            k = s[1:]
            if int(k) < len(self.fn.args):
                return st.env.get(s) or ('p', ('arg', int(k)), 0)
            if s not in st.env:
                raise Undecided('value %s' % s)
            return st.env[s]
        if s.startswith('i:'):
            return ('k', int(s[2:]))
        if s.startswith('d:'):
            return mk('t', 64, ('d', s[2:]))
        if s == 'null':
            return ('p', None, 0)
        if s == 'undef':
            st.n += 1
            return mk('t', None, ('undef', st.n))
        if s.startswith('@g:') or s.startswith('s:'):
            return ('p', ('glob', s), 0)
        if s.startswith(('@f:', '@e:', '@c:', '@k:')):
            return ('p', ('const', s), 0)
        if s == 'zero':
            return ('k', 0)
        raise Undecided('value ' + s)

    def get(self, st, s, w):
        v = self.val(st, s)
        if v[0] == 'k':
            return num(v[1] & ((1 << w) - 1), w)
        if v[0] == 't' and v[1] is None:
            return mk('t', w, v[2])
        return v

    def load(self, st, p, w):
        nb = (w + 7) // 8
        if p[0] != 'p':
            raise Undecided('load from %r' % (p[0],))
        if isinstance(p[2], tuple):
            return mk('t', w, ('ld', p[1], p[2], self.version(st, p[1])))
        bs = []
        for k in range(nb):
            bs += st.rd(p[1], p[2] + k)
        bs = [self.assume(b) for b in bs]
        return unbits(bs[:w])

    def version(self, st, o):
        return len(st.mem.get(o, ()))

    def store(self, st, p, v):
        if p[0] != 'p':
            raise Undecided('store to %r' % (p[0],))
        if isinstance(p[2], tuple):
            if self.symstore and self.symstore(self, st, p, v):
                return
            st.n += 1
            for k in st.mem.get(p[1], {}):
                st.mem[p[1]][k] = tuple(mk('hv', st.n, k, j) for j in range(8))
            st.log.append(('havoc', p[1]))
            return
        b = bits(v)
        if len(b) % 8:
            b = tuple(b) + (0,) * (8 - len(b) % 8)
        st.wr(p[1], p[2], b)
        st.log.append(('store', p[1], p[2], len(b) // 8))

    def asptr(self, v):
        if v[0] == 'p':
            return v
        if v[0] == 'n':
            b = v[1]
            if isinstance(b[0], tuple) and b[0][0] == 'in' and b[0][3] == 0:
                o, off = b[0][1], b[0][2]
                if all(x == ('in', o, off + k // 8, k % 8) for k, x in enumerate(b)):
                    return ('p', ('deref', o, off), 0)
            if isnum(v) and uns(v) == 0:
                return ('p', None, 0)
        return ('p', ('unk', v), 0)

    def binop(self, k, a, b):
        w = len(bits(a))
        if a[0] == 'n' and b[0] == 'n':
            if isnum(a) and isnum(b):
                x, y = uns(a), uns(b)
                m = (1 << w) - 1
                if k == 'add': return num((x + y) & m, w)
                if k == 'sub': return num((x - y) & m, w)
                if k == 'mul': return num((x * y) & m, w)
                if k == 'and': return num(x & y, w)
                if k == 'or': return num(x | y, w)
                if k == 'xor': return num(x ^ y, w)
                if k == 'shl' and y < w: return num((x << y) & m, w)
                if k == 'lshr' and y < w: return num(x >> y, w)
                if k == 'ashr' and y < w: return num((sgn(a) >> y) & m, w)
                if k == 'udiv' and y: return num(x // y, w)
                if k == 'urem' and y: return num(x % y, w)
                if k == 'sdiv' and y: return num(int(sgn(a) / sgn(b)) & m, w)
                if k == 'srem' and y: return num((sgn(a) - int(sgn(a) / sgn(b)) * sgn(b)) & m, w)
        x, y = bits(a), bits(b)
        if k == 'mul' and (isnum(a) or isnum(b)):
            if isnum(a):
                a, b, x, y = b, a, y, x
            n = uns(b)
            if n and n & (n - 1) == 0:
                k, b = 'shl', num(n.bit_length() - 1, w)
        if k in ('udiv', 'urem') and isnum(b):
            n = uns(b)
            if n and n & (n - 1) == 0:
                if k == 'udiv':
                    k, b = 'lshr', num(n.bit_length() - 1, w)
                else:
                    k, b = 'and', num(n - 1, w)
                y = bits(b)
        if k == 'and':
            return unbits([0 if 0 in (p, q) else p if q == 1 or p == q else q if p == 1 else mk('and', p, q) for p, q in zip(x, y)])
        if k == 'or' or k in ('add', 'xor') and all(p == 0 or q == 0 for p, q in zip(x, y)):
            return unbits([1 if 1 in (p, q) else p if q == 0 or p == q else q if p == 0 else mk('or', p, q) for p, q in zip(x, y)])
        if k == 'xor':
            return unbits([p if q == 0 else q if p == 0 else 0 if p == q else neg(p) if q == 1 else neg(q) if p == 1 else mk('xor', p, q) for p, q in zip(x, y)])
        if k == 'shl' and isnum(b) and uns(b) < w:
            n = uns(b)
            return unbits([0] * n + list(x[:w - n]))
        if k in ('lshr', 'ashr') and isnum(b) and uns(b) < w:
            n = uns(b)
            return unbits(list(x[n:]) + [0 if k == 'lshr' else x[-1]] * n)
        if k in ('add', 'mul') and a != b and not before(mk('v', a), mk('v', b)):
            a, b = b, a
        if k in ('add', 'sub') and isnum(b) and uns(b) == 0:
            return a
        if k == 'add' and isnum(a) and uns(a) == 0:
            return b
        return mk('t', w, (k, a, b))

    def icmp(self, pred, a, b):
        if pred in ('eq', 'ne'):
            e = eqbit(a, b)
            return ('n', (e if pred == 'eq' else neg(e),))
        if isnum(a) and isnum(b):
            x, y = (sgn(a), sgn(b)) if pred[0] == 's' else (uns(a), uns(b))
            r = dict(lt=x < y, le=x <= y, gt=x > y, ge=x >= y)[pred[1:]]
            return num(int(r), 1)
        # against a power of two: are the bits above it clear?
        if pred in ('sgt', 'sge', 'slt', 'sle') and isnum(b) and (pred, sgn(b)) in (('sgt', -1), ('sge', 0), ('slt', 0), ('sle', -1)):
            t = bits(a)[-1]
            return ('n', (t if pred in ('slt', 'sle') else neg(t),))
        if pred[0] == 'u' or bits(a)[-1] == 0 and bits(b)[-1] == 0:
            x, y, p = a, b, pred[1:]
            if isnum(x):
                x, y, p = y, x, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[p]
            if isnum(y):
                n = uns(y) + (p in ('le', 'gt'))
                if n and n & (n - 1) == 0:
                    k = n.bit_length() - 1
                    hi = bits(x)[k:]
                    e = eqbit(('n', hi), ('n', (0,) * len(hi))) if hi else 1
                    return ('n', (e if p in ('lt', 'le') else neg(e),))
        # what the known leading zeroes say
        if pred[0] == 'u' or bits(a)[-1] == 0 and bits(b)[-1] == 0:
            lo = [sum(1 << k for k, t in enumerate(bits(v)) if t == 1) for v in (a, b)]
            hi = [sum(1 << k for k, t in enumerate(bits(v)) if t != 0) for v in (a, b)]
            p = pred[1:]
            if p in ('gt', 'ge'):
                lo, hi, p = lo[::-1], hi[::-1], {'gt': 'lt', 'ge': 'le'}[p]
            if p == 'lt':
                if hi[0] < lo[1]:
                    return num(1, 1)
                if lo[0] >= hi[1]:
                    return num(0, 1)
            else:
                if hi[0] <= lo[1]:
                    return num(1, 1)
                if lo[0] > hi[1]:
                    return num(0, 1)
        return ('n', (mk('cmp', pred, a, b),))

    # ---- control
    def run(self, st, b=0, prev=None, stop=None):
        """follow the function from block b; the state that reaches `stop` (if any)"""
        fn = self.fn
        while True:
            blk = fn.blocks[b]
            phis = {}
            for i in blk:
                if i['op'] != 'phi':
                    break
                w = width(i['ty'])
                for pb, v in i['in_']:
                    if pb == prev:
                        phis[i['id']] = self.get(st, v, w)
                        break
            st.env.update(phis)
            if b == stop:
                return st
            nxt = None
            for i in blk:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Undecided('too long')
                o = i['op']
                if o == 'phi':
                    continue
                if o == 'ret':
                    v = None
                    if 'val' in i:
                        v = self.val(st, i['val'])
                    self.out.append((st, v))
                    if len(self.out) > self.maxpaths:
                        raise Undecided('too many paths')
                    return None
                if o == 'unreachable':
                    return None
                if o == 'br':
                    if 'cond' not in i:
                        nxt = i['succ'][0]
                        continue
                    c = self.get(st, i['cond'], 1)
                    nxt = self.branch(st, b, bits(c)[0], i['succ'], stop)
                    if nxt is None:
                        return None
                    if isinstance(nxt, State):
                        return nxt
                    if isinstance(nxt, tuple):
                        st, b = nxt
                        nxt = ('joined', b)
                    continue
                if o == 'invoke':
                    nxt = i['succ'][0]
                    continue
                if o == 'switch':
                    raise Undecided('switch')
                if self.instr(st, i) is False:
                    return None
            if nxt is None:
                return None
            if isinstance(nxt, tuple):
                # states joined at this block; its phis are evaluated already
                r = self.after(st, nxt[1], stop)
                if r is None or isinstance(r, State):
                    return r
                st, prev, b = r
                continue
            prev, b = b, nxt

    def after(self, st, b, stop):
        """continue in block b, whose phis have their values"""
        if b == stop:
            return st
        blk = self.fn.blocks[b]
        for i in blk:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Undecided('too long')
            o = i['op']
            if o == 'phi':
                continue
            if o == 'ret':
                self.out.append((st, self.val(st, i['val']) if 'val' in i else None))
                return None
            if o == 'unreachable':
                return None
            if o == 'invoke':
                return st, b, i['succ'][0]
            if o == 'br':
                if 'cond' not in i:
                    return st, b, i['succ'][0]
                nxt = self.branch(st, b, bits(self.get(st, i['cond'], 1))[0], i['succ'], stop)
                if nxt is None or isinstance(nxt, State):
                    return nxt
                if isinstance(nxt, tuple):
                    return self.after(nxt[0], nxt[1], stop)
                return st, b, nxt
            if o == 'switch':
                raise Undecided('switch')
            if self.instr(st, i) is False:
                return None
        return None

    def branch(self, st, b, c, succ, stop):
        t = st.truth(c)
        if t is not None:
            return succ[0] if t else succ[1]
        if self.mode == 'fork':
            o = st.copy()
            o.cond[c] = 0
            st.cond[c] = 1
            r1 = self.run(st, succ[0], b, stop)
            r2 = self.run(o, succ[1], b, stop)
            if r1 is not None or r2 is not None:
                raise Undecided('fork inside a join')
            return None
        j = self.ipdom(b)
        o = st.copy()
        o.cond[c] = 0
        st.cond[c] = 1
        if j is None:
            self.run(st, succ[0], b, None)
            self.run(o, succ[1], b, None)
            return None
        r1 = self.run(st, succ[0], b, j)
        r2 = self.run(o, succ[1], b, j)
        if r1 is None or r2 is None:
            r = r1 or r2
            return None if r is None else (r, j)
        return (self.join(c, r1, r2), j)

    def join(self, c, a, b):
        s = State()
        s.n = max(a.n, b.n) + 1
        s.cond = {k: v for k, v in a.cond.items() if b.cond.get(k) == v}
        s.log = a.log + [x for x in b.log if x not in a.log]
        for k in a.env:
            if k in b.env:
                try:
                    s.env[k] = itev(c, a.env[k], b.env[k])
                except Undecided:
                    pass
        for o in set(a.mem) | set(b.mem):
            ks = set(a.mem.get(o, ())) | set(b.mem.get(o, ()))
            s.mem[o] = {}
            for k in ks:
                x, y = a.rd(o, k), b.rd(o, k)
                s.mem[o][k] = x if x == y else tuple(ite(c, p, q) for p, q in zip(x, y))
            # whole values keep their shape
        return s

    def ipdom(self, b):
        if self.ipd is None:
            fn = self.fn
            n = len(fn.blocks)
            succs = [[s for s in fn.succs(k)] for k in range(n)]
            # a side that cannot return does not count
            live = {k for k in range(n) if fn.blocks[k] and fn.blocks[k][-1]['op'] == 'ret'}
            ch = True
            while ch:
                ch = False
                for k in range(n):
                    if k not in live and any(s in live for s in succs[k]):
                        live.add(k)
                        ch = True
            full = set(live)
            pd = {k: ({k} if fn.blocks[k] and fn.blocks[k][-1]['op'] == 'ret' else set(full)) for k in live}
            ch = True
            while ch:
                ch = False
                for k in live:
                    ss = [s for s in succs[k] if s in live]
                    if not ss:
                        continue
                    new = set.intersection(*[pd[s] for s in ss]) | {k}
                    if new != pd[k]:
                        pd[k] = new
                        ch = True
            self.ipd = {}
            for k in live:
                c = pd[k] - {k}
                self.ipd[k] = next((x for x in c if pd[x] == c), None)
        return self.ipd.get(b)

    # ---- instructions
    def instr(self, st, i):
        o = i['op']
        if o == 'alloca':
            st.env[i['id']] = ('p', ('loc', i['id'], i.get('nm', '')), 0)
            return
        if o == 'load':
            w = width(i['ty'])
            v = self.load(st, self.asptr(self.val(st, i['ptr'])), w)
            st.log.append(('load', self.asptr(self.val(st, i['ptr'])), w))
            st.env[i['id']] = self.asptr(v) if i['ty'] == 'ptr' else v
            return
        if o == 'store':
            self.store(st, self.asptr(self.val(st, i['ptr'])), self.get(st, i['val'], width(i['vty'])))
            return
        if o == 'gep':
            p = self.asptr(self.val(st, i['base']))
            if 'off' not in i:
                raise Undecided('address')
            off, syms = i['off'], []
            for v, k in i.get('vars', []):
                x = self.val(st, v)
                if isnum(x):
                    off += sgn(x) * k
                else:
                    syms.append((x, k))
            if isinstance(p[2], tuple):
                syms = list(p[2][1]) + syms
                off += p[2][0]
            else:
                off += p[2]
            st.env[i['id']] = ('p', p[1], (off, tuple(syms)) if syms else off)
            return
        if o in ('icmp', 'fcmp'):
            a, b = self.val(st, i['a']), self.val(st, i['b'])
            w = next((len(bits(v)) for v in (a, b) if v[0] in ('n', 'p') or v[0] == 't' and v[1]), 32)
            a, b = self.get(st, i['a'], w), self.get(st, i['b'], w)
            st.env[i['id']] = self.icmp(i['pred'], a, b) if o == 'icmp' else ('n', (fcmp(i['pred'], a, b),))
            return
        if o == 'bin':
            w = width(i['ty'])
            a, b = (self.get(st, x, w) for x in i['ops'])
            st.env[i['id']] = mk('t', w, (i['kind'], a, b)) if i['ty'] in ('double', 'float') else self.binop(i['kind'], a, b)
            return
        if o == 'cast':
            k = i['kind']
            w = width(i['ty'])
            fw = width(i.get('from', i['ty']))
            a = self.get(st, i['a'], fw)
            if k == 'zext':
                st.env[i['id']] = unbits(list(bits(a)) + [0] * (w - fw))
            elif k == 'sext':
                st.env[i['id']] = unbits(list(bits(a)) + [bits(a)[-1]] * (w - fw))
            elif k == 'trunc':
                st.env[i['id']] = unbits(list(bits(a))[:w])
            elif k in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                st.env[i['id']] = self.asptr(a) if i['ty'] == 'ptr' else a
            else:
                st.env[i['id']] = mk('t', w, (k, a))
            return
        if o == 'select':
            w = width(i['ty'])
            c = bits(self.get(st, i['cond'], 1))[0]
            a, b = self.get(st, i['a'], w), self.get(st, i['b'], w)
            t = st.truth(c)
            st.env[i['id']] = a if t == 1 else b if t == 0 else itev(c, a, b)
            return
        if o == 'call':
            return self.docall(st, i)
        if o == 'other':
            m = re.match(r'extractvalue\.(\d+)$', i['kind'])
            if m and i['ops'][0][:1] == '%' and st.env.get(i['ops'][0], ('',))[0] == 'agg':
                st.env[i['id']] = st.env[i['ops'][0]][1][int(m.group(1))]
                return
            m = re.match(r'insertvalue\.(\d+)$', i['kind'])
            if m and '{' in i['ty'] and '{' not in i['ty'][1:]:
                tys = [x.strip() for x in i['ty'].strip('{} ').split(',')]
                old = st.env.get(i['ops'][0], ('',))
                vs = list(old[1]) if old[0] == 'agg' else [None] * len(tys)
                vs[int(m.group(1))] = self.get(st, i['ops'][1], width(tys[int(m.group(1))]))
                st.env[i['id']] = ('agg', tuple(vs))
                return
            st.n += 1
            if 'id' in i:
                st.env[i['id']] = mk('t', None, ('other', st.n))
            return
        raise Undecided(o)

    def docall(self, st, i):
        n = i['callee']
        if i.get('noreturn') or NORETURN.match(short(n)):
            return False
        args = []
        for a, ty in zip(i['args'], i['aty']):
            if ty in W or ty == 'ptr':
                args.append(self.get(st, a, width(ty)))
            else:
                args.append(None)
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
            if n.startswith('llvm.lifetime.start') and args[-1] and args[-1][0] == 'p':
                st.mem.pop(args[-1][1], None)
            return
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or short(n) in ('memcpy', 'memmove'):
            d, s, ln = self.asptr(args[0]), self.asptr(args[1]), args[2]
            if not isnum(ln) or isinstance(d[2], tuple) or isinstance(s[2], tuple):
                raise Undecided('copy of unknown size')
            c = [tuple(self.assume(x) for x in st.rd(s[1], s[2] + k)) for k in range(uns(ln))]
            st.log.append(('load', s, 8 * uns(ln)))
            for k, x in enumerate(c):
                st.wr(d[1], d[2] + k, x)
            st.log.append(('store', d[1], d[2], uns(ln)))
            if 'id' in i:
                st.env[i['id']] = d
            return
        if n.startswith('llvm.memset') or short(n) == 'memset':
            d, ln = self.asptr(args[0]), args[2]
            if not isnum(ln) or isinstance(d[2], tuple):
                raise Undecided('fill of unknown size')
            for k in range(uns(ln)):
                st.wr(d[1], d[2] + k, bits(args[1])[:8])
            st.log.append(('store', d[1], d[2], uns(ln)))
            if 'id' in i:
                st.env[i['id']] = d
            return
        if short(n) in ('memcmp', 'bcmp'):
            a, b, ln = self.asptr(args[0]), self.asptr(args[1]), args[2]
            if isnum(ln) and not isinstance(a[2], tuple) and not isinstance(b[2], tuple):
                x = [t for k in range(uns(ln)) for t in st.rd(a[1], a[2] + k)]
                y = [t for k in range(uns(ln)) for t in st.rd(b[1], b[2] + k)]
                st.log += [('load', a, 8 * uns(ln)), ('load', b, 8 * uns(ln))]
                st.env[i['id']] = mk('t', 32, ('memcmp', ('n', tuple(x)), ('n', tuple(y))))
                return
        r = self.call(self, st, i, short(n), args) if self.call else None
        if r is None:
            st.n += 1
            if not re.match(r'(llvm\.)?(fabs|sqrt|floor|ceil|abs|fmuladd|fmin|fmax|cos|sin|pow)', short(n)):
                for a in args:
                    if a and a[0] == 'p' and a[1] is not None:
                        for k in st.mem.get(a[1], {}):
                            st.mem[a[1]][k] = tuple(mk('hv', st.n, k, j) for j in range(8))
                        st.log.append(('havoc', a[1], n))
                r = mk('t', W.get(i.get('ty'), 64), ('call', n, st.n))
            else:
                r = mk('t', W.get(i.get('ty'), 64), ('fn', n) + tuple(a for a in args if a))
        if 'id' in i:
            if i['ty'] == 'ptr' and r[0] != 'p':
                r = ('p', ('ret', n, st.n), 0)
            st.env[i['id']] = r


def go(fn, mode='fork', mem=None, args=None, **k):
    it = Interp(fn, mode, **k)
    st = State()
    if mem:
        st.mem = {o: dict(m) for o, m in mem.items()}
    if args:
        for n, v in args.items():
            st.env['%%%d' % n] = v
    it.run(st)
    return it.out


def leaves(layouts, name, off=0, pre=''):
    """[(field, offset, size)] of a struct, flattened; paddings left out"""
    out = []
    for f, o, sz, ty in layouts[name]['fields']:
        if f.startswith('#'):
            continue
        m = re.match(r'^%"?([^"]*)"?$', ty)
        nm = pre if f.startswith('<') else (pre + '.' if pre else '') + f
        if m and re.match(r'(class|struct)\.std::(vector|shared_ptr|unique_ptr|basic_string|map|set)\b', m.group(1)):
            out.append((nm, off + o, sz, m.group(1)))
        elif m and m.group(1) in layouts:
            out += leaves(layouts, m.group(1), off + o, nm)
        else:
            out.append((nm, off + o, sz, ty))
    return out


class Containers:
    """std::vector and friends, vectors of a fixed number of elements unless resized"""
    PRIM = {'unsigned int': 4, 'int': 4, 'double': 8, 'float': 4, 'unsigned long': 8, 'long': 8, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2}

    def __init__(self, layouts, size=3, more=None):
        self.layouts, self.n0, self.more = layouts, size, more

    def esz(self, callee):
        m = re.search(r'std::vector<(.*?), std::allocator<', callee) or re.search(r'__normal_iterator<(.*?) ?(?:const)?\*, ', callee) or re.search(r'std::swap<(.*?), std::allocator<', callee)
        if not m:
            return None
        t = m.group(1).replace(' const', '')
        if t in self.PRIM:
            return self.PRIM[t]
        if t.endswith('*'):
            return 8
        for p in ('struct.', 'class.'):
            if p + t in self.layouts:
                return self.layouts[p + t]['size']
        return None

    def key(self, p):
        if p[0] != 'p' or isinstance(p[2], tuple):
            raise Undecided('container')
        return ('vec', p[1], p[2])

    def size(self, st, p):
        k = self.key(p)
        m = st.mem.get(('size',) + k)
        if m:
            return m[0]
        r = k[1]
        while r[0] in ('deref', 'vec'):
            r = r[1]
        if r[0] in ('loc', 'ret'):
            raise Undecided('size of a local container')
        return self.n0

    def setsize(self, st, p, n):
        st.mem[('size',) + self.key(p)] = {0: n}

    def setall(self, st, dst, src):
        """contents and size of one vector := those of another (given as (cells, size))"""
        st.mem[self.key(dst)] = dict(src[0])
        self.setsize(st, dst, src[1])

    def snap(self, st, p, e):
        k, n = self.key(p), self.size(st, p)
        return {b: st.rd(k, b) for b in range(n * e)}, n

    def it(self, it, st, ref):
        return it.asptr(it.load(st, ref, 64))

    def __call__(self, it, st, i, n, args):
        c = i['callee']
        if self.more:
            r = self.more(it, st, i, n, args)
            if r is not None:
                return r
        if c.startswith('std::vector<bool,') or 'std::vector<bool' in c and 'shared_ptr' not in c:
            m = re.search(r'>::(\w+|operator\[\]|operator bool)\(', c)
            what = m.group(1) if m else ''
            if what == 'size':
                return num(self.size(st, args[0]), 64)
            if what in ('at', 'operator[]', 'front', 'back'):
                k = 0 if what == 'front' else self.size(st, args[0]) - 1 if what == 'back' else uns(args[1]) if isnum(args[1]) else None
                if k is None:
                    raise Undecided('index')
                ob = ('vbit', self.key(args[0]), k)
                if i.get('ty') == 'i1':
                    st.log.append(('load', ('p', ob, 0), 1))
                    return ('n', (st.rd(ob, 0)[0],))
                return ('agg', (('p', ob, 0), num(0, 64)))
            return None
        if 'std::_Bit_reference::operator bool' in c:
            p = self.it(it, st, args[0])
            st.log.append(('load', p, 1))
            return ('n', (st.rd(p[1], 0)[0],))
        if re.match(r'std::_Bit_reference::operator==', c) or re.match(r'(bool )?std::operator==\(std::_Bit_reference', c):
            p, q = self.it(it, st, args[0]), self.it(it, st, args[1])
            return ('n', (eqbit(('n', (st.rd(p[1], 0)[0],)), ('n', (st.rd(q[1], 0)[0],))),))
        if re.match(r'(bool )?std::operator==<bool', c) or re.search(r'operator(==|!=)<.*std::vector<bool', c):
            return None
        if re.search(r'shared_ptr(_access)?<', c):
            if re.search(r'::operator(->|\*)\(\) const$|::get\(\) const$', c):
                return it.asptr(it.load(st, args[0], 64))
            if re.search(r'::(operator=|shared_ptr|__shared_ptr)\(std::(__)?shared_ptr<', c) and len(args) == 2:
                for k in range(16):
                    st.wr(args[0][1], args[0][2] + k, st.rd(args[1][1], args[1][2] + k))
                st.log.append(('store', args[0][1], args[0][2], 16))
                return args[0]
            if '~' in c:
                return num(0, 64)
            return None
        e = self.esz(c)
        if '__normal_iterator' in c:
            m = re.search(r'operator(!=|==|\+\+|--|\*|->|-|\+)|::base\(', c)
            w = m.group(0) if m else ''
            if w in ('operator*', 'operator->'):
                return self.it(it, st, args[0])
            if w in ('operator==', 'operator!='):
                a, b = self.it(it, st, args[0]), self.it(it, st, args[1])
                return it.icmp('eq' if w == 'operator==' else 'ne', a, b)
            if w in ('operator++', 'operator--') and e:
                p = self.it(it, st, args[0])
                q = ('p', p[1], p[2] + (e if w == 'operator++' else -e))
                it.store(st, args[0], q)
                return p if '(int)' in c else args[0]
            if w == '::base(':
                return args[0]
            if w in ('operator+', 'operator-') and e and len(args) > 1 and isnum(args[1]):
                p = self.it(it, st, args[0])
                return ('p', p[1], p[2] + sgn(args[1]) * e * (1 if w == 'operator+' else -1))
            return None
        if not e:
            return None
        if re.search(r'std::swap<', c) and len(args) == 2:
            a, b = self.snap(st, args[0], e), self.snap(st, args[1], e)
            self.setall(st, args[0], b)
            self.setall(st, args[1], a)
            for p in args:
                st.log.append(('store', self.key(p), 0, 0))
            return num(0, 64)
        m = re.search(r'>::(~?\w+|operator\[\]|operator=)\(([^()]*(?:\([^()]*\))?[^()]*)\)', c)
        if not m or not c.startswith('std::vector<'):
            if re.search(r'operator(==|!=)<', c) and len(args) == 2:
                a, b = self.snap(st, args[0], e), self.snap(st, args[1], e)
                if a[1] != b[1]:
                    q = 0
                else:
                    q = eqbit(('n', tuple(t for k in sorted(a[0]) for t in a[0][k])), ('n', tuple(t for k in sorted(b[0]) for t in b[0][k])))
                return ('n', (q if 'operator==' in c else neg(q),))
            return None
        w, sig = m.group(1), m.group(2)
        v = args[0]
        k = self.key(v)
        if w == 'size':
            return num(self.size(st, v), 64)
        if w == 'empty':
            return num(int(self.size(st, v) == 0), 1)
        if w in ('operator[]', 'at', 'front', 'back'):
            j = 0 if w == 'front' else self.size(st, v) - 1 if w == 'back' else sgn(args[1]) if isnum(args[1]) else None
            if j is None:
                return ('p', k, (0, ((args[1], e),)))
            if not 0 <= j < self.size(st, v):
                st.log.append(('outside', k, j))
            return ('p', k, j * e)
        if w in ('begin', 'cbegin', 'data'):
            return ('p', k, 0)
        if w in ('end', 'cend'):
            return ('p', k, self.size(st, v) * e)
        if w == '~vector':
            return num(0, 64)
        if w == 'vector':
            if len(args) == 1:
                self.setall(st, v, ({}, 0))
                return num(0, 64)
            if sig.startswith('std::vector<'):
                self.setall(st, v, self.snap(st, args[1], e))
                if sig.rstrip().endswith('&&'):
                    self.setsize(st, args[1], 0)
                return num(0, 64)
            w = 'resize'
        if w == 'operator=' and sig.startswith('std::vector<'):
            self.setall(st, v, self.snap(st, args[1], e))
            st.log.append(('store', k, 0, 0))
            return v
        if w in ('resize', 'assign') and isnum(args[1]):
            n1 = uns(args[1])
            n0 = self.size(st, v) if ('size',) + k in st.mem or k[1][0] != 'loc' else 0
            for b in range(n0 * e, n1 * e):
                st.wr(k, b, (0,) * 8)
            self.setsize(st, v, n1)
            return num(0, 64)
        if w in ('clear',):
            self.setsize(st, v, 0)
            return num(0, 64)
        if w in ('reserve', 'shrink_to_fit', 'capacity'):
            return num(0, 64)
        if w in ('push_back', 'emplace_back') and len(args) == 2:
            n0 = self.size(st, v)
            for b in range(e):
                st.wr(k, n0 * e + b, st.rd(args[1][1], args[1][2] + b))
            self.setsize(st, v, n0 + 1)
            return num(0, 64)
        return None

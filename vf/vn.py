"""Value numbering: numbers as vectors of bit expressions, hash-consed.

A bit is an exclusive-or of bits of atoms; an atom is an input, a sum (kept
linear, modulo its width), a comparison or another operation.  Rotations,
shifts, packing and unpacking of bytes, and commutative sums therefore have
one form each, so that two computations can be compared for equality of what
they compute instead of how they are written.  Memory is by byte, at offsets
which are a constant plus a linear form.
"""
import re
import zlib
from .eng import AnalysisBroken

Z = frozenset()
O = frozenset([1])
NULL = ('P', None, (0, ()))
NORET = {'abort', 'exit', '_exit', '__assert_fail', 'urkel_abort',
         '__urkel_abort', '__urkel_assert_fail'}


def base(name):
    return re.sub(r'\.\d+$', '', name)


class Pool:
    def __init__(self):
        self.ids = {}
        self.keys = []
        self.tid = {}
        self.tup = []

    def atom(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.keys)
            self.keys.append(key)
        return i

    def bits(self, key, w):
        a = self.atom(key)
        return tuple(frozenset([(a, i)]) for i in range(w))

    def id(self, bits):
        i = self.tid.get(bits)
        if i is None:
            i = self.tid[bits] = len(self.tup)
            self.tup.append(bits)
        return i


def K(n, w):
    return tuple(O if n >> i & 1 else Z for i in range(w))


def isk(b):
    return all(x is Z or x is O or x == Z or x == O for x in b)


def kv(b):
    return sum(1 << i for i, x in enumerate(b) if x)


def bxor(a, b):
    return a ^ b


def vxor(a, b):
    return tuple(x ^ y for x, y in zip(a, b))


class Vn:
    """Terms."""

    def __init__(self):
        self.p = Pool()

    # -- bits
    def band(self, a, b):
        if not a or not b:
            return Z
        if a == O:
            return b
        if b == O or a == b:
            return a
        if a ^ b == O:
            return Z
        return self.p.bits(('and', frozenset([a, b])), 1)[0]

    def bor(self, a, b):
        if not a:
            return b
        if not b or a == b:
            return a
        if a == O or b == O or a ^ b == O:
            return O
        return self.p.bits(('or', frozenset([a, b])), 1)[0]

    # -- sums: (constant, {id of bits: coefficient})
    def lin(self, b):
        w = len(b)
        if isk(b):
            return kv(b), {}
        k = self.whole(b)
        if k is not None and k[0] == 'sum':
            return k[2], dict(k[3])
        # shifted to the left
        s = 0
        while s < w and not b[s]:
            s += 1
        if s:
            inner = b[s:] + (Z,) * s
            c, d = self.lin(inner)
            return c << s, {i: x << s for i, x in d.items()}
        return 0, {self.p.id(b): 1}

    def whole(self, b):
        if len(b[0]) != 1:
            return None
        (x,) = b[0]
        if x == 1 or x[1] != 0:
            return None
        a = x[0]
        k = self.p.keys[a]
        if k[0] not in ('sum',) or k[1] != len(b):
            return None
        for i, y in enumerate(b):
            if y != frozenset([(a, i)]):
                return None
        return k

    def unlin(self, c, d, w):
        m = (1 << w) - 1
        c &= m
        d = {i: x & m for i, x in d.items() if x & m}
        if not d:
            return K(c, w)
        if c == 0 and len(d) == 1:
            (i, x), = d.items()
            if x & (x - 1) == 0:
                s = x.bit_length() - 1
                return ((Z,) * s + self.p.tup[i])[:w]
        # operands without common bits
        if c == 0 or True:
            parts = [K(c, w)] if c else []
            for i, x in d.items():
                if x & (x - 1):
                    parts = None
                    break
                s = x.bit_length() - 1
                parts.append(((Z,) * s + self.p.tup[i])[:w])
            if parts is not None:
                out = []
                for col in zip(*parts):
                    n = [y for y in col if y]
                    if len(n) > 1:
                        out = None
                        break
                    out.append(n[0] if n else Z)
                if out is not None:
                    return tuple(out)
        return self.p.bits(('sum', w, c, tuple(sorted(d.items()))), w)

    def add(self, a, b, k=1):
        w = len(a)
        c, d = self.lin(a)
        e, f = self.lin(b)
        d = dict(d)
        for i, x in f.items():
            d[i] = d.get(i, 0) + k * x
        return self.unlin(c + k * e, d, w)

    def mul(self, a, b):
        w = len(a)
        if isk(a):
            a, b = b, a
        if isk(b):
            k = kv(b)
            if isk(a):
                return K(kv(a) * k & (1 << w) - 1, w)
            c, d = self.lin(a)
            return self.unlin(c * k, {i: x * k for i, x in d.items()}, w)
        return self.p.bits(('mul', frozenset([a, b])), w)

    # -- ranges
    def lo(self, b, facts):
        n = sum(1 << i for i, x in enumerate(b) if x == O)
        return max(n, facts.get(('lo', self.strip(b)), 0), self.linr(
            b, facts)[0])

    def hi(self, b, facts):
        n = sum(1 << i for i, x in enumerate(b) if x)
        return min(n, self.linr(b, facts)[1])

    def linr(self, b, facts):
        """range of a sum, if it does not wrap"""
        w = len(b)
        k = self.whole(b) if b else None
        if k is None or k[0] != 'sum':
            return 0, (1 << w) - 1
        lo = hi = k[2]
        for i, x in k[3]:
            t = self.p.tup[i]
            if x >> (w - 1):
                x -= 1 << w
            l, h = self.lo(t, facts), self.hi(t, facts)
            lo += x * (l if x > 0 else h)
            hi += x * (h if x > 0 else l)
        # the constant may stand for a negative one
        m = 1 << w
        if lo >= m // 2 and hi - m >= 0 and lo - m < 0 and k[2] >= m // 2:
            lo -= m; hi -= m
            lo = max(lo, 0) if hi >= 0 and lo >= 0 else lo
        elif k[2] >= m // 2:
            lo -= m; hi -= m
        if lo < 0 or hi >= m:
            return 0, m - 1
        return lo, hi

    def strip(self, b):
        n = len(b)
        while n > 0 and not b[n - 1]:
            n -= 1
        return b[:n]

    def eq(self, a, b, facts):
        if a == b:
            return O
        if any(x ^ y == O for x, y in zip(a, b)):
            return Z
        la, ha = self.lo(a, facts), self.hi(a, facts)
        lb, hb = self.lo(b, facts), self.hi(b, facts)
        if la > hb or lb > ha:
            return Z
        if len(a) == 1:
            return a[0] ^ b[0] ^ O
        d = [x ^ y for x, y in zip(a, b)]
        n = [x for x in d if x]
        if len(n) == 1:
            return n[0] ^ O
        return self.p.bits(('eq', frozenset([self.p.id(self.strip(a)),
                                             self.p.id(self.strip(b))])),
                           1)[0]

    def ult(self, a, b, facts):
        if a == b:
            return Z
        if isk(a) and kv(a) == 0:
            return self.eq(a, b, facts) ^ O
        if isk(b) and kv(b) == 1:
            return self.eq(a, K(0, len(a)), facts)
        la, ha = self.lo(a, facts), self.hi(a, facts)
        lb, hb = self.lo(b, facts), self.hi(b, facts)
        if ha < lb:
            return O
        if la >= hb:
            return Z
        # the carry of a sum
        w = len(a)
        c, d = self.lin(a)
        if len(d) > 0:
            e, f = self.lin(b)
            if (isk(b) or len(f) == 1) and (c or len(d) > 1):
                r = dict(d)
                for i, x in f.items():
                    r[i] = r.get(i, 0) - x
                rest = self.unlin(c - e, r, w)
                if self.weight(rest) < self.weight(a):
                    return self.p.bits(('carry', w, frozenset([rest, b])),
                                       1)[0]
        return self.p.bits(('ult', self.p.id(a), self.p.id(b)), 1)[0]

    def weight(self, b):
        c, d = self.lin(b)
        w = len(b)
        return (1 if c else 0) + len(d)

    def opaque(self, b, ok=('in', 'sum', 'carry')):
        """Kinds of operations a value is made of which have no one form."""
        seen, out = set(), set()
        work = [b]
        while work:
            x = work.pop()
            for bit in x:
                for a in bit:
                    if a == 1 or a[0] in seen:
                        continue
                    seen.add(a[0])
                    k = self.p.keys[a[0]]
                    if k[0] not in ok:
                        out.add(k[0])
                    if k[0] == 'sum':
                        work += [self.p.tup[i] for i, _ in k[3]]
                    elif k[0] == 'carry':
                        work += list(k[2])
                    elif k[0] == 'call':
                        pass
        return out


MASK = (1 << 64) - 1


class Eval:
    """The value of terms under one choice of the inputs."""

    def __init__(self, p, seed, limit=()):
        self.p = p; self.seed = seed; self.limit = dict(limit)
        self.memo = {}

    def inp(self, key):
        x = zlib.crc32(repr((self.seed, key)).encode())
        x |= zlib.crc32(repr((key, self.seed, 1)).encode()) << 32
        k = (x >> 7 ^ self.seed) % 8
        if self.seed % 3 == 0:
            k = self.seed // 3 % 6
        x = {0: 0, 1: 1, 2: MASK, 3: x & 3, 4: x & 0xff}.get(k, x)
        if key in self.limit:
            x = x % (self.limit[key] + 1)
        return x

    def v(self, bits):
        n = 0
        for i, b in enumerate(bits):
            r = 0
            for a in b:
                if a == 1:
                    r ^= 1
                else:
                    r ^= self.atom(a[0]) >> a[1] & 1
            n |= r << i
        return n

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            # without recursion through long chains
            st = [a]
            while st:
                x = st[-1]
                if x in self.memo:
                    st.pop()
                    continue
                need = [y for y in self.deps(x) if y not in self.memo]
                if need:
                    st += need
                else:
                    self.memo[x] = self.one(self.p.keys[x])
                    st.pop()
            r = self.memo[a]
        return r

    def parts(self, k):
        t = self.p.tup
        o = k[0]
        if o == 'sum':
            return [t[i] for i, _ in k[3]]
        if o in ('mul',):
            return list(k[1])
        if o in ('and', 'or'):
            return [(x,) for x in k[1]]
        if o == 'eq':
            return [t[i] for i in k[1]]
        if o == 'carry':
            return list(k[2])
        if o in ('ult', 'slt', 'sle', 'sgt', 'sge', 'shl', 'lshr', 'ashr'):
            return [t[k[1]], t[k[2]]]
        if o in ('udiv', 'urem'):
            return [t[k[1]]]
        if o == 'mux':
            return [(k[1],), (k[2],), (k[3],)]
        return []

    def deps(self, a):
        out = []
        for q in self.parts(self.p.keys[a]):
            for b in q:
                for x in b:
                    if x != 1:
                        out.append(x[0])
        return out

    def one(self, k):
        o = k[0]
        q = self.parts(k)
        if o == 'sum':
            n = k[2]
            for (i, c), b in zip(k[3], q):
                n += c * self.v(b)
            return n & (1 << k[1]) - 1
        v = [self.v(b) for b in q]
        if o == 'mul':
            if len(v) == 1:
                v *= 2
            return v[0] * v[1] & (1 << len(q[0])) - 1
        if o == 'and':
            return int(all(v))
        if o == 'or':
            return int(any(v))
        if o == 'eq':
            return int(len(v) == 1 or v[0] == v[1])
        if o == 'carry':
            if len(v) == 1:
                v *= 2
            return v[0] + v[1] >> k[1]
        if o == 'ult':
            return int(v[0] < v[1])
        if o in ('slt', 'sle', 'sgt', 'sge'):
            v = [x - ((x >> len(b) - 1) << len(b)) for x, b in zip(v, q)]
            return int({'slt': v[0] < v[1], 'sle': v[0] <= v[1],
                        'sgt': v[0] > v[1], 'sge': v[0] >= v[1]}[o])
        if o in ('shl', 'lshr', 'ashr'):
            w = len(q[0])
            if v[1] >= w:
                return 0
            if o == 'shl':
                return v[0] << v[1] & (1 << w) - 1
            if o == 'lshr':
                return v[0] >> v[1]
            return (v[0] - ((v[0] >> w - 1) << w) >> v[1]) & (1 << w) - 1
        if o == 'udiv' and isinstance(k[2], int):
            return v[0] // k[2]
        if o == 'urem' and isinstance(k[2], int):
            return v[0] % k[2]
        if o == 'mux':
            return v[1] if v[0] else v[2]
        return self.inp(k)

    def holds(self, facts):
        for k, v in facts.items():
            if isinstance(k, tuple) and k and k[0] == 'lo':
                if self.v(k[1]) < v:
                    return False
            elif isinstance(k, tuple) and k and k[0] == 'hi':
                if self.v(k[1]) > v:
                    return False
            elif isinstance(k, frozenset) and self.v((k,)) != v:
                return False
        return True


def differ(I, S, a, b, n=48):
    """a choice of the inputs of a path for which two terms differ"""
    if len(a) != len(b):
        return 'width'
    for seed in range(n):
        e = Eval(I.t.p, seed, I.limit)
        if e.holds(S.facts) and e.v(a) != e.v(b):
            return seed + 1
    return None


class Obj:
    __slots__ = ('b', 'p', 's', 'fill')

    def __init__(self, fill='in'):
        self.b = {}; self.p = {}; self.s = []; self.fill = fill

    def copy(self):
        o = Obj(self.fill)
        o.b = dict(self.b); o.p = dict(self.p); o.s = list(self.s)
        return o


class State:
    def __init__(self):
        self.mem = {}; self.facts = {}; self.ev = []; self.n = 0

    def copy(self):
        s = State()
        s.mem = {k: o.copy() for k, o in self.mem.items()}
        s.facts = dict(self.facts); s.ev = list(self.ev); s.n = self.n
        return s

    def obj(self, name, fill='in'):
        o = self.mem.get(name)
        if o is None:
            o = self.mem[name] = Obj(fill)
        return o


class Interp:
    LIMIT = 400000
    PATHS = 400

    def __init__(self, m, hook=None, types=None):
        self.m = m
        self.t = Vn()
        self.hook = hook
        self.steps = 0
        self.fns = set()
        self.depth = 0
        self.limit = {}

    # ------------------------------------------------------------- operands

    def op(self, env, o, ty):
        k = o[0]
        if k == 'r':
            if o[1] not in env:
                raise AnalysisBroken('register ' + o[1])
            return env[o[1]]
        if k == 'i':
            return K(o[1] & ((1 << ty.w) - 1), ty.w) if ty.k == 'int' else \
                NULL
        if k == 'null':
            return NULL
        if k in ('zero', 'undef'):
            return NULL if ty.k == 'ptr' else K(0, ty.w)
        if k == 'g':
            return ('P', o[1], (0, ()))
        if k == 'gep':
            b = self.op(env, o[2], None)
            return self.gep(b, o[1], [(None, x) for x in o[3]], env)
        raise AnalysisBroken('operand %r' % (o,))

    def gep(self, b, ty, idx, env):
        if b[0] != 'P':
            raise AnalysisBroken('gep of a number')
        c, s = b[2]
        d = dict(s)
        t = ty
        for i, (it, x) in enumerate(idx):
            v = None
            if x[0] == 'i':
                k = x[1]
            else:
                v = env[x[1]]
                v = v + (v[-1],) * (64 - len(v))
                k = None
                if isk(v):
                    k = kv(v)
                    if k >> 63:
                        k -= 1 << 64
            if i == 0:
                sz = t.size()
            elif t.k == 'struct':
                c += t.offs()[k]
                t = t.fields[k]
                continue
            else:
                t = t.el
                sz = t.size()
            if k is not None:
                c += k * sz
            else:
                e, f = self.t.lin(v)
                if e >> 63:
                    e -= 1 << 64
                c += e * sz
                for j, y in f.items():
                    if y >> 63:
                        y -= 1 << 64
                    d[j] = d.get(j, 0) + y * sz
        d = tuple(sorted((j, y) for j, y in d.items() if y))
        return ('P', b[1], (c, d))

    # --------------------------------------------------------------- memory

    def glob(self, S, name):
        o = S.obj(name, 0)
        g = self.m.globals.get(name)
        if g is None:
            return o
        if not g['const']:
            o.fill = 'in'
            return o

        def put(ty, v, at):
            if v is None or v[0] in ('zero', 'undef'):
                return
            if v[0] == 'bytes':
                for i, x in enumerate(v[1]):
                    o.b[(), at + i] = K(x, 8)
            elif v[0] == 'agg':
                if ty.k == 'arr':
                    for i, (et, x) in enumerate(v[1]):
                        put(et, x, at + i * ty.el.size())
                else:
                    for (et, x), f in zip(v[1], ty.offs()):
                        put(et, x, at + f)
            elif v[0] == 'i':
                n = v[1] & ((1 << ty.w) - 1)
                for i in range(ty.size()):
                    o.b[(), at + i] = K(n >> 8 * i & 255, 8)
        put(g['ty'], g['init'], 0)
        return o

    def o(self, S, name):
        if name is None:
            raise AnalysisBroken('null pointer used')
        if name in S.mem:
            return S.mem[name]
        if name[0] == '@':
            return self.glob(S, name)
        return S.obj(name)

    def rdb(self, S, name, sym, c):
        o = self.o(S, name)
        v = o.b.get((sym, c))
        if v is not None:
            return v
        for q in reversed(o.s):
            # inside of a copied part of which the length is not known
            if q[0] == sym and c >= q[1] and (q[4] is None):
                pass
        if o.fill == 0:
            return K(0, 8)
        v = self.t.p.bits((o.fill, name, sym, c), 8)
        o.b[sym, c] = v
        return v

    def load(self, S, ty, p):
        if p[0] != 'P':
            raise AnalysisBroken('load through a number')
        c, sym = p[2]
        o = self.o(S, p[1])
        if ty.k == 'ptr':
            v = o.p.get((sym, c))
            if v is None:
                new = '%s.%s%d' % (p[1], ''.join(
                    '%d*%d+' % x for x in sym), c)
                if o.fill == 0:
                    return NULL
                v = ('P', new, (0, ()))
                o.p[sym, c] = v
            return v
        if ty.k != 'int':
            raise AnalysisBroken('load of %r' % ty)
        out = ()
        for i in range(ty.size()):
            out += self.rdb(S, p[1], sym, c + i)
        return out[:ty.w]

    def store(self, S, ty, v, p):
        if p[0] != 'P':
            raise AnalysisBroken('store through a number')
        c, sym = p[2]
        o = self.o(S, p[1])
        if v[0] == 'P':
            o.p[sym, c] = v
            return
        v = v + (Z,) * (ty.size() * 8 - len(v))
        o.p.pop((sym, c), None)
        for i in range(ty.size()):
            o.b[sym, c + i] = v[8 * i:8 * i + 8]

    def memset(self, S, p, v, n, loc):
        S.ev.append(('memset', p, v, n, loc))
        if not isk(n):
            o = self.o(S, p[1])
            o.s.append((p[2][1], p[2][0], self.t.p.id(n), ('fill', v)))
            return
        o = self.o(S, p[1])
        for i in range(kv(n)):
            o.b[p[2][1], p[2][0] + i] = v[:8]
            o.p.pop((p[2][1], p[2][0] + i), None)
        if not o.b and kv(v[:8]) == 0:
            o.fill = 0

    def memcpy(self, S, d, s, n, loc):
        S.ev.append(('memcpy', d, s, n, loc))
        do, so = self.o(S, d[1]), self.o(S, s[1])
        if isk(n):
            k = kv(n)
            if k > 8192:
                raise AnalysisBroken('large copy')
            bs = [self.rdb(S, s[1], s[2][1], s[2][0] + i) for i in range(k)]
            ps = {i: so.p[s[2][1], s[2][0] + i] for i in range(k)
                  if (s[2][1], s[2][0] + i) in so.p}
            for i in range(k):
                do.b[d[2][1], d[2][0] + i] = bs[i]
                do.p.pop((d[2][1], d[2][0] + i), None)
            for i, q in ps.items():
                do.p[d[2][1], d[2][0] + i] = q
            return
        do.s.append((d[2][1], d[2][0], self.t.p.id(n), self.origin(
            S, s, self.t.p.id(n))))

    def origin(self, S, p, n):
        """where bytes of unknown number come from"""
        for sym, c, k, org in reversed(self.o(S, p[1]).s):
            if (sym, c) == (p[2][1], p[2][0]) and k == n:
                return org
        return ('at', p[1], p[2])

    # ------------------------------------------------------------------ run

    def decide(self, S, bit):
        if not bit:
            return 0
        if bit == O:
            return 1
        if bit in S.facts:
            return S.facts[bit]
        if bit ^ O in S.facts:
            return 1 - S.facts[bit ^ O]
        return None

    def call(self, S, name, args):
        """[(result, state)]"""
        f = self.m.funcs[name]
        self.fns.add(base(name))
        if self.depth > 30:
            raise AnalysisBroken('recursion in ' + name)
        self.depth += 1
        env = {}
        for (ty, nm), v in zip(f.params, args):
            if v is not None and v[0] != 'P' and ty.k == 'int':
                v = v[:ty.w] + (Z,) * (ty.w - len(v))
            env[nm] = v
        S.n += 1
        out = []
        work = [(f.order[0], None, env, S, S.n)]
        while work:
            lab, src, env, S, act = work.pop()
            r = self.block(f, lab, src, env, S, act, out)
            work += r
            if len(work) + len(out) > self.PATHS:
                raise AnalysisBroken('too many paths in ' + name)
        self.depth -= 1
        return out

    def block(self, f, lab, src, env, S, act, out):
        b = f.blocks[lab]
        if b.phis:
            new = {}
            for ph in b.phis:
                for o, s in ph.x:
                    if s == src:
                        new[ph.dst] = self.op(env, o, ph.ty)
                        break
            env.update(new)
        return self.insts(f, b, 0, env, S, act, out)

    def insts(self, f, b, i, env, S, act, out):
        for j in range(i, len(b.insts)):
            ins = b.insts[j]
            self.steps += 1
            if self.steps > self.LIMIT:
                raise AnalysisBroken('analysis does not finish')
            if ins.op == 'call':
                rs = self.docall(ins, env, S, act)
                more = []
                for n, (v, T) in enumerate(rs):
                    e = env if n == len(rs) - 1 else dict(env)
                    if ins.dst:
                        e[ins.dst] = v
                    if len(rs) == 1:
                        S = T
                        break
                    more += self.insts(f, b, j + 1, e, T, act, out)
                else:
                    return more
                continue
            self.inst(ins, env, S, act)
        t = b.term
        if t.op == 'ret':
            out.append((self.op(env, t.args[0], t.ty) if t.args else None,
                        S))
            return []
        if t.op == 'unreachable':
            return []
        if t.op == 'br':
            if len(t.x) == 1:
                return [(t.x[0], b.name, env, S, act)]
            c = self.op(env, t.args[0], None)
            bit = c[0]
            v = self.decide(S, bit)
            if v is not None:
                return [(t.x[0 if v else 1], b.name, env, S, act)]
            o = []
            for v in (1, 0):
                T = S.copy()
                T.facts[bit] = v
                o.append((t.x[0 if v else 1], b.name, dict(env), T, act))
            return o
        if t.op == 'switch':
            c = self.op(env, t.args[0], t.ty)
            if isk(c):
                w = len(c)
                for v, d in t.x[1]:
                    if v & ((1 << w) - 1) == kv(c):
                        return [(d, b.name, env, S, act)]
                return [(t.x[0], b.name, env, S, act)]
            o = []
            T = S
            for v, d in t.x[1]:
                e = self.t.eq(c, K(v & ((1 << len(c)) - 1), len(c)),
                              T.facts)
                r = self.decide(T, e)
                if r == 0:
                    continue
                if r == 1:
                    o.append((d, b.name, dict(env), T, act))
                    T = None
                    break
                U = T.copy()
                U.facts[e] = 1
                o.append((d, b.name, dict(env), U, act))
                T = T.copy()
                T.facts[e] = 0
            if T is not None:
                o.append((t.x[0], b.name, dict(env), T, act))
            return o
        raise AnalysisBroken(t.op)

    def docall(self, ins, env, S, act):
        name = ins.x[1:] if ins.x[0] == '@' else None
        if name is None:
            raise AnalysisBroken('indirect call')
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            return [(None, S)]
        args = [self.op(env, o, ty) if ty.k in ('int', 'ptr') else None
                for ty, o in ins.args]
        loc = self.m.locstr(ins.loc)
        if self.hook is not None:
            r = self.hook(self, S, base(name), args, loc, ins)
            if r is not None:
                return r
        if base(name) in NORET:
            return []
        if name.startswith('llvm.threadlocal.address'):
            return [(args[0], S)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') \
                or name in ('memcpy', 'memmove'):
            self.memcpy(S, args[0], args[1], args[2], loc)
            return [(args[0], S)]
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(S, args[0], args[1], args[2], loc)
            return [(args[0], S)]
        if base(name) in ('malloc', 'checked_malloc', 'calloc',
                          'urkel_malloc'):
            S.n += 1
            nm = 'H%d' % S.n
            S.obj(nm, 'undef' if base(name) != 'calloc' else 0)
            return [(('P', nm, (0, ())), S)]
        if name == 'free':
            return [(None, S)]
        g = self.m.funcs.get(name)
        if g is None or not g.blocks:
            if ins.ty is not None and ins.ty.k == 'int':
                S.n += 1
                return [(self.t.p.bits(('call', name, S.n), ins.ty.w), S)]
            if ins.ty is not None and ins.ty.k == 'ptr':
                raise AnalysisBroken('call of ' + name)
            return [(None, S)]
        return self.call(S, name, args)

    def inst(self, ins, env, S, act):
        t = self.t
        op = ins.op
        if op == 'alloca':
            nm = 'A%d:%s' % (act, ins.dst)
            S.mem[nm] = Obj('undef')
            env[ins.dst] = ('P', nm, (0, ()))
            return
        if op == 'load':
            env[ins.dst] = self.load(S, ins.ty, self.op(env, ins.args[0],
                                                        None))
            return
        if op == 'store':
            self.store(S, ins.ty, self.op(env, ins.args[0], ins.ty),
                       self.op(env, ins.args[1], None))
            return
        if op == 'getelementptr':
            env[ins.dst] = self.gep(self.op(env, ins.args[0], None), ins.ty,
                                    ins.x, env)
            return
        if op == 'icmp':
            env[ins.dst] = (self.icmp(S, ins, env),)
            return
        if op == 'select':
            c = self.op(env, ins.args[0], None)[0]
            v = self.decide(S, c)
            x = self.op(env, ins.args[1], ins.ty)
            y = self.op(env, ins.args[2], ins.ty)
            if v is not None:
                env[ins.dst] = x if v else y
            elif x == y:
                env[ins.dst] = x
            elif x[0] == 'P' or y[0] == 'P':
                raise AnalysisBroken('choice of pointers')
            else:
                env[ins.dst] = tuple(self.mux(c, a, b)
                                     for a, b in zip(x, y))
            return
        if op in ('zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr', 'bitcast',
                  'freeze'):
            v = self.op(env, ins.args[0], ins.x if op != 'freeze' else
                        ins.ty)
            if op == 'ptrtoint':
                env[ins.dst] = self.ptrint(v)
            elif op == 'inttoptr':
                raise AnalysisBroken('inttoptr')
            elif op == 'trunc':
                # a sum keeps being one
                w = ins.ty.w
                k = t.whole(v)
                if k is not None and k[0] == 'sum':
                    out = K(k[2] & (1 << w) - 1, w)
                    c, d = k[2], {}
                    for i, x in k[3]:
                        b = t.p.tup[i][:w]
                        e, f = t.lin(b)
                        c += e * x
                        for j, y in f.items():
                            d[j] = d.get(j, 0) + x * y
                    env[ins.dst] = t.unlin(c, d, w)
                else:
                    env[ins.dst] = v[:w]
            elif op == 'zext':
                w = ins.ty.w
                k = t.whole(v)
                if k is not None and k[0] == 'sum':
                    lo, hi = t.linr(v, S.facts)
                    if (lo, hi) != (0, (1 << len(v)) - 1):
                        # it does not wrap
                        c = k[2]
                        if c >> (len(v) - 1):
                            c -= 1 << len(v)
                        d = {}
                        for i, x in k[3]:
                            if x >> (len(v) - 1):
                                x -= 1 << len(v)
                            b = t.p.tup[i] + (Z,) * (w - len(v))
                            e, f = t.lin(b)
                            c += e * x
                            for j, y in f.items():
                                d[j] = d.get(j, 0) + x * y
                        env[ins.dst] = t.unlin(c, d, w)
                        return
                env[ins.dst] = v + (Z,) * (w - len(v))
            elif op == 'sext':
                env[ins.dst] = v + (v[-1],) * (ins.ty.w - len(v))
            else:
                env[ins.dst] = v
            return
        a = self.op(env, ins.args[0], ins.ty)
        b = self.op(env, ins.args[1], ins.ty)
        w = ins.ty.w
        if a[0] == 'P' or b[0] == 'P':
            raise AnalysisBroken('arithmetic on pointers')
        if op in ('add', 'sub'):
            r = t.add(a, b, 1 if op == 'add' else -1)
        elif op == 'xor':
            r = vxor(a, b)
        elif op == 'and':
            r = tuple(t.band(x, y) for x, y in zip(a, b))
        elif op == 'or':
            r = tuple(t.bor(x, y) for x, y in zip(a, b))
        elif op in ('shl', 'lshr', 'ashr'):
            if not isk(b):
                r = t.p.bits((op, t.p.id(a), t.p.id(b)), w)
            else:
                k = kv(b)
                if op == 'shl':
                    r = ((Z,) * k + a)[:w]
                else:
                    r = a[k:] + ((Z if op == 'lshr' else a[-1]),) * min(k, w)
        elif op == 'mul':
            r = t.mul(a, b)
        elif op in ('udiv', 'urem', 'sdiv', 'srem') and isk(b) and kv(b) and \
                (op[0] == 'u' or not a[-1]):
            k = kv(b)
            if isk(a):
                r = K(kv(a) // k if op[1:] == 'div' else kv(a) % k, w)
            elif k & (k - 1) == 0:
                s = k.bit_length() - 1
                r = a[s:] + (Z,) * s if op[1:] == 'div' else \
                    a[:s] + (Z,) * (w - s)
            else:
                r = t.p.bits((op, t.p.id(a), k), w)
        else:
            r = t.p.bits((op, t.p.id(a), t.p.id(b)), w)
        env[ins.dst] = r

    def mux(self, c, a, b):
        t = self.t
        if a == b:
            return a
        if a == O and b == Z:
            return c
        if a == Z and b == O:
            return c ^ O
        return t.p.bits(('mux', c, a, b), 1)[0]

    def ptrint(self, v):
        """the address of a base is a number of its own"""
        if v[1] is None:
            return K(0, 64)
        c, sym = v[2]
        d = dict(sym)
        i = self.t.p.id(self.t.p.bits(('addr', v[1]), 64))
        d[i] = d.get(i, 0) + 1
        return self.t.unlin(c, d, 64)

    def icmp(self, S, ins, env):
        t = self.t
        x = self.op(env, ins.args[0], ins.ty)
        y = self.op(env, ins.args[1], ins.ty)
        p = ins.x
        if x[0] == 'P' and y[0] == 'P':
            if p in ('eq', 'ne'):
                if x[1] != y[1]:
                    r = Z
                elif x[2] == y[2]:
                    r = O
                elif x[2][1] == y[2][1]:
                    r = Z
                else:
                    r = t.p.bits(('peq', frozenset([x, y])), 1)[0]
                return r if p == 'eq' else r ^ O
            x, y = self.ptrint(x), self.ptrint(y)
        if p in ('eq', 'ne'):
            r = t.eq(x, y, S.facts)
            return r if p == 'eq' else r ^ O
        if p[0] == 's':
            if x[-1] or y[-1]:
                if isk(x) and isk(y):
                    w = len(x)
                    a, b = kv(x), kv(y)
                    a -= (a >> (w - 1)) << w
                    b -= (b >> (w - 1)) << w
                    return O if {'slt': a < b, 'sle': a <= b, 'sgt': a > b,
                                 'sge': a >= b}[p] else Z
                r = t.p.bits((p, t.p.id(x), t.p.id(y)), 1)[0]
                return r
        q = p[1:]
        if q == 'lt':
            return t.ult(x, y, S.facts)
        if q == 'gt':
            return t.ult(y, x, S.facts)
        if q == 'ge':
            return t.ult(x, y, S.facts) ^ O
        return t.ult(y, x, S.facts) ^ O

"""C13, C26: sizes, positions and file numbers of records.

Value numbering (vn.py) of sequences of records put into the write buffer and
written out, with symbolic file positions, file numbers and value sizes.  The
pointer of every record has to hold, without loss, the file number, position
and size at which the bytes of the record are written, for every way in which
the records are distributed over files and for every failing write which is
tried again.
"""
from .vn import Interp, State, K, Z, O, isk, kv, NULL, Eval
from .eng import AnalysisBroken
from .phash import rd, P
from .pcodec import Run, guard, bitsval

MAXF = 0x7ffff000
ST = 'urkel_store_s'
FI = 'urkel_file_s'
ND = 'urkel_node_s'


class Near(Eval):
    """inputs, file positions among them near the end of a file"""

    def inp(self, key):
        x = super().inp(key)
        n = key[1] if len(key) > 1 else None
        if n == 'q' and self.seed % 4:
            x = MAXF - self.raw(key) % (3, 40, 700, 2500)[self.seed // 4 % 4]
        if isinstance(n, str) and n.startswith('grow') and self.seed % 3:
            # what is left of the file is used up
            x = MAXF - self.raw(key) % (3, 700, 6000)[self.seed // 3 % 3]
        if n == 'psize' and self.seed % 5 == 1:
            x = self.limit.get(key, 1023) - self.raw(key) % 2
        if n == 'ppos' and self.seed % 5 == 1 and key in self.limit:
            x = self.limit[key] - self.inp(('in', 'psize')) + (
                self.seed // 5 % 3 - 1)
        if n == 'a' and self.seed % 4:
            x = self.limit.get(key, 0) - self.raw(key) % 3
        if isinstance(n, str) and n.startswith('size') and self.seed % 5 == 1:
            x = 1023 - self.raw(key) % 3
        if key in self.limit:
            x %= self.limit[key] + 1
        return x

    def raw(self, key):
        import zlib
        return zlib.crc32(repr((key, self.seed)).encode())


class Lin(Interp):
    """comparisons of sums with constants follow from one another"""

    def form(self, bit):
        if len(bit) == 1:
            (a,) = bit
            neg = 0
        elif len(bit) == 2 and 1 in bit:
            (a,) = bit - {1}
            neg = 1
        else:
            return None
        if a == 1 or a[1] != 0:
            return None
        k = self.t.p.keys[a[0]]
        if k[0] != 'ult':
            return None
        x, y = self.t.p.tup[k[1]], self.t.p.tup[k[2]]
        if not isk(x):
            return None
        return kv(x), y, neg

    def geq(self, S, x, y):
        """x >= y, both sums which do not wrap"""
        w = max(len(x), len(y))
        x = x + (Z,) * (w - len(x))
        y = y + (Z,) * (w - len(y))
        return nonneg(self.t, self.t.add(x, y, -1))

    def decide(self, S, bit):
        r = super().decide(S, bit)
        if r is not None or bit is None:
            return r
        f = self.form(bit)
        if f is None:
            return None
        k, t, neg = f
        for b, v in S.facts.items():
            if not isinstance(b, frozenset):
                continue
            g = self.form(b)
            if g is None:
                continue
            k2, t2, neg2 = g
            v ^= neg2
            if v and k2 >= k and self.geq(S, t, t2):
                return 1 ^ neg
            if not v and k2 <= k and self.geq(S, t2, t):
                return neg
        return None

    def inst(self, ins, env, S, act):
        # remainders of sums which do not wrap
        if ins.op == 'urem':
            a = self.op(env, ins.args[0], ins.ty)
            b = self.op(env, ins.args[1], ins.ty)
            if isk(b) and kv(b) and not isk(a):
                k = kv(b)
                c, d = self.t.lin(a)
                w = len(a)
                sg = lambda x: x - (1 << w) if x >> (w - 1) else x
                lo, hi = self.t.linr(a, S.facts) if self.t.whole(a) else \
                    (0, 1 << w - 1)
                if (lo, hi) != (0, (1 << w) - 1) and all(
                        sg(x) % k == 0 for x in d.values()):
                    env[ins.dst] = K(sg(c) % k, w)
                    return
        super().inst(ins, env, S, act)


def nonneg(t, b):
    """a sum without negative parts"""
    w = len(b)
    c, d = t.lin(b)
    if c >> (w - 1):
        return False
    return all(not x >> (w - 1) for x in d.values())


def off(t, p):
    c, sym = p[2]
    return t.unlin(c, dict(sym), 64)


class Pos(Run):
    def __init__(self, res, m, what, fails=0, rule=('place',)):
        super().__init__(res, m, what)
        self.I = Lin(m, self.hook)
        self.fails = fails
        self.seeds = 40

    # ------------------------------------------------------------- library

    def hook(self, I, S, name, args, loc, ins):
        t = I.t
        if name == 'urkel_file_write' and len(args) == 3:
            f = args[0][1]
            size = self.get(S, f, 0, FI, 'size')
            out = []
            left = self.fails - sum(e[0] == 'wfail' for e in S.ev)
            if left > 0:
                T = S.copy()
                T.ev.append(('wfail',))
                out.append((K(0, 32), T))
            S.ev.append(('write', f, args[1], args[2], size,
                         self.get(S, f, 0, FI, 'index')))
            self.put(S, f, self.f(FI, 'size')[0], 8,
                     t.add(size, args[2] + (Z,) * (64 - len(args[2]))))
            out.append((K(1, 32), S))
            return out
        if name == 'urkel_store_open_file' and len(args) == 3:
            n = 'F%d' % t.p.id(args[1])
            if n not in S.mem:
                S.obj(n)
                self.setf(S, n, 0, FI, 'size', K(0, 64))
                self.setf(S, n, 0, FI, 'index', args[1])
            S.ev.append(('open', args[1], n))
            return [(P(n), S)]
        if name == 'urkel_meta_write' and getattr(self, 'chain', None) and \
                args[0] is not None and args[0][0] == 'P':
            self.linked(S, args[0])
            return None
        if name == 'urkel_store_close_file':
            return [(None, S)]
        if name in ('urkel_file_datasync', 'urkel_file_sync',
                    'urkel_store_sync'):
            return [(K(1, 32), S)]
        if name in ('checked_realloc', 'realloc'):
            return [(args[0], S)]
        if name == 'urkel_checksum':
            c, s = args[0][2]
            return [(('P', args[0][1], (c + 20, s)), S)]
        return None

    # ------------------------------------------------------------ scenario

    def start(self, q, k):
        S = State()
        pf = lambda f, v: self.setf(S, 'store', 0, ST, f, v)
        pp = lambda f, o: S.obj('store').p.__setitem__(
            ((), self.f(ST, f)[0]), P(o))
        for f in ('data_len', 'data_off', 'steps', 'start'):
            pf('slab.' + f, K(0, 64))
        pf('slab.data_size', K(1 << 40, 64))
        pf('slab.offsets_len', K(1, 64))
        pp('slab.data', 'slabdata')
        pp('slab.offsets', 'offsets')
        pf('slab.file_pos', q)
        pf('slab.file_index', k)
        pf('index', k)
        pp('current', 'cur')
        self.setf(S, 'cur', 0, FI, 'size', q)
        self.setf(S, 'cur', 0, FI, 'index', k)
        return S

    def node(self, S, name, typ, size=None, n=9):
        S.obj(name)
        self.setf(S, name, 0, ND, 'type', K(typ, 32))
        flags = 0
        if typ == 2:
            flags = VALUE | (SAVED if size is None else 0)
            self.setf(S, name, 0, ND, 'u.leaf.size',
                      size if size is not None else K(3, 64))
            S.obj(name).p[(), self.f(ND, 'u.leaf.value')[0]] = P(name + 'v')
        else:
            bitsval(self, S, name, 0, n, name, ND, 'u.internal.prefix')
            for side in ('left', 'right'):
                c = name + side
                S.obj(name).p[(), self.f(ND, 'u.internal.' + side)[0]] = P(c)
                S.obj(c)
                self.setf(S, c, 0, ND, 'type', K(3, 32))
                self.setf(S, c, 0, ND, 'flags', K(HASHED | WRITTEN, 32))
        self.setf(S, name, 0, ND, 'flags', K(flags | HASHED, 32))

    def buffered(self, S, n0):
        """what was put into the buffer since"""
        return [(off(self.I.t, e[1]), e[3], e[2]) for e in S.ev[n0:]
                if e[0] == 'memcpy' and e[1][1] == 'slabdata']

    def value(self, S, j, size):
        nm = 'v%d' % j
        self.node(S, nm, 2, size)
        n0 = len(S.ev)
        out = []
        for r, T in self.paths('urkel_store_write_value', S,
                               [P('store'), P(nm)]):
            b = self.buffered(T, n0)
            self.record(T, 'urkel_store_write_value', nm,
                        'u.leaf.vptr', b, size)
            out.append(T)
        return out

    def inner(self, S, j, n=9, typ=1):
        nm = 'n%d' % j
        self.node(S, nm, typ, None, n)
        n0 = len(S.ev)
        out = []
        for r, T in self.paths('urkel_store_write_node', S,
                               [P('store'), P(nm)]):
            b = self.buffered(T, n0)
            self.record(T, 'urkel_store_write_node', nm, 'ptr', b, None)
            out.append(T)
        return out

    def meta(self, S, j, root):
        n0 = len(S.ev)
        out = []
        nm = 'm%d' % j
        S.obj(nm)
        self.chain = root
        for r, T in self.paths('urkel_store_write_meta', S,
                               [P('store'), P(nm), P(root)]):
            b = self.buffered(T, n0)
            if b:
                b = b[-1:]
            self.record(T, 'urkel_store_write_meta', nm, 'meta_ptr', b,
                        None, st='urkel_meta_s', meta=True)
            out.append(T)
        return out

    def linked(self, S, rec):
        """a commit record names the one before it and the root"""
        root = self.chain
        c, syms = rec[2]
        if syms:
            self.und('where a commit record is encoded from')
            return
        for f in ('index', 'pos'):
            self.eq(S, 'urkel_store_write_meta', 'link',
                    'a commit record does not name the one before it',
                    self.get(S, rec[1], c, 'urkel_meta_s', 'meta_ptr.' + f),
                    self.get(S, 'store', 0, ST, 'state.meta_ptr.' + f))
            self.eq(S, 'urkel_store_write_meta', 'link',
                    'a commit record does not name its root',
                    self.get(S, rec[1], c, 'urkel_meta_s', 'root_ptr.' + f),
                    self.get(S, root, 0, ND, 'ptr.' + f))

    def record(self, S, fn, obj, path, b, size, st=ND, meta=False):
        g = lambda x: self.get(S, obj, 0, st, path + '.' + x)
        idx, pos, sz = g('index'), g('pos'), g('size')
        if len(b) > 1:
            self.und('%s puts a record in parts' % fn)
            return
        n = b[0][1] if b else K(0, 64)
        if size is not None and b and b[0][2] != P(obj + 'v'):
            self.bad(fn, 'content', 'something else than the value is put '
                     'into the buffer')
        if size is None and not b:
            self.bad(fn, 'place', 'a record is not put into the buffer')
            return
        if not meta:
            self.eq(S, fn, 'size', 'the size of a pointer is another than '
                    'that of the record', sz, size or n)
        if b:
            S.ev.append(('rec', fn, b[0][0], n, idx, pos, meta))

    def eq(self, S, fn, rule, what, got, want):
        self.res.obl[rule, fn, what] = self.res.obl.get(
            (rule, fn, what), 0) + 1
        if any(self.form_eq(got, want, w) for w in (8, 16, 32, 64)):
            return True
        w = self.witness(S, got, want)
        if w is None:
            self.und('%s in %s' % (what, fn))
            return False
        self.bad(fn, rule, what)
        return False

    def form_eq(self, got, want, w):
        """equal after the wider is cut, which must not lose anything"""
        n = max(len(got), len(want))
        g = got + (Z,) * (n - len(got))
        v = want + (Z,) * (n - len(want))
        if g == v:
            return True
        if len(want) <= w or (1 << w) <= self.I.t.hi(want, {}):
            return False
        cut = self.trunc(want, w)
        return g == cut + (Z,) * (n - w)

    def trunc(self, v, w):
        t = self.I.t
        k = t.whole(v)
        if k is None:
            return v[:w]
        c, d = k[2], {}
        for i, x in k[3]:
            e, f = t.lin(t.p.tup[i][:w])
            c += e * x
            for j, y in f.items():
                d[j] = d.get(j, 0) + x * y
        return t.unlin(c, d, w)

    def evals(self, S):
        for seed in range(self.seeds if len(self.res.undecided) < 20 else
                          10):
            e = Near(self.I.t.p, seed, self.I.limit)
            if e.holds(S.facts):
                yield e

    def witness(self, S, a, b):
        for e in self.evals(S):
            if e.v(a) != e.v(b):
                return e.seed
        return None

    def flush(self, S):
        """[(succeeded, state)]"""
        out = []
        for r, T in self.paths('urkel_store_flush', S, [P('store')]):
            if r is None or not isk(r):
                self.und('result of urkel_store_flush')
                continue
            T.ev.append(('flushed', kv(r)))
            out.append((kv(r), T))
        return out

    # --------------------------------------------------------------- oracle

    def check(self, S):
        recs, wr = [], []
        for e in S.ev:
            if e[0] == 'rec':
                recs.append(e)
            elif e[0] == 'write' and e[2][1] == 'slabdata':
                wr.append(e)
            elif e[0] == 'flushed' and e[1]:
                for r in recs:
                    self.placed(S, r, wr)
                recs, wr = [], []
        return 1

    def placed(self, S, r, wr):
        t = self.I.t
        fn = r[1]
        o, n, idx, pos, meta = r[2:]
        n = n + (Z,) * (64 - len(n))
        self.res.obl['place', fn, 'record'] = self.res.obl.get(
            ('place', fn, 'record'), 0) + 1
        for w in wr:
            a = off(t, w[2])
            ln = w[3] + (Z,) * (64 - len(w[3]))
            d = t.add(o, a, -1)
            if not nonneg(t, d) or not nonneg(t, t.add(
                    t.add(ln, d, -1), n, -1)):
                continue
            want = t.add(w[4] + (Z,) * (64 - len(w[4])), d)
            if any(self.form_eq(pos, want, x) for x in (32, 64)) and any(
                    self.form_eq(idx, w[5], x) for x in (16, 32)):
                if meta:
                    self.aligned(S, fn, pos, n)
                return
        feasible = False
        for e in self.evals(S):
            feasible = True
            ov, nv = e.v(o), e.v(n)
            for w in wr:
                a, ln = e.v(off(t, w[2])), e.v(w[3])
                if a <= ov and ov + nv <= a + ln and nv:
                    if e.v(w[4]) + ov - a != e.v(pos) or \
                            e.v(w[5]) != e.v(idx):
                        self.bad(fn, 'place', 'a record is not written where '
                                 'its pointer says')
                        return
                    if ov - a + nv + e.v(w[4]) > MAXF:
                        self.bad(fn, 'place', 'a file grows over its limit')
                        return
                    break
            else:
                if nv:
                    self.bad(fn, 'place', 'a record is not written out as a '
                             'whole')
                    return
        if feasible:
            self.und('place of a record of ' + fn)

    def aligned(self, S, fn, pos, n):
        if not isk(n):
            return
        k = kv(n)
        c, d = self.I.t.lin(pos)
        w = len(pos)
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if sg(c) % k == 0 and all(sg(x) % k == 0 for x in d.values()):
            return
        for e in self.evals(S):
            if e.v(pos) % k:
                self.bad(fn, 'align', 'a commit record does not lie at a '
                         'multiple of its size')
                return
        self.und('alignment of the commit record')


HASHED, WRITTEN, SAVED, VALUE = 1, 2, 4, 8


def steps(R, S, ops):
    """run a sequence of operations"""
    st = [S]
    for j, op in enumerate(ops):
        new = []
        for T in st:
            if op[0] == 'value':
                new += R.value(T, j, op[1](R, j))
            elif op[0] == 'inner':
                new += R.inner(T, j, *op[1:])
            elif op[0] == 'leaf':
                new += R.inner(T, j, 0, 2)
            elif op[0] == 'meta':
                new += R.meta(T, j, op[1])
            elif op[0] == 'flush':
                new += [U for ok, U in R.flush(T) if ok]
            elif op[0] == 'fill':
                new.append(fill(R, T, j))
            elif op[0] == 'fail':
                # the first try may fail
                for ok, U in R.flush(T):
                    new.append(U)
        st = new
        if len(st) > 600:
            raise AnalysisBroken('too many paths')
    return st


def fill(R, S, j):
    """as if more had been written"""
    t = R.I.t
    g = R.sym('grow%d' % j, 31) + (Z,) * 33
    cur = S.obj('store').p.get(((), R.f(ST, 'current')[0]))
    if cur is None or cur[1] is None:
        raise AnalysisBroken('current file')
    size = t.add(R.get(S, cur[1], 0, FI, 'size'), g)
    R.I.limit['in', 'grow%d' % j] = MAXF
    S.facts[t.ult(K(MAXF, 64), size, {})] = 0
    R.put(S, cur[1], R.f(FI, 'size')[0], 8, size)
    o, w = R.f(ST, 'slab.file_pos')
    R.put(S, 'store', o, w, t.add(R.get(S, 'store', 0, ST, 'slab.file_pos'),
                                  g))
    return S


def sym(R, j):
    return R.sym('size%d' % j, 10) + (Z,) * 54


def const(n):
    return lambda R, j: K(n, 64)


@guard
def sequence(res, m, what, ops, q=None, k=None, fails=0):
    R = Pos(res, m, what, fails)
    qv = R.sym('q', 31) + (Z,) * 33
    R.I.limit['in', 'q'] = MAXF
    if q is not None:
        a = R.sym('a', 26) + (Z,) * 38
        R.I.limit['in', 'a'] = (MAXF - q[1]) // q[0]
        qv = R.I.t.add(R.I.t.mul(a, K(q[0], 64)), K(q[1], 64))
    kv_ = R.sym('k', 15) + (Z,) * 17 if k is None else K(k, 32)
    S = R.start(qv, kv_)
    st = steps(R, S, ops)
    n = 0
    for T in st:
        R.check(T)
        n += 1
    return n


def placement(res, m, tier):
    done = 0
    V = ('value', sym)
    F = ('flush',)
    X = ('fail',)
    one = [
        ('value', [V, F]), ('inner', [('inner', 9), F]),
        ('leaf', [('leaf',), F]),
    ]
    for k in (None, 1, 0x7ffd):
        for w, ops in one:
            done += sequence(res, m, w, ops, None, k)
    for w, ops, fails in [
            ('two values', [V, V, F], 0),
            ('value, node, value', [V, ('inner', 9), V, F], 0),
            ('two flushes', [V, F, V, F], 0),
            ('failing write', [V, V, X, F], 1),
            ('failing write, then more', [V, X, ('leaf',), V, F], 1),
            ('failing in the middle, two flushes', [V, V, X, F, V, F], 1),
            ('two files', [V, F, ('fill',), V, F, V, F], 0),
            ('failing twice', [V, X, V, X, F], 2)]:
        done += sequence(res, m, w, ops, None, 7, fails)
    if tier == 'thorough':
        for w, ops, fails in [
                ('three values', [V, V, V, F], 0),
                ('three flushes', [V, F, V, V, F, V, F], 0),
                ('failing, more', [V, V, X, V, X, V, F], 2)]:
            done += sequence(res, m, w, ops, None, 7, fails)
    return done


def commits(res, m, tier, size):
    done = 0
    F = ('flush',)
    X = ('fail',)
    for r in range(size):
        done += sequence(res, m, 'commit', [
            ('value', const(5)), ('leaf',), ('meta', 'n1'), F],
            (size, r), 7)
    for r in (0, 1, size - 1):
        done += sequence(res, m, 'commit tried again', [
            ('value', const(1023)), ('leaf',), ('meta', 'n1'), X,
            ('meta', 'n1'), F], (size, r), 7, 1)
        done += sequence(res, m, 'two commits', [
            ('leaf',), ('meta', 'n0'), F, ('leaf',), ('meta', 'n3'), F],
            (size, r), 7)
    return done


@guard
def metasize(res, m):
    """the number of bytes of a commit record"""
    R = Pos(res, m, 'commit record')
    S = R.start(K(0, 64), K(7, 32))
    R.node(S, 'r', 2)
    R.setf(S, 'r', 0, ND, 'flags', K(HASHED | WRITTEN | VALUE | SAVED, 32))
    out = set()
    for T in R.meta(S, 0, 'r'):
        for e in T.ev:
            if e[0] == 'rec' and isk(e[3]):
                out.add(kv(e[3]))
    if len(out) != 1:
        raise AnalysisBroken('size of a commit record')
    return out.pop()


def c26(ctx):
    res = ctx.result()
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        done += placement(res, m, ctx.tier)
        n = metasize(res, m)
        if n:
            done += commits(res, m, ctx.tier, n)
    res.need('sequences', done, 10)
    return res


# ---------------------------------------------------------------- C13

class Pass(Pos):
    """numbers handed on to the next function"""

    def hook(self, I, S, name, args, loc, ins):
        if name in self.stop:
            out = []
            f = self.stop[name]
            r = f(S, args) if f else K(1, 32)
            S.ev.append(('call', name, args))
            if r is not None and r[0] == 'P' or ins.ty is None or \
                    ins.ty.k == 'void':
                return [(r, S)]
            return [(r[:ins.ty.w] + (Z,) * (ins.ty.w - len(r)), S)]
        return super().hook(I, S, name, args, loc, ins)

    def calls(self, S, name):
        return [e[2] for e in S.ev if e[0] == 'call' and e[1] == name]


def ptrset(R, S, obj, st, path, size):
    z = R.sym('psize', 10) + (Z,) * 54
    R.I.limit['in', 'psize'] = size
    R.setf(S, obj, 0, st, path + 'index', R.sym('pindex', 15))
    R.setf(S, obj, 0, st, path + 'pos', R.sym('ppos', 31))
    R.setf(S, obj, 0, st, path + 'size', z)
    return z


@guard
def reader(res, m, fn, size):
    """what is read is what the pointer names"""
    R = Pass(res, m, 'reading')
    R.stop = {
        'urkel_store_open_file': lambda S, a: P('file'),
        'urkel_file_pread': None, 'urkel_node_read': None,
        'urkel_meta_read': None}
    S = State()
    S.obj('file')
    R.setf(S, 'store', 0, ST, 'index', K(0x7fff, 32))
    if fn == 'urkel_store_retrieve':
        R.setf(S, 'node', 0, ND, 'type', K(2, 32))
        R.setf(S, 'node', 0, ND, 'flags', K(SAVED | HASHED, 32))
        z = ptrset(R, S, 'node', ND, 'u.leaf.vptr.', size)
        args = [P('store'), P('node'), P('out'), P('size')]
    else:
        z = ptrset(R, S, 'ptr', 'urkel_pointer_s', '', size)
        args = [P('store'), P('out'), P('ptr')]
        if fn == 'urkel_store_read_meta':
            z = None
    n = 0
    for r, T in R.paths(fn, S, args):
        pr = R.calls(T, 'urkel_file_pread')
        op = R.calls(T, 'urkel_store_open_file')
        if r is None or not isk(r):
            R.und('result of ' + fn)
            continue
        if kv(r) == 0:
            # rejected although everything succeeds
            for e in R.evals(T):
                if e.v(R.sym('psize', 10)) > 0 or z is None:
                    R.bad(fn, 'size', 'a record whose size is allowed is not '
                          'read')
                    break
            continue
        if len(pr) != 1 or len(op) != 1:
            R.und('how %s reads' % fn)
            continue
        n += 1
        R.eq(T, fn, 'index', 'another file is read than the pointer names',
             op[0][1], R.sym('pindex', 15))
        R.eq(T, fn, 'pos', 'another position is read than the pointer names',
             pr[0][3], R.sym('ppos', 31))
        if z is not None:
            R.eq(T, fn, 'size', 'another number of bytes is read than the '
                 'pointer names', pr[0][2], z)
        if fn == 'urkel_store_retrieve':
            R.eq(T, fn, 'size', 'another size is given than the value has',
                 rd(R.I, T, 'size', 0, 8), z)
        if fn == 'urkel_store_read_node':
            nr = R.calls(T, 'urkel_node_read')
            if len(nr) == 1 and len(nr[0]) == 3:
                R.eq(T, fn, 'size', 'a node is decoded with another size',
                     nr[0][2], z)
            for f, w in (('index', 15), ('pos', 31)):
                R.eq(T, fn, 'keep', 'the pointer of a node is not kept',
                     R.get(T, 'out', 0, ND, 'ptr.' + f),
                     R.sym('p' + f, w))
            R.eq(T, fn, 'keep', 'the pointer of a node is not kept',
                 R.get(T, 'out', 0, ND, 'ptr.size'), z)
    return n


@guard
def cached(res, m):
    """a value in memory"""
    fn = 'urkel_store_retrieve'
    R = Pass(res, m, 'value in memory')
    R.stop = {}
    S = State()
    z = R.sym('psize', 10) + (Z,) * 54
    R.I.limit['in', 'psize'] = 1023
    R.setf(S, 'node', 0, ND, 'type', K(2, 32))
    R.setf(S, 'node', 0, ND, 'flags', K(VALUE | HASHED, 32))
    R.setf(S, 'node', 0, ND, 'u.leaf.size', z)
    S.obj('node').p[(), R.f(ND, 'u.leaf.value')[0]] = P('val')
    n = 0
    for r, T in R.paths(fn, S, [P('store'), P('node'), P('out'),
                                P('size')]):
        n += copied(R, T, fn, 'val', 'out', z)
        R.eq(T, fn, 'size', 'another size is given than the value has',
             rd(R.I, T, 'size', 0, 8), z)
    return n


def copied(R, T, fn, src, dst, z):
    cp = [e for e in T.ev if e[0] == 'memcpy' and e[2][1] == src]
    if not cp:
        for e in R.evals(T):
            if e.v(z) and not any(k[0] == () for k in T.obj(src).b):
                R.bad(fn, 'copy', 'a value is not copied')
                break
        return 1
    if len(cp) == 1:
        R.eq(T, fn, 'copy', 'a value is not copied as a whole', cp[0][3], z)
        if cp[0][2][2] != (0, ()) or (dst and cp[0][1] != P(dst)):
            R.bad(fn, 'copy', 'a value is not copied as a whole')
        return 1
    R.und('copy in ' + fn)
    return 1


@guard
def created(res, m, fn):
    """the size of a value on its way into a node"""
    R = Pass(res, m, 'new value')
    R.stop = {'urkel_node_hash': lambda S, a: P('hash'),
              'urkel_node_destroy': None, 'urkel_rwlock_wrlock': None,
              'urkel_rwlock_rdlock': None, 'urkel_rwlock_wrunlock': None,
              'urkel_rwlock_rdunlock': None}
    S = State()
    z = R.sym('psize', 10) + (Z,) * 54
    R.I.limit['in', 'psize'] = 1023
    S.obj('val')
    if fn == 'urkel_node_create_leaf':
        args = [P('key'), P('val'), z]
    else:
        R.setf(S, 'root', 0, ND, 'type', K(0, 32))
        R.setf(S, 'root', 0, ND, 'flags', K(HASHED | WRITTEN, 32))
        S.obj('tx').p[(), R.f('urkel_tx_s', 'root')[0]] = P('root')
        args = [P('tx'), P('key'), P('val'), z]
    n = 0
    for r, T in R.paths(fn, S, args):
        if r is not None and r[0] != 'P':
            if not isk(r):
                R.und('result of ' + fn)
                continue
            if kv(r) == 0:
                for e in R.evals(T):
                    R.bad(fn, 'size', 'a value whose size is allowed is '
                          'rejected')
                    break
                continue
            q = T.obj('tx').p.get(((), R.f('urkel_tx_s', 'root')[0]))
        else:
            q = r
        if q is None or q[0] != 'P' or q[1] is None or q[2] != (0, ()):
            R.und('node made by ' + fn)
            continue
        n += 1
        R.eq(T, fn, 'size', 'the size of a value is cut',
             R.get(T, q[1], 0, ND, 'u.leaf.size'), z)
        copied(R, T, fn, 'val', None, z)
    return n


@guard
def filepread(res, m, mapped):
    fn = 'urkel_file_pread'
    R = Pass(res, m, 'mapped file' if mapped else 'file')
    R.stop = {'urkel_fs_pread': None}
    S = State()
    z = R.sym('psize', 10) + (Z,) * 54
    p = R.sym('ppos', 31) + (Z,) * 33
    R.setf(S, 'file', 0, FI, 'size', K(MAXF, 64))
    R.I.limit['in', 'ppos'] = MAXF
    S.obj('file').p[(), R.f(FI, 'base')[0]] = P('map') if mapped else NULL
    n = 0
    for r, T in R.paths(fn, S, [P('file'), P('dst'), z, p]):
        pr = R.calls(T, 'urkel_fs_pread')
        cp = [e for e in T.ev if e[0] == 'memcpy' and e[1][1] == 'dst']
        if r is None or not isk(r):
            R.und('result of ' + fn)
        elif kv(r) == 0:
            for e in R.evals(T):
                if e.v(z) + e.v(p) <= MAXF:
                    R.bad(fn, 'pos', 'what lies in the file is not read')
                    break
        elif len(pr) == 1:
            n += 1
            R.eq(T, fn, 'pos', 'another position is read', pr[0][3], p)
            R.eq(T, fn, 'size', 'another number of bytes is read', pr[0][2],
                 z)
        elif len(cp) == 1 and cp[0][2][1] == 'map':
            n += 1
            R.eq(T, fn, 'pos', 'another position is read',
                 off(R.I.t, cp[0][2]), p)
            R.eq(T, fn, 'size', 'another number of bytes is read', cp[0][3],
                 z)
        elif not pr and not cp:
            for e in R.evals(T):
                if e.v(z):
                    R.bad(fn, 'size', 'nothing is read')
                    break
    return n


@guard
def filewrite(res, m, mapped):
    """the size of a file follows what is written to it"""
    fn = 'urkel_file_write'
    R = Pass(res, m, 'mapped file' if mapped else 'file')

    def choice(S, a):
        return K(1, 32)
    R.stop = {'urkel_fs_write': choice, 'munmap': lambda S, a: K(0, 32),
              'mmap': lambda S, a: P('newmap'), 'urkel_fs_ftruncate': None}
    n = 0
    for ok in (1, 0):
        S = State()
        R.stop['urkel_fs_write'] = lambda S, a: K(ok, 32)
        z = R.sym('wsize', 27) + (Z,) * 37
        q = R.sym('q', 31) + (Z,) * 33
        R.I.limit['in', 'q'] = MAXF
        R.setf(S, 'file', 0, FI, 'size', q)
        R.setf(S, 'file', 0, FI, 'mapped', K(int(mapped), 32))
        S.obj('file').p[(), R.f(FI, 'base')[0]] = P('map') if mapped else \
            NULL
        S.obj('file').p.setdefault(((), R.f(FI, 'base')[0]), NULL)
        for r, T in R.paths(fn, S, [P('file'), P('src'), z]):
            w = R.calls(T, 'urkel_fs_write')
            if r is None or not isk(r):
                R.und('result of ' + fn)
                continue
            n += 1
            if len(w) == 1:
                R.eq(T, fn, 'size', 'another number of bytes is written',
                     w[0][2], z)
            if kv(r) and not w:
                for e in R.evals(T):
                    if e.v(z):
                        R.bad(fn, 'size', 'nothing is written')
                        break
                continue
            want = R.I.t.add(q, z) if ok and w else q
            R.eq(T, fn, 'size', 'the size of a file does not follow what is '
                 'written', R.get(T, 'file', 0, FI, 'size'), want)
    return n


@guard
def opened(res, m):
    """where writing goes on after the database is opened"""
    fn = 'urkel_store_init'
    R = Pass(res, m, 'opening')

    def index(S, a):
        o = S.obj(a[-1][1])
        R.put(S, a[-1][1], a[-1][2][0], 4, R.sym('k', 15))
        return K(1, 32)
    R.stop = {x: None for x in (
        'urkel_store_init_prefix', 'urkel_store_init_lock',
        'urkel_store_init_meta', 'urkel_store_recover_state',
        'urkel_store_read_root', 'urkel_filemap_init', 'urkel_cache_init',
        'urkel_rng_init')}
    R.stop['urkel_store_find_index'] = index
    R.stop['urkel_store_open_file'] = lambda S, a: P('cur')
    S = State()
    S.obj('store'); S.obj('cur')
    q = R.sym('q', 31) + (Z,) * 33
    R.setf(S, 'cur', 0, FI, 'size', q)
    R.setf(S, 'cur', 0, FI, 'index', R.sym('k', 15))
    n = 0
    for r, T in R.paths(fn, S, [P('store'), P('prefix')]):
        if r is None or not isk(r) or not kv(r):
            R.und('opening')
            continue
        op = R.calls(T, 'urkel_store_open_file')
        if op:
            R.eq(T, fn, 'start', 'another file is opened for writing than '
                 'the last', op[0][1], R.sym('k', 15))
        n += 1
        g = lambda x: R.get(T, 'store', 0, ST, x)
        R.eq(T, fn, 'start', 'positions do not start at the end of the file',
             g('slab.file_pos'), q)
        R.eq(T, fn, 'start', 'file numbers do not start at the last file',
             g('slab.file_index'), R.sym('k', 15))
        R.eq(T, fn, 'start', 'the file which is written is not the last',
             g('index'), R.sym('k', 15))
        for x in ('slab.data_len', 'slab.data_off', 'slab.steps',
                  'slab.start'):
            R.eq(T, fn, 'start', 'the write buffer is not empty', g(x),
                 K(0, 64))
    return n


@guard
def openedfile(res, m):
    fn = 'urkel_file_open'
    R = Pass(res, m, 'file')
    sz = field_st_size = None
    off_, w = R.f('stat', 'st_size')

    def fstat(S, a):
        R.put(S, a[1][1], a[1][2][0] + off_, w, R.sym('q', 31))
        return K(0, 32)
    R.stop = {'urkel_fs_open': lambda S, a: K(5, 32), 'fstat': fstat,
              'mmap': lambda S, a: P('map'), 'close': lambda S, a: K(0, 32)}
    n = 0
    for flags in (0, 1 << 20):
        S = State()
        fl = R.sym('flags', 32)
        for r, T in R.paths(fn, S, [P('name'), fl, K(0o640, 32)]):
            if r is None or r[0] != 'P' or r[1] is None:
                continue
            n += 1
            R.eq(T, fn, 'size', 'the size of a file is not the one it has',
                 R.get(T, r[1], 0, FI, 'size'), R.sym('q', 31))
        break
    return n


def c13(ctx):
    res = ctx.result()
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        n = m.struct_di('urkel_node_s')
        raw = nodesize(res, m)
        for fn, size in (('urkel_store_read_node', raw),
                         ('urkel_store_retrieve', 1023),
                         ('urkel_store_read_meta', 1023)):
            done += reader(res, m, fn, size)
        done += cached(res, m)
        for fn in ('urkel_node_create_leaf', 'urkel_tx_insert'):
            done += created(res, m, fn)
        for mapped in (False, True):
            done += filepread(res, m, mapped)
            done += filewrite(res, m, mapped)
        done += opened(res, m)
        done += openedfile(res, m)
        for k in (None, 1, 0x7ffd):
            for w, ops in (('value', [('value', sym), ('flush',)]),
                           ('leaf', [('leaf',), ('flush',)]),
                           ('commit', [('leaf',), ('meta', 'n0'),
                                       ('flush',)])):
                done += sequence(res, m, w, ops,
                                 (38, 0) if w == 'commit' else None, k)
            for p in (0, 1, 8, 127, 128, 255, 256):
                done += sequence(res, m, 'node', [('inner', p),
                                                  ('flush',)], None, k)
    res.need('numbers followed', done, 10)
    return res


def nodesize(res, m):
    """bytes of the longest node"""
    R = Run(res, m, 'node')
    S = State()
    P_ = Pos(res, m, 'node')
    S = P_.start(K(0, 64), K(1, 32))
    n = 0
    for T in P_.inner(S, 0, 256):
        for e in T.ev:
            if e[0] == 'rec' and isk(e[3]):
                n = max(n, kv(e[3]))
    if not n:
        raise AnalysisBroken('size of a node')
    return n

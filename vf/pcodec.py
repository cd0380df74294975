"""C12: encoders and decoders agree.

Value numbering (vn.py) of every encoder on a symbolic value, then of the
decoder on the bytes the encoder produced: every field of the result has to be
the term the encoder was given, the number of bytes the one announced, and
every byte of it written.  Lengths of prefixes are finitely many and taken one
by one; contents, positions, sizes and file numbers are symbolic.
"""
from .vn import Interp, State, K, Z, O, isk, kv, NULL, Obj, differ, Eval
from .eng import AnalysisBroken
from .phash import rd, P

KEYBITS = 256


def field(m, struct, path):
    """(offset, size) of a member by its path"""
    n = m.struct_di(struct)
    off = 0
    size = None
    for part in path.split('.'):
        while n is not None and n.get('tag') in ('DW_TAG_typedef',
                                                 'DW_TAG_const_type'):
            n = m.node(n.get('type') or n.get('baseType'))
        for o, sz, nm, mn in m.members(n) if n else ():
            if nm == part:
                off += o
                size = sz
                n = m.node(mn.get('baseType') or mn.get('type'))
                break
        else:
            raise AnalysisBroken('no field %s of %s' % (path, struct))
    return off, size


class Run:
    """analysis of one encoder and its decoder"""

    def __init__(self, res, m, what, hook=None):
        self.res = res; self.m = m; self.what = what
        self.I = Interp(m, hook)
        self.ok = True

    def f(self, struct, path):
        return field(self.m, struct, path)

    def put(self, S, obj, off, size, v):
        o = S.obj(obj)
        v = v + (Z,) * (8 * size - len(v))
        for i in range(size):
            o.b[(), off + i] = v[8 * i:8 * i + 8]
        o.p.pop(((), off), None)

    def setf(self, S, obj, base, struct, path, v):
        """set a number field; v: int or width of a fresh input"""
        o, s = self.f(struct, path)
        self.put(S, obj, base + o, s, v)

    def sym(self, name, w):
        return self.I.t.p.bits(('in', name), w)

    def get(self, S, obj, base, struct, path):
        o, s = self.f(struct, path)
        return rd(self.I, S, obj, base + o, s)

    def paths(self, fn, S, args):
        g = self.m.funcs.get(fn)
        if g is None or not g.blocks or len(g.params) != len(args):
            raise AnalysisBroken('%s: not there' % fn)
        out = self.I.call(S, fn, args)
        self.res.fns |= self.I.fns
        return out

    def possible(self, S):
        return any(Eval(self.I.t.p, s, self.I.limit).holds(S.facts)
                   for s in range(64))

    def bad(self, fn, rule, msg):
        self.ok = False
        self.res.viol(rule, fn, fn, '%s (%s)' % (msg, self.what),
                      key=(rule, msg))

    def und(self, msg):
        self.ok = False
        self.res.undecided.append('%s: %s' % (self.what, msg))

    def same(self, S, fn, rule, what, got, want):
        self.res.obl[rule, fn, what] = self.res.obl.get(
            (rule, fn, what), 0) + 1
        n = max(len(got), len(want))
        got = got + (Z,) * (n - len(got))
        want = want + (Z,) * (n - len(want))
        if got == want:
            return True
        if differ(self.I, S, got, want) is None:
            self.und('%s in %s: written with %s' % (what, fn, ', '.join(
                sorted(self.I.t.opaque(got)))))
            return False
        self.bad(fn, rule, what)
        return False

    def encode(self, fn, S, args, buf='buf'):
        """[(number of bytes, state)] of the paths of an encoder which
        returns the end of what it wrote"""
        out = []
        for r, T in self.paths(fn, S, args):
            if r is None or r[0] != 'P' or r[1] != buf:
                self.und('%s does not return where it stopped' % fn)
                continue
            c, sym = r[2]
            if sym:
                self.und('length of what %s wrote' % fn)
                continue
            self.written(fn, T, buf, c)
            out.append((c, T))
        if len(out) > 1:
            out = [(c, T) for c, T in out if self.possible(T)] or out[:1]
        return out

    def written(self, fn, S, buf, n):
        o = S.obj(buf)
        if o.s or any(k[0] for k in o.b):
            self.und('what %s writes' % fn)
            return
        have = {k[1] for k in o.b}
        self.res.obl['extent', fn, 'bytes'] = self.res.obl.get(
            ('extent', fn, 'bytes'), 0) + 1
        miss = [i for i in range(n) if i not in have]
        if miss:
            self.bad(fn, 'extent', 'bytes are left out of what is written')
        if any(i < 0 or i >= n for i in have):
            self.bad(fn, 'extent', 'bytes are written outside of the record')

    def decode(self, fn, S, args):
        """paths of a decoder, which has to accept"""
        out = []
        for r, T in self.paths(fn, S, args):
            if r is not None and r[0] != 'P':
                if isk(r) and kv(r) == 0:
                    if len(T.facts) == len(S.facts) or self.possible(T):
                        self.bad(fn, 'accept', 'what was written is rejected '
                                 'when it is read')
                    else:
                        self.und('%s may reject' % fn)
                    continue
                if not isk(r):
                    # the truth of a comparison
                    if differ(self.I, T, tuple(r), K(1, len(r))):
                        self.bad(fn, 'accept', 'what was written is '
                                 'rejected when it is read')
                        continue
                    self.und('%s may reject' % fn)
                    continue
            out.append(T)
        return out


def guard(f):
    def g(res, m, *a, **k):
        try:
            return f(res, m, *a, **k)
        except (AnalysisBroken, LookupError, TypeError, ValueError,
                AttributeError) as x:
            res.undecided.append('%s%r: %s' % (f.__name__, a, x))
            return 0
    return g


PTR = (('index', 15), ('pos', 31), ('size', 10))


def setptr(R, S, obj, base, struct, path, tag, size=10):
    for f, w in PTR:
        R.setf(S, obj, base, struct, path + '.' + f if path else f,
               R.sym(tag + f, min(w, size) if f == 'size' else w))


def cmpptr(R, S, fn, obj, base, struct, path, tag, size=10):
    for f, w in PTR:
        R.same(S, fn, 'field', '%s of a pointer is not read as it was '
               'written' % f,
               R.get(S, obj, base, struct, path + '.' + f if path else f),
               R.sym(tag + f, min(w, size) if f == 'size' else w))


@guard
def pointer(res, m):
    R = Run(res, m, 'pointer')
    S = State()
    setptr(R, S, 'in', 0, 'urkel_pointer_s', '', 'p.')
    n = 0
    for c, T in R.encode('urkel_pointer_write', S, [P('in'), P('buf')]):
        size = ptrsize(m)
        R.same(T, 'urkel_pointer_write', 'extent', 'the size of a pointer is '
               'another than is reserved', K(c, 32), K(size, 32))
        for U in R.decode('urkel_pointer_read', T, [P('out'), P('buf')]):
            cmpptr(R, U, 'urkel_pointer_read', 'out', 0, 'urkel_pointer_s',
                   '', 'p.')
            n = 1
    return n


def ptrsize(m):
    return 7


def bitsval(R, S, obj, base, n, tag, struct='urkel_bits_s', path=''):
    pre = path + '.' if path else ''
    R.setf(S, obj, base, struct, pre + 'size', K(n, 64))
    o, w = R.f(struct, pre + 'data')
    for i in range((n + 7) // 8):
        R.put(S, obj, base + o + i, 1, R.sym((tag, 'bits', i), 8))


def cmpbits(R, S, fn, obj, base, n, tag, struct='urkel_bits_s', path=''):
    pre = path + '.' if path else ''
    R.same(S, fn, 'field', 'the length of a prefix is not read as it was '
           'written', R.get(S, obj, base, struct, pre + 'size'), K(n, 64))
    o, w = R.f(struct, pre + 'data')
    got = want = ()
    for i in range((n + 7) // 8):
        got += rd(R.I, S, obj, base + o + i, 1)
        want += R.sym((tag, 'bits', i), 8)
    R.same(S, fn, 'field', 'the bits of a prefix are not read as they were '
           'written', got, want)


@guard
def bits(res, m, n):
    R = Run(res, m, 'prefix of %d bits' % n)
    S = State()
    bitsval(R, S, 'in', 0, n, 'b')
    k = 0
    ann = R.paths('urkel_bits_size', S.copy(), [P('in')])
    for c, T in R.encode('urkel_bits_write', S, [P('in'), P('buf')]):
        for r, _ in ann:
            R.same(T, 'urkel_bits_size', 'size', 'the announced size is '
                   'not the one written', r, K(c, 64))
        for U in R.decode('urkel_bits_read', T, [P('out'), P('buf'),
                                                 K(c, 64)]):
            cmpbits(R, U, 'urkel_bits_read', 'out', 0, n, 'b')
            k = 1
    return k


def hash32(R, S, obj, off, tag):
    for i in range(32):
        R.put(S, obj, off + i, 1, R.sym((tag, i), 8))


def cmphash(R, S, fn, what, obj, off, tag):
    got = want = ()
    for i in range(32):
        got += rd(R.I, S, obj, off + i, 1)
        want += R.sym((tag, i), 8)
    R.same(S, fn, 'field', what + ' is not read as it was written', got,
           want)


@guard
def inner(res, m, n):
    R = Run(res, m, 'inner node with a prefix of %d bits' % n)
    S = State()
    N = 'urkel_node_s'
    R.setf(S, 'in', 0, N, 'type', K(1, 32))
    bitsval(R, S, 'in', 0, n, 'b', N, 'u.internal.prefix')
    for side in ('left', 'right'):
        o, _ = R.f(N, 'u.internal.' + side)
        S.obj('in').p[(), o] = P(side)
        R.setf(S, side, 0, N, 'flags', K(0xffffffff, 32))
        R.setf(S, side, 0, N, 'type', K(1, 32))
        setptr(R, S, side, 0, N, 'ptr', side + '.', 8)
        hash32(R, S, side, R.f(N, 'hash')[0], side)
    ann = R.paths('urkel_node_size', S.copy(), [P('in')])
    k = 0
    fn = 'urkel_node_read'
    for c, T in R.encode('urkel_node_write', S, [P('in'), P('buf')]):
        for r, _ in ann:
            R.same(T, 'urkel_node_size', 'size', 'the announced size is '
                   'not the one written', r, K(c, 64))
        for U in R.decode(fn, T, [P('out'), P('buf'), K(c, 64)]):
            R.same(U, fn, 'field', 'the type of a node is not read as it was '
                   'written', R.get(U, 'out', 0, N, 'type'), K(1, 32))
            cmpbits(R, U, fn, 'out', 0, n, 'b', N, 'u.internal.prefix')
            for side in ('left', 'right'):
                p = R.I.load(U, m_ptr(), P('out', R.f(
                    N, 'u.internal.' + side)[0]))
                if p[0] != 'P' or p[1] is None or p[2] != (0, ()):
                    R.und('child of the node read')
                    continue
                R.same(U, fn, 'field', 'a child is not read as a reference',
                       R.get(U, p[1], 0, N, 'type'), K(3, 32))
                cmpptr(R, U, fn, p[1], 0, N, 'ptr', side + '.', 8)
                cmphash(R, U, fn, 'the hash of a child', p[1],
                        R.f(N, 'hash')[0], side)
            k = 1
    return k


class m_ptr:
    k = 'ptr'


@guard
def leaf(res, m):
    R = Run(res, m, 'leaf')
    S = State()
    N = 'urkel_node_s'
    R.setf(S, 'in', 0, N, 'type', K(2, 32))
    R.setf(S, 'in', 0, N, 'flags', K(0xffffffff, 32))
    setptr(R, S, 'in', 0, N, 'u.leaf.vptr', 'v.')
    hash32(R, S, 'in', R.f(N, 'u.leaf.key')[0], 'key')
    ann = R.paths('urkel_node_size', S.copy(), [P('in')])
    k = 0
    fn = 'urkel_node_read'
    for c, T in R.encode('urkel_node_write', S, [P('in'), P('buf')]):
        for r, _ in ann:
            R.same(T, 'urkel_node_size', 'size', 'the announced size is '
                   'not the one written', r, K(c, 64))
        for U in R.decode(fn, T, [P('out'), P('buf'), K(c, 64)]):
            R.same(U, fn, 'field', 'the type of a node is not read as it was '
                   'written', R.get(U, 'out', 0, N, 'type'), K(2, 32))
            cmpptr(R, U, fn, 'out', 0, N, 'u.leaf.vptr', 'v.')
            cmphash(R, U, fn, 'the key of a leaf', 'out',
                    R.f(N, 'u.leaf.key')[0], 'key')
            k = 1
    return k


def cksum(I, S, name, args, loc, ins):
    """the checksum is a function of the bytes it is taken of"""
    if name != 'urkel_checksum' or len(args) != 4:
        return None
    out, data, size, key = args
    if not isk(size) or data[0] != 'P' or out[0] != 'P' or key[0] != 'P' or \
            kv(size) > 4096:
        raise AnalysisBroken('checksum at ' + loc)
    what = tuple(I.t.p.id(rd(I, S, data[1], data[2][0] + i, 1))
                 for i in range(kv(size)))
    S.ev.append(('checksum', kv(size), loc))
    o = I.o(S, out[1])
    for i in range(20):
        o.b[(), out[2][0] + i] = I.t.p.bits(('cksum', what, key, i), 8)
    return [(('P', out[1], (out[2][0] + 20, out[2][1])), S)]


def cmphook(I, S, name, args, loc, ins):
    r = cksum(I, S, name, args, loc, ins)
    if r is not None:
        return r
    if name in ('memcmp', 'bcmp', 'urkel_memcmp', '__urkel_memcmp') and \
            isk(args[2]) and args[0][0] == 'P' and args[1][0] == 'P':
        k = kv(args[2])
        a = b = ()
        for i in range(k):
            a += rd(I, S, args[0][1], args[0][2][0] + i, 1)
            b += rd(I, S, args[1][1], args[1][2][0] + i, 1)
        w = ins.ty.w
        if a == b:
            return [(K(0, w), S)]
        e = I.t.eq(a, b, S.facts)
        return [((e ^ O,) + (Z,) * (w - 1), S)]
    return None


@guard
def meta(res, m):
    R = Run(res, m, 'commit record', cmphook)
    S = State()
    M = 'urkel_meta_s'
    setptr(R, S, 'in', 0, M, 'meta_ptr', 'm.')
    setptr(R, S, 'in', 0, M, 'root_ptr', 'r.')
    k = 0
    fn = 'urkel_meta_read'
    for c, T in R.encode('urkel_meta_write', S, [P('in'), P('buf'),
                                                 P('key')]):
        res.obl['checksum', 'urkel_meta_write', ''] = 1
        ev = [e for e in T.ev if e[0] == 'checksum']
        if not ev or max(e[1] for e in ev) < c - 20:
            R.bad('urkel_meta_write', 'checksum', 'the checksum does not '
                  'cover the whole commit record')
        for U in R.decode(fn, T, [P('out'), P('buf'), P('key')]):
            cmpptr(R, U, fn, 'out', 0, M, 'meta_ptr', 'm.')
            cmpptr(R, U, fn, 'out', 0, M, 'root_ptr', 'r.')
            k = 1
    return k


TYPES = {0: 'dead end', 1: 'short', 2: 'collision', 3: 'existence'}


@guard
def proof(res, m, typ, depth, steps, value):
    """steps: the lengths of the prefixes"""
    what = 'proof of a %s with steps %s' % (TYPES[typ], list(steps))
    R = Run(res, m, what, cmphook)
    S = State()
    Pf, Pn = 'urkel_proof_s', 'urkel_proof_node_s'
    o = S.obj('in')
    R.setf(S, 'in', 0, Pf, 'type', K(typ, 64))
    d = R.sym('depth', 8) if depth is None else K(depth, 9)
    R.setf(S, 'in', 0, Pf, 'depth', d)
    R.setf(S, 'in', 0, Pf, 'nodes_len', K(len(steps), 64))
    off, _ = R.f(Pf, 'nodes')
    for i, n in enumerate(steps):
        nm = 'step%d' % i
        o.p[(), off + 8 * i] = P(nm)
        bitsval(R, S, nm, 0, n, nm, Pn, 'prefix')
        hash32(R, S, nm, R.f(Pn, 'hash')[0], nm)
    pre = value if typ == 1 else 0
    bitsval(R, S, 'in', 0, pre, 'pre', Pf, 'prefix')
    for x in ('left', 'right', 'key', 'hash'):
        hash32(R, S, 'in', R.f(Pf, x)[0], x)
    size = value if typ == 3 else 0
    R.setf(S, 'in', 0, Pf, 'size', K(size, 64))
    vo, _ = R.f(Pf, 'value')
    for i in range(size):
        R.put(S, 'in', vo + i, 1, R.sym(('value', i), 8))
    ann = R.paths('urkel_proof_size', S.copy(), [P('in')])
    k = 0
    fn = 'urkel_proof_read'
    for c, T in R.encode('urkel_proof_write', S, [P('in'), P('buf')]):
        for r, _ in ann:
            R.same(T, 'urkel_proof_size', 'size', 'the announced size is '
                   'not the one written', r, K(c, 64))
        for U in R.decode(fn, T, [P('out'), P('buf'), K(c, 64)]):
            k = 1
            for f, v in (('type', K(typ, 64)), ('depth', d),
                         ('nodes_len', K(len(steps), 64)),
                         ('size', K(size, 64))):
                R.same(U, fn, 'field', 'field %s of a proof is not read as '
                       'it was written' % f, R.get(U, 'out', 0, Pf, f), v)
            for i, n in enumerate(steps):
                p = R.I.load(U, m_ptr(), P('out', off + 8 * i))
                if p[0] != 'P' or p[1] is None or p[2][1]:
                    R.und('step of the proof read')
                    break
                if p[1] not in U.mem:
                    R.bad(fn, 'field', 'a step of a proof is lost')
                    break
                cmpbits(R, U, fn, p[1], p[2][0], n, 'step%d' % i, Pn,
                        'prefix')
                cmphash(R, U, fn, 'the hash of a step', p[1], p[2][0] +
                        R.f(Pn, 'hash')[0], 'step%d' % i)
            if typ == 1:
                cmpbits(R, U, fn, 'out', 0, pre, 'pre', Pf, 'prefix')
                for x in ('left', 'right'):
                    cmphash(R, U, fn, 'field %s of a proof' % x, 'out',
                            R.f(Pf, x)[0], x)
            if typ == 2:
                for x in ('key', 'hash'):
                    cmphash(R, U, fn, 'field %s of a proof' % x, 'out',
                            R.f(Pf, x)[0], x)
            if typ == 3:
                got = want = ()
                for i in range(size):
                    got += rd(R.I, U, 'out', vo + i, 1)
                    want += R.sym(('value', i), 8)
                R.same(U, fn, 'field', 'the value of a proof is not read as '
                       'it was written', got, want)
    return k


def c12(ctx, deep=False):
    res = ctx.result()
    tier = getattr(ctx, 'tier', 'quick')
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        done += pointer(res, m)
        for n in range(KEYBITS + 1):
            done += bits(res, m, n)
            done += inner(res, m, n)
        done += leaf(res, m)
        done += meta(res, m)
        cl = (0, 1, 127, 128, 255, 256)
        some = [(), (0,), (1,), (256,), (0, 127), (128, 0), (255, 8, 0),
                (0, 1, 0, 9, 0, 0, 130, 0), (7,) * 8 + (0,),
                (0,) * 8 + (17,), tuple(i * 37 % 257 for i in range(17))]
        if tier == 'thorough':
            some += [(0,) * 256, (1,) * 256]
            some += [tuple((i * 37 + j) % 257 for i in range(j))
                     for j in range(18, 66)]
        for typ in TYPES:
            for st in some:
                vals = {1: (1, 200), 3: (0, 300)}.get(typ, (0,))
                for v in vals:
                    done += proof(res, m, typ, None, st, v)
            if typ == 0:
                for st in ((0,) * 200 + (3,) * 55, (1, 0) * 128):
                    done += proof(res, m, typ, None, st, 0)
            done += proof(res, m, typ, 256, (), {1: 1}.get(typ, 0))
        for v in range(1, 257):
            done += proof(res, m, 1, None, (), v)
        sizes = range(1024) if tier == 'thorough' else \
            sorted({0, 1, 2, 1022, 1023} | {k + d for k in (
                128, 256, 512, 768) for d in (-1, 0, 1)})
        for v in sizes:
            done += proof(res, m, 3, None, (), v)
    res.need('round trips', done, 10)
    return res

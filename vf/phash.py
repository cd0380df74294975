"""C25: BLAKE2b by value numbering and relational dataflow.

The compression function, the initialisation and the finalisation are
compared, as terms over their inputs, with the specification (RFC 7693),
written down here on its own.  The buffering of messages of any length in any
pieces is decided by relational dataflow over the number of bytes buffered
and consumed.
"""
from .vn import Interp, State, K, Z, O, isk, kv, vxor, NULL, Obj, differ
from .eng import AnalysisBroken

IV = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b,
      0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
      0x1f83d9abfb41bd6b, 0x5be0cd19137e2179]
# as in the standard
SIGMA = [[int(c, 16) for c in s] for s in (
    '0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194',
    '7931dcbe265a40f8', '905724afe1bc683d', '2c6a0b834d75fe19',
    'c51fed4a0763928b', 'db7ec13950f4862a', '6fe9b308c2d714a5',
    'a2847615fb9e3cd0')]


def layout(m):
    d = m.struct_di('urkel_blake2b_s')
    o = {nm: (off, sz) for off, sz, nm, mn in m.members(d)}
    for f in ('h', 't', 'buf', 'buflen', 'outlen'):
        if f not in o:
            raise AnalysisBroken('no field %s in urkel_blake2b_s' % f)
    return {k: v[0] for k, v in o.items()}


def rd(I, S, obj, off, n=8):
    out = ()
    for i in range(n):
        out += I.rdb(S, obj, (), off + i)
    return out


def rot(v, n):
    return v[n:] + v[:n]


def reference(I, h, m, t0, t1, f0):
    t = I.t
    v = h[:] + [K(x, 64) for x in IV]
    v[12] = vxor(v[12], t0)
    v[13] = vxor(v[13], t1)
    v[14] = vxor(v[14], f0)

    def G(a, b, c, d, x, y):
        v[a] = t.add(t.add(v[a], v[b]), x)
        v[d] = rot(vxor(v[d], v[a]), 32)
        v[c] = t.add(v[c], v[d])
        v[b] = rot(vxor(v[b], v[c]), 24)
        v[a] = t.add(t.add(v[a], v[b]), y)
        v[d] = rot(vxor(v[d], v[a]), 16)
        v[c] = t.add(v[c], v[d])
        v[b] = rot(vxor(v[b], v[c]), 63)
    for r in range(12):
        s = SIGMA[r % 10]
        for i, (a, b, c, d) in enumerate((
                (0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13),
                (3, 4, 9, 14))):
            G(a, b, c, d, m[s[2 * i]], m[s[2 * i + 1]])
    return [vxor(h[i], vxor(v[i], v[i + 8])) for i in range(8)]


class Chk:
    def __init__(self, res):
        self.res = res

    def same(self, I, S, fn, what, got, want):
        """a value is the one of the specification"""
        self.res.obl['value', fn, what] = 1
        if got == want:
            return True
        if differ(I, S, got, want) is None:
            # no choice of the inputs is seen to tell them apart
            self.res.undecided.append('%s in %s: written with %s' % (
                what, fn, ', '.join(sorted(I.t.opaque(got)))))
            return False
        self.res.viol('value', fn, fn, '%s is not the one of the '
                      'specification' % what, key=what)
        return False


def run(res, m, fn, args, prep=None, hook=None, limit=()):
    """paths of a function, or None"""
    g = m.funcs.get(fn)
    if g is None or not g.blocks or len(g.params) != len(args):
        res.undecided.append('%s: not there' % fn)
        return None, []
    I = Interp(m, hook)
    I.limit.update(limit)
    S = State()
    try:
        if prep:
            prep(I, S)
        out = I.call(S, fn, [a(I) if callable(a) else a for a in args])
    except (AnalysisBroken, LookupError, TypeError, ValueError,
                AttributeError) as x:
        res.undecided.append('%s: %s' % (fn, x))
        return I, []
    res.fns |= I.fns
    res.nstates += I.steps
    return I, out


def P(n, off=0):
    return ('P', n, (off, ()))


def c25(ctx):
    from . import pstream
    res = ctx.result()
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        L = layout(m)
        c = Chk(res)
        done += compress(m, L, c)
        done += increment(m, L, c)
        done += init(m, L, c)
        done += final(m, L, c)
        done += pstream.update(ctx, res, m, L)
    res.need('functions compared', done, 1)
    return res


def compress(m, L, c):
    fn = 'urkel_blake2b_compress'
    g = m.funcs.get(fn)
    if g is None or not g.blocks:
        c.res.undecided.append('%s: not there' % fn)
        return 0
    args = [P('ctx'), P('chunk')]
    if len(g.params) == 3 and g.params[2][0].k == 'int':
        w = g.params[2][0].w
        f0 = [lambda I: I.t.p.bits(('in', 'f0'), w)]
    else:
        c.res.undecided.append('%s: other arguments' % fn)
        return 0
    if w != 64:
        c.res.undecided.append('%s: other arguments' % fn)
        return 0
    I, out = run(c.res, m, fn, args + f0)
    for r, S in out:
        T = State()
        h = [rd(I, T, 'ctx', L['h'] + 8 * i) for i in range(8)]
        want = reference(I, h, [rd(I, T, 'chunk', 8 * i) for i in range(16)],
                         rd(I, T, 'ctx', L['t']), rd(I, T, 'ctx', L['t'] + 8),
                         I.t.p.bits(('in', 'f0'), 64))
        for i in range(8):
            c.same(I, S, fn, 'word %d of the state after a block' % i,
                   rd(I, S, 'ctx', L['h'] + 8 * i), want[i])
        for k, n in (('t', 16), ('buflen', 8), ('outlen', 8)):
            c.same(I, S, fn, 'field %s after a block' % k,
                   rd(I, S, 'ctx', L[k], n), rd(I, T, 'ctx', L[k], n))
    return len(out) > 0


def counter(I, S, L, inc, facts):
    """the counter of bytes after inc more"""
    T = State()
    t0, t1 = [rd(I, T, 'ctx', L['t'] + i) for i in (0, 8)]
    n0 = I.t.add(t0, inc)
    cy = I.t.ult(n0, inc, {})
    v = I.decide(S, cy)
    cy = cy if v is None else (O if v else Z)
    return n0, I.t.add(t1, (cy,) + (Z,) * 63)


def increment(m, L, c):
    fn = 'urkel_blake2b_increment'
    g = m.funcs.get(fn)
    if g is None or not g.blocks:
        return 0            # part of others then
    if len(g.params) != 2 or g.params[1][0].k != 'int':
        return 0
    w = g.params[1][0].w
    n = 0
    for val in (None, 128, 0):
        I, out = run(c.res, m, fn, [P('ctx'), lambda I: I.t.p.bits(
            ('in', 'inc'), w) if val is None else K(val, w)])
        for r, S in out:
            inc = I.t.p.bits(('in', 'inc'), w) if val is None else K(val, w)
            inc = inc + (Z,) * (64 - w)
            n0, n1 = counter(I, S, L, inc, S.facts)
            c.same(I, S, fn, 'the low word of the counter',
                   rd(I, S, 'ctx', L['t']), n0)
            c.same(I, S, fn, 'the high word of the counter',
                   rd(I, S, 'ctx', L['t'] + 8), n1)
            n = 1
    return n


def init(m, L, c):
    fn = 'urkel_blake2b_init'
    n = 0
    for outlen in (1, 20, 32, 64):
        for keylen in (0, 1, 32, 64):
            upd = []

            def hook(I, S, name, args, loc, ins):
                if name == 'urkel_blake2b_update':
                    S.ev.append(('update', args, [
                        rd(I, S, args[1][1], args[1][2][0] + i, 1)
                        for i in range(128)] if isk(args[2]) and
                        args[1][0] == 'P' and args[1][1] else None,
                        {k: rd(I, S, 'ctx', L[k], 8) for k in
                         ('h', 't', 'buflen')}))
                    return [(None, S)]
            I, out = run(c.res, m, fn, [P('ctx'), K(outlen, 64),
                                        P('key') if keylen else NULL,
                                        K(keylen, 64)], hook=hook)
            for r, S in out:
                n = 1
                ev = [e for e in S.ev if e[0] == 'update']
                for i in range(8):
                    x = IV[i] ^ (0x01010000 ^ keylen << 8 ^ outlen
                                 if i == 0 else 0)
                    c.same(I, S, fn, 'word %d of the initial state' % i,
                           rd(I, S, 'ctx', L['h'] + 8 * i), K(x, 64))
                c.same(I, S, fn, 'the initial counter', rd(
                    I, S, 'ctx', L['t'], 16), K(0, 128))
                c.same(I, S, fn, 'the initial number of bytes buffered', rd(
                    I, S, 'ctx', L['buflen']), K(0, 64))
                c.same(I, S, fn, 'the length of the digest', rd(
                    I, S, 'ctx', L['outlen']), K(outlen, 64))
                want = ()
                T = State()
                if keylen:
                    for i in range(128):
                        want += rd(I, T, 'key', i, 1) if i < keylen else \
                            K(0, 8)
                got = ()
                for e in ev:
                    if e[2] is None or not isk(e[1][2]):
                        got = None
                        break
                    k = kv(e[1][2])
                    if k > 128:
                        got = None
                        break
                    for x in e[2][:k]:
                        got += x
                if got is None:
                    c.res.undecided.append('key block in ' + fn)
                else:
                    c.same(I, S, fn, 'the block made of the key', got or
                           K(0, 0), want or K(0, 0))
                for e in ev:
                    if e[3]['h'] != rd(I, S, 'ctx', L['h'], 8):
                        c.res.viol('order', fn, fn, 'the key is hashed '
                                   'before the state is initialised')
    return n


def final(m, L, c):
    fn = 'urkel_blake2b_final'
    n = 0
    for outlen in (20, 32, 64):
        def hook(I, S, name, args, loc, ins):
            if name == 'urkel_blake2b_compress':
                T = {k: rd(I, S, 'ctx', L[k], w) for k, w in
                     (('h', 64), ('t', 16))}
                seg = list(S.mem['ctx'].s)
                S.ev.append(('compress', args, T, seg))
                o = S.mem['ctx']
                for i in range(64):
                    o.b[(), L['h'] + i] = I.t.p.bits(('in', 'digest', i), 8)
                return [(None, S)]

        def prep(I, S):
            o = S.obj('ctx')
            for i, x in enumerate(range(8)):
                o.b[(), L['outlen'] + i] = K(outlen >> 8 * i & 255, 8)
            # the buffer holds at most one block
            b = I.t.p.bits(('in', 'buflen'), 8) + (Z,) * 56
            for i in range(8):
                o.b[(), L['buflen'] + i] = b[8 * i:8 * i + 8]
        I, out = run(c.res, m, fn, [P('ctx'), P('out')], prep, hook,
                     {('in', 'buflen'): 128})
        for r, S in out:
            n = 1
            ev = [e for e in S.ev if e[0] == 'compress']
            c.res.obl['calls', fn, ''] = 1
            if len(ev) != 1:
                c.res.viol('calls', fn, fn, 'the last block is compressed %d '
                           'times' % len(ev))
                continue
            e = ev[0]
            blen = I.t.p.bits(('in', 'buflen'), 8) + (Z,) * 56
            n0, n1 = counter(I, S, L, blen, S.facts)
            c.same(I, S, fn, 'the low word of the final counter',
                   e[2]['t'][:64], n0)
            c.same(I, S, fn, 'the high word of the final counter',
                   e[2]['t'][64:], n1)
            T = State()
            c.same(I, S, fn, 'the state before the last block', e[2]['h'],
                   rd(I, T, 'ctx', L['h'], 64))
            if e[1][1] != P('ctx', L['buf']):
                c.res.viol('value', fn, fn, 'another block than the buffer '
                           'is compressed last')
            if len(e[1]) > 2:
                c.same(I, S, fn, 'the flag of the last block', e[1][2],
                       K((1 << 64) - 1, 64))
            # zeros up to the end of the block
            pad = [x for x in S.ev[:S.ev.index(e)] if x[0] == 'memset' and
                   x[1][1] == 'ctx']
            c.res.obl['padding', fn, ''] = 1
            d, k = I.t.lin(blen)
            want = (L['buf'], tuple(sorted(k.items())))
            ok = [x for x in pad if x[1][2] == want and
                  isk(x[2]) and kv(x[2][:8]) == 0 and
                  x[3] == I.t.add(K(128, 64), blen, -1)]
            if not ok:
                if len(pad) == 1:
                    c.res.viol('padding', fn, pad[0][4], 'the rest of the '
                               'last block is not zeroed')
                elif not pad and not any(isinstance(q, tuple) for q in ()):
                    # no such call: perhaps a loop
                    if loops(m, fn):
                        c.res.undecided.append('padding in ' + fn)
                    else:
                        c.res.viol('padding', fn, fn, 'the rest of the last '
                                   'block is not zeroed')
                else:
                    c.res.undecided.append('padding in ' + fn)
            got = ()
            want = ()
            for i in range(outlen):
                got += rd(I, S, 'out', i, 1)
                want += I.t.p.bits(('in', 'digest', i), 8)
            c.same(I, S, fn, 'the digest', got, want)
            c.res.obl['extent', fn, ''] = 1
            if any(k[1] >= outlen for k in S.mem['out'].b):
                c.res.viol('extent', fn, fn, 'more bytes than asked for are '
                           'written')
    return n


def loops(m, fn):
    f = m.funcs[fn]
    seen, st = set(), []

    def dfs(b):
        seen.add(b); st.append(b)
        for s in f.blocks[b].succs:
            if s in st:
                return True
            if s not in seen and dfs(s):
                return True
        st.pop()
        return False
    return dfs(f.order[0])

"""C17: what node hashes are computed over.

Value numbering of the hash functions and of every function which makes a
hash: the stream fed to the hash primitive has to be the specified preimage,
byte by byte, for every kind of node, each length of a prefix, and a value of
any size; the hash has to end up where the callers look for it.
"""
from .vn import State, K, Z, O, isk, kv, NULL, differ
from .eng import AnalysisBroken
from .phash import rd, P
from .pcodec import Run, guard, hash32, bitsval, m_ptr, KEYBITS, field

N, Pf = 'urkel_node_s', 'urkel_proof_s'
HASHED = 1


def hook(I, S, name, args, loc, ins):
    if name == 'urkel_blake2b_init':
        if not isk(args[1]) or not isk(args[3]):
            raise AnalysisBroken('hash of unknown length at ' + loc)
        S.facts['stream', args[0][1], args[0][2]] = (
            kv(args[1]), kv(args[3]), ())
        return [(None, S)]
    if name == 'urkel_blake2b_update':
        k = ('stream', args[0][1], args[0][2])
        if k not in S.facts:
            raise AnalysisBroken('update of an unknown hash at ' + loc)
        ol, kl, st = S.facts[k]
        d, n = args[1], args[2]
        if isk(n):
            if kv(n) > 4096:
                raise AnalysisBroken('large update at ' + loc)
            if kv(n):
                st += tuple(('b', rd(I, S, d[1], d[2][0] + i, 1)
                             if not d[2][1] else I.rdb(S, d[1], d[2][1],
                                                       d[2][0] + i))
                            for i in range(kv(n)))
        elif I.decide(S, I.t.eq(n, K(0, len(n)), S.facts)) != 1:
            st += (('seg', I.origin(S, d, I.t.p.id(n)), n),)
        S.facts[k] = (ol, kl, st)
        return [(None, S)]
    if name == 'urkel_blake2b_final':
        k = ('stream', args[0][1], args[0][2])
        if k not in S.facts:
            raise AnalysisBroken('end of an unknown hash at ' + loc)
        ol, kl, st = S.facts.pop(k)
        o = I.o(S, args[1][1])
        for i in range(ol):
            o.b[args[1][2][1], args[1][2][0] + i] = \
                I.t.p.bits(('H', ol, kl, st, i), 8)
        return [(None, S)]
    if name in ('urkel_store_retrieve',):
        out, size = args[2], args[3]
        n = I.t.p.bits(('in', 'vsize'), 10) + (Z,) * 54
        I.store(S, Int(64), n, size)
        I.o(S, out[1]).s.append((out[2][1], out[2][0], I.t.p.id(n),
                                 ('value of', args[1])))
        T = S.copy()
        T.ev.append(('failed',))
        return [(K(0, ins.ty.w), T), (K(1, ins.ty.w), S)]
    if name == 'urkel_bits_has':
        S.ev.append(('has', args))
        T = S.copy()
        S.ev.append(('short',))
        return [(K(0, ins.ty.w), S), (K(1, ins.ty.w), T)]
    if name == 'urkel_proof_push':
        S.ev.append(('push', args, tuple(
            rd(I, S, args[2][1], args[2][2][0] + i, 1) for i in range(32))))
        return [(None, S)]
    if name == 'urkel_node_key_equals':
        T = S.copy()
        S.ev.append(('equal', 1))
        T.ev.append(('equal', 0))
        return [(K(0, ins.ty.w), T), (K(1, ins.ty.w), S)]
    if name in ('urkel_get_bit', 'urkel_bits_get'):
        S.n += 1
        return [(I.t.p.bits(('call', name, S.n), 1) + (Z,) * (ins.ty.w - 1),
                 S)]
    return None


class Int:
    k = 'int'

    def __init__(self, w):
        self.w = w

    def size(self):
        return self.w // 8


def by(*v):
    return tuple(('b', K(x, 8)) for x in v)


def symbytes(R, tag, n=32):
    return tuple(('b', R.sym((tag, i), 8)) for i in range(n))


def pbytes(R, tag, n):
    return tuple(('b', R.sym((tag, 'bits', i), 8))
                 for i in range((n + 7) // 8))


def H(R, st, ol=32):
    return tuple(('b', R.I.t.p.bits(('H', ol, 0, st, i), 8))
                 for i in range(ol))


def p_inner(R, n, tag, left, right):
    st = by(1) if n == 0 else by(2, n & 255, n >> 8) + pbytes(R, tag, n)
    return st + left + right


def is_hash(R, S, fn, what, obj, off, want, ol=32):
    """the bytes at (obj, off) are the hash of a stream"""
    R.res.obl['preimage', fn, what] = R.res.obl.get(
        ('preimage', fn, what), 0) + 1
    p = R.I.t.p
    got = [rd(R.I, S, obj, off + i, 1) for i in range(ol)]
    x = got[0][0]
    key = None
    if len(x) == 1:
        (a,) = x
        if a != 1:
            key = p.keys[a[0]]
    if key is None or key[0] != 'H' or any(
            got[i] != p.bits(key[:4] + (i,), 8) for i in range(ol)):
        R.bad(fn, 'preimage', '%s is not the digest of a preimage' % what)
        return
    if key[1] != ol or key[2] != 0:
        R.bad(fn, 'preimage', '%s is made with another length or key' % what)
        return
    st = key[3]

    if not isinstance(want, list):
        want = [want]
    if st in want:
        return
    want = want[-1]
    if st == want:
        return
    if [q[0] for q in st] != [q[0] for q in want]:
        R.bad(fn, 'preimage', '%s is not over the specified preimage' % what)
        return
    for q, w in zip(st, want):
        if q[0] == 'b':
            if q[1] != w[1]:
                if differ(R.I, S, q[1], w[1]) is not None:
                    R.bad(fn, 'preimage', '%s is not over the specified '
                          'preimage' % what)
                    return
                R.und('%s in %s' % (what, fn))
                return
        elif q[1] != w[1]:
            R.bad(fn, 'preimage', '%s is over other data' % what)
            return
        elif q[2] != w[2]:
            if differ(R.I, S, q[2], w[2]) is not None:
                R.bad(fn, 'preimage', '%s is over another number of bytes'
                      % what)
            else:
                R.und('%s in %s' % (what, fn))
            return


def run(f):
    @guard
    def g(res, m, *a):
        return f(Run(res, m, f.__name__.replace('_', ' '), hook), State(),
                 *a)
    g.__name__ = f.__name__
    return g


@run
def internal(R, S, n):
    fn = 'urkel_hash_internal'
    R.what = 'prefix of %d bits' % n
    bitsval(R, S, 'pre', 0, n, 'p')
    hash32(R, S, 'l', 0, 'l')
    hash32(R, S, 'r', 0, 'r')
    k = 0
    for alias in ('out', 'l', 'r'):
        for r, T in R.paths(fn, S.copy(), [P(alias), P('pre'), P('l'),
                                           P('r')]):
            is_hash(R, T, fn, 'the hash of an inner node', alias, 0, p_inner(
                R, n, 'p', symbytes(R, 'l'), symbytes(R, 'r')))
            k = 1
    return k


@run
def leafhash(R, S):
    fn = 'urkel_hash_leaf'
    hash32(R, S, 'k', 0, 'k')
    hash32(R, S, 'v', 0, 'v')
    k = 0
    for r, T in R.paths(fn, S, [P('out'), P('k'), P('v')]):
        is_hash(R, T, fn, 'the hash of a leaf', 'out', 0,
                by(0) + symbytes(R, 'k') + symbytes(R, 'v'))
        k = 1
    return k


def seg(R, obj, n, off=0):
    return (('seg', ('at', obj, (off, ())), n),)


def p_value(R, key, value):
    return by(0) + key + H(R, value)


def p_values(R, T, key, value):
    """with no bytes of a value which is empty on this path"""
    out = [p_value(R, key, value)]
    n = value[0][2] if value and value[0][0] == 'seg' else None
    if n is not None and R.I.decide(T, R.I.t.eq(n, K(0, len(n)),
                                                T.facts)) == 1:
        out.append(p_value(R, key, ()))
    return out


@run
def valuehash(R, S, size):
    fn = 'urkel_hash_value'
    hash32(R, S, 'k', 0, 'k')
    k = 0
    n = R.sym('size', 10) + (Z,) * 54 if size is None else K(size, 64)
    for r, T in R.paths(fn, S, [P('out'), P('k'), P('v'), n]):
        v = seg(R, 'v', n) if size is None else tuple(
            ('b', rd(R.I, T, 'v', i, 1)) for i in range(size))
        is_hash(R, T, fn, 'the hash of a leaf', 'out', 0,
                p_values(R, T, symbytes(R, 'k'), v))
        k = 1
    return k


@run
def rawhash(R, S, fn):
    k = 0
    n = R.sym('size', 64)
    for r, T in R.paths(fn, S, [P('out'), P('v'), n]):
        is_hash(R, T, fn, 'the hash of data', 'out', 0, seg(R, 'v', n))
        k = 1
    return k


def flags(R, S, obj, v):
    R.setf(S, obj, 0, N, 'flags', K(v, 32))


def hashed(R, S, obj, typ, tag):
    R.setf(S, obj, 0, N, 'type', K(typ, 32))
    flags(R, S, obj, HASHED)
    hash32(R, S, obj, R.f(N, 'hash')[0], tag)


def returned(R, T, fn, r, obj):
    o = R.f(N, 'hash')[0]
    R.res.obl['result', fn, ''] = 1
    if r != P(obj, o):
        R.bad(fn, 'result', 'something else than the hash of the node is '
              'returned')
    f = R.get(T, obj, 0, N, 'flags')
    if f[0] != O:
        R.bad(fn, 'result', 'the node is not marked as hashed')


def child(R, S, side, kind):
    """a node below another, and the bytes of its hash"""
    if kind == 'leaf':
        R.setf(S, side, 0, N, 'type', K(2, 32))
        flags(R, S, side, 4)
        hash32(R, S, side, R.f(N, 'u.leaf.key')[0], side + 'k')
        S.obj(side).p[(), R.f(N, 'u.leaf.value')[0]] = P(side + 'v')
        z = R.sym(side + 'size', 10) + (Z,) * 54
        R.setf(S, side, 0, N, 'u.leaf.size', z)
        return H(R, p_value(R, symbytes(R, side + 'k'),
                            seg(R, side + 'v', z)))
    hashed(R, S, side, {'null': 0, 'inner': 1, 'hash': 3}[kind], side)
    return symbytes(R, side)


@run
def node_inner(R, S, n, kinds):
    """urkel_node_hash of an inner node with children of some kinds"""
    fn = 'urkel_node_hash'
    R.what = 'inner node, prefix of %d bits, children %s' % (n, kinds)
    R.setf(S, 'in', 0, N, 'type', K(1, 32))
    flags(R, S, 'in', 0)
    bitsval(R, S, 'in', 0, n, 'p', N, 'u.internal.prefix')
    ch = {}
    for side, kind in zip(('left', 'right'), kinds):
        o, _ = R.f(N, 'u.internal.' + side)
        S.obj('in').p[(), o] = P(side)
        ch[side] = child(R, S, side, kind)
    k = 0
    for r, T in R.paths(fn, S, [P('in')]):
        is_hash(R, T, fn, 'the hash of an inner node', 'in',
                R.f(N, 'hash')[0], p_inner(R, n, 'p', ch['left'],
                                           ch['right']))
        returned(R, T, fn, r, 'in')
        k = 1
    return k


@run
def node_kept(R, S, typ):
    """a hash known is returned as it is"""
    fn = 'urkel_node_hash'
    R.what = 'node of type %d with a known hash' % typ
    hashed(R, S, 'in', typ, 'h')
    k = 0
    for r, T in R.paths(fn, S, [P('in')]):
        got = want = ()
        for i in range(32):
            got += rd(R.I, T, 'in', R.f(N, 'hash')[0] + i, 1)
            want += R.sym(('h', i), 8)
        R.same(T, fn, 'kept', 'a known hash is replaced', got, want)
        returned(R, T, fn, r, 'in')
        k = 1
    return k


def nodeobj(R, r):
    return r[1] if r is not None and r[0] == 'P' and r[1] and \
        r[2] == (0, ()) else None


@run
def create_leaf(R, S):
    fn = 'urkel_node_create_leaf'
    hash32(R, S, 'k', 0, 'k')
    n = R.sym('size', 10) + (Z,) * 54
    k = 0
    for r, T in R.paths(fn, S, [P('k'), P('v'), n]):
        o = nodeobj(R, r)
        if o is None:
            R.und('result of ' + fn)
            continue
        if R.get(T, o, 0, N, 'flags')[0] != O:
            k = 1
            continue                    # hashed when it is needed
        is_hash(R, T, fn, 'the hash of a leaf', o, R.f(N, 'hash')[0],
                p_values(R, T, symbytes(R, 'k'), seg(R, 'v', n)))
        got = want = ()
        for i in range(32):
            got += rd(R.I, T, o, R.f(N, 'u.leaf.key')[0] + i, 1)
            want += R.sym(('k', i), 8)
        R.same(T, fn, 'leaf', 'the key of a leaf is another', got, want)
        R.same(T, fn, 'leaf', 'the size of the value of a leaf is another',
               R.get(T, o, 0, N, 'u.leaf.size'), n)
        k = 1
    return k


@run
def empty(R, S):
    """the empty tree"""
    fn = 'urkel_node_init'
    k = 0
    for r, T in R.paths(fn, S, [P('in'), K(0, 32)]):
        got = ()
        for i in range(32):
            got += rd(R.I, T, 'in', R.f(N, 'hash')[0] + i, 1)
        R.same(T, fn, 'empty', 'the hash of the empty tree is not zero',
               got, K(0, 256))
        R.res.obl['empty', fn, 'flag'] = 1
        if R.get(T, 'in', 0, N, 'flags')[0] != O:
            R.bad(fn, 'empty', 'the empty tree is not marked as hashed')
        k = 1
    return k


@run
def fresh(R, S, typ):
    """a new node is not taken for hashed"""
    fn = 'urkel_node_init'
    k = 0
    for r, T in R.paths(fn, S, [P('in'), K(typ, 32)]):
        R.res.obl['fresh', fn, str(typ)] = 1
        if R.get(T, 'in', 0, N, 'flags')[0] != Z:
            R.bad(fn, 'fresh', 'a new node is marked as hashed')
        k = 1
    return k


@run
def create_internal(R, S, bit):
    fn = 'urkel_node_create_internal'
    bitsval(R, S, 'pre', 0, 9, 'p')
    hashed(R, S, 'x', 2, 'x')
    hashed(R, S, 'y', 2, 'y')
    k = 0
    for r, T in R.paths(fn, S, [P('pre'), P('x'), P('y'), K(bit, 32)]):
        o = nodeobj(R, r)
        if o is None:
            R.und('result of ' + fn)
            continue
        h = R.f(N, 'hash')[0]
        fl = R.get(T, o, 0, N, 'flags')
        R.res.obl['fresh', fn, ''] = 1
        if fl[0] != Z:
            is_hash(R, T, fn, 'the hash of an inner node', o, h, p_inner(
                R, 9, 'p', symbytes(R, 'yx'[1 - bit]),
                symbytes(R, 'xy'[1 - bit])))
        k = 1
    return k


@run
def prove(R, S, typ, kind='inner'):
    """the hashes a proof is made of"""
    fn = 'urkel_tree_prove'
    g = R.m.funcs.get(fn)
    if g is None or not g.blocks or [t.k for t, _ in g.params] != [
            'ptr', 'ptr', 'ptr', 'ptr', 'int']:
        raise AnalysisBroken('%s: not there' % fn)
    R.what = 'proof at a node of type %d' % typ
    hash32(R, S, 'key', 0, 'key')
    R.setf(S, 'in', 0, N, 'type', K(typ, 32))
    ch = {}
    if typ == 1:
        bitsval(R, S, 'in', 0, 9, 'p', N, 'u.internal.prefix')
        for side in ('left', 'right'):
            S.obj('in').p[(), R.f(N, 'u.internal.' + side)[0]] = P(side)
            ch[side] = child(R, S, side, kind)
    else:
        hash32(R, S, 'in', R.f(N, 'u.leaf.key')[0], 'k')
    flags(R, S, 'in', HASHED if kind == 'inner' else 0)
    k = 0
    # one level: calls of itself are not followed
    old = R.I.hook

    def h2(I, S, name, args, loc, ins):
        if name == fn:
            S.ev.append(('recurse', args))
            return [(K(1, ins.ty.w), S)]
        return old(I, S, name, args, loc, ins)
    R.I.hook = h2
    for r, T in R.paths(fn, S, [P('tree'), P('proof'), P('in'), P('key'),
                                K(3, 32)]):
        ev = {e[0] for e in T.ev}
        if 'failed' in ev or r is None or not isk(r) or kv(r) == 0:
            continue
        k = 1
        if typ == 1 and 'short' in ev:
            for x in ('left', 'right'):
                got = want = ()
                for i in range(32):
                    got += rd(R.I, T, 'proof', R.f(Pf, x)[0] + i, 1)
                    want += ch[x][i][1]
                R.same(T, fn, 'proof', 'the hash of a child is not put into '
                       'the proof of a short node', got, want)
        if typ == 1 and 'short' not in ev:
            R.res.obl['proof', fn, 'sibling'] = 1
            rec = [e for e in T.ev if e[0] == 'recurse']
            push = [e for e in T.ev if e[0] == 'push']
            if len(rec) != 1 or len(push) != 1 or rec[0][1][2][0] != 'P':
                R.und('steps of ' + fn)
                continue
            x = rec[0][1][2][1]
            y = {'left': 'right', 'right': 'left'}.get(x)
            if y is None:
                R.und('steps of ' + fn)
                continue
            if push[0][2] != tuple(q[1] for q in ch[y]):
                R.bad(fn, 'proof', 'a step of a proof does not hold the hash '
                      'of the sibling')
        if typ == 2:
            eq = [e[1] for e in T.ev if e[0] == 'equal']
            if eq == [0]:
                n = R.I.t.p.bits(('in', 'vsize'), 10) + (Z,) * 54
                is_hash(R, T, fn, 'the hash of the value in a proof of '
                        'another key', 'proof', R.f(Pf, 'hash')[0],
                        (('seg', ('value of', P('in')), n),))
                got = want = ()
                for i in range(32):
                    got += rd(R.I, T, 'proof', R.f(Pf, 'key')[0] + i, 1)
                    want += R.sym(('k', i), 8)
                R.same(T, fn, 'proof', 'the key of a proof of another key '
                       'is not the one of the leaf', got, want)
            elif eq != [1]:
                R.und('leaf in ' + fn)
    return k


def c17(ctx):
    res = ctx.result()
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        for n in range(KEYBITS + 1):
            done += internal(res, m, n)
            done += node_inner(res, m, n, ('hash', 'inner'))
        done += leafhash(res, m)
        for z in (None, 0, 1, 1023):
            done += valuehash(res, m, z)
        for f in ('urkel_hash_raw', 'urkel_hash_key'):
            done += rawhash(res, m, f)
        for a in ('null', 'leaf', 'inner', 'hash'):
            for b in ('null', 'leaf', 'inner', 'hash'):
                for n in (0, 3):
                    done += node_inner(res, m, n, (a, b))
        for t in range(4):
            done += node_kept(res, m, t)
        done += create_leaf(res, m)
        done += empty(res, m)
        for t in (1, 2):
            done += fresh(res, m, t)
        for b in (0, 1):
            done += create_internal(res, m, b)
        for t in (1, 2):
            done += prove(res, m, t)
            done += prove(res, m, t, 'leaf')
    res.need('preimages compared', done, 10)
    return res

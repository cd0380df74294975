"""C25, the stream: every byte of a message is hashed once, in order, in
blocks of 128 bytes, with the counter advanced by 128 before each block; the
last block, even a full one, stays in the buffer; the number of bytes
buffered is recorded.  For all lengths and any number of bytes buffered.
"""
from .pxfer import add, scale, const, var, isconst, cval
from .rel import Rel, Client, base
from .eng import AnalysisBroken

FN = 'urkel_blake2b_update'
BLK = {'urkel_blake2b_compress', 'urkel_blake2b_increment'}
FILL, FED, PEND = 'g@fill', 'g@fed', 'g@pend'


class Stream(Client):
    weak = True

    def __init__(self, res, L, ctxp, inp, lenp, pool):
        self.res = res; self.L = L
        self.ctx = 'P:' + ctxp; self.inp = 'P:' + inp
        self.len = var('P:' + lenp)
        self.cursors = {self.inp}
        self.seen = set()

    def start(self, R, S, fn):
        b = var(S.cell(self.ctx, self.L['buflen']))
        S.a.add_ge(b)
        S.a.add_ge(add(const(128), b, -1))
        S.a.add_ge(self.len)
        S.a.add_eq(add(var(FILL), b, -1))
        S.a.add_eq(var(FED))
        S.a.add_eq(var(PEND))

    def left(self):
        return add(self.len, var(FED), -1)

    def templates(self, R, tgt):
        b = var((self.ctx, self.L['buflen']))
        t = [self.left(), add(self.left(), const(-1)),
             add(const(128), var(FILL), -1), var(FILL),
             add(add(const(128), var(FILL), -1), self.left(), -1)]
        return t

    def extent(self, R, obj, off):
        if obj == self.ctx and isinstance(off, int) and \
                self.L['buf'] <= off < self.L['buf'] + 128:
            return self.L['buf'] + 128 - off
        return 1 << 60

    def bad(self, R, rule, loc, msg):
        self.res.viol(rule, FN, loc, msg, key=(rule, loc))

    def ob(self, rule, loc):
        self.res.obl[rule, FN, loc] = 1

    def same(self, R, S, f, g, rule, loc, msg):
        self.ob(rule, loc)
        if f is None:
            self.res.undecided.append('%s at %s' % (rule, loc))
        elif not S.equal(f, g):
            self.bad(R, rule, loc, msg)

    def atleast(self, R, S, f, rule, loc, msg):
        self.ob(rule, loc)
        if not S.ge(f):
            self.bad(R, rule, loc, msg)

    def bufoff(self, p):
        """offset into the buffer as a form, or None"""
        if p is None or p[0] != self.ctx:
            return None
        o = p[1]
        if isinstance(o, int):
            f = const(o)
        else:
            f = add(const(o[0]), scale(var(o[2]), o[1]))
            if not self.L['buf'] <= o[0] < self.L['buf'] + 128:
                return None
        return add(f, const(-self.L['buf']))

    def call(self, R, S, name, args, dst, loc, ins):
        if name == 'urkel_blake2b_increment':
            f = R.num(S, args[1])
            if f is None:
                raise AnalysisBroken('increment at ' + loc)
            S.a.assign(PEND, S.a.norm(add(var(PEND), f)))
            return [S]
        if name == 'urkel_blake2b_compress':
            self.same(R, S, var(PEND), const(128), 'counter', loc, 'the '
                      'counter is not advanced by 128 before the block is '
                      'compressed')
            S.a.assign(PEND, {})
            if len(args) > 2:
                self.same(R, S, R.num(S, args[2]), {}, 'flag', loc, 'a '
                          'block which is not the last is flagged as last')
            q = R.cur(S, args[1])
            b = self.bufoff(R.ptr(S, args[1]))
            if q is not None and q[0] == self.inp:
                self.same(R, S, q[1], var(FED), 'order', loc, 'the block '
                          'compressed does not start at the first byte not '
                          'hashed')
                self.same(R, S, var(FILL), {}, 'order', loc, 'a block is '
                          'compressed while bytes are buffered')
                S.a.assign(FED, S.a.norm(add(var(FED), const(128))))
            elif b is not None:
                self.same(R, S, b, {}, 'order', loc, 'the block compressed '
                          'does not start where the buffer does')
                self.same(R, S, var(FILL), const(128), 'order', loc,
                          'the buffer is compressed before it is full')
                S.a.assign(FILL, {})
            else:
                raise AnalysisBroken('block at ' + loc)
            self.atleast(R, S, add(self.left(), const(-1)), 'last', loc,
                         'the block compressed may be the last of the '
                         'message')
            return [S]
        if name == 'abort' or name in ('__assert_fail',
                                       '__urkel_assert_fail'):
            return []
        return None

    def copied(self, R, S, d, s, n, loc, args):
        b = self.bufoff(d)
        if b is None:
            return
        q = R.cur(S, args[1])
        if q is None or n is None or q[0] != self.inp:
            raise AnalysisBroken('copy at ' + loc)
        self.same(R, S, b, var(FILL), 'order', loc, 'bytes are not copied '
                  'behind those buffered')
        self.same(R, S, q[1], var(FED), 'order', loc, 'the bytes copied do '
                  'not start at the first byte not hashed')
        self.atleast(R, S, add(const(128), add(b, n), -1), 'extent', loc,
                     'more bytes may be copied than fit into the buffer')
        self.atleast(R, S, add(self.left(), n, -1), 'extent', loc, 'more '
                     'bytes may be copied than the message has')
        S.a.assign('g@n', S.a.norm(n))
        S.a.assign(FILL, S.a.norm(add(var(FILL), var('g@n'))))
        S.a.assign(FED, S.a.norm(add(var(FED), var('g@n'))))
        S.a.forget('g@n')

    def store_elem(self, R, S, ins, obj, off, v):
        raise AnalysisBroken('store at ' + R.m.locstr(ins.loc))

    def stored(self, R, S, ins, obj, off, v):
        if obj == self.ctx and off != self.L['buflen']:
            raise AnalysisBroken('store at ' + R.m.locstr(ins.loc))

    def store_unknown(self, R, S, ins, v, o):
        raise AnalysisBroken('store at ' + R.m.locstr(ins.loc))

    store_cur = lambda self, R, S, ins, v, obj, f: self.store_unknown(
        R, S, ins, v, None)

    def zeroed(self, R, S, d, k, v, loc):
        raise AnalysisBroken('memset at ' + loc)

    def ret(self, R, S, o, loc):
        self.same(R, S, self.left(), {}, 'all', loc, 'not every byte of the '
                  'message was hashed or buffered')
        self.same(R, S, var(S.cell(self.ctx, self.L['buflen'])), var(FILL),
                  'fill', loc, 'the number of bytes buffered is not the one '
                  'recorded')
        self.same(R, S, var(PEND), {}, 'counter', loc, 'the counter is '
                  'advanced without a block')


def update(ctx, res, m, L):
    f = m.funcs.get(FN)
    if f is None or not f.blocks or len(f.params) != 3 or \
            [t.k for t, _ in f.params] != ['ptr', 'ptr', 'int']:
        res.undecided.append('%s: not there' % FN)
        return 0
    for n in BLK:
        g = m.funcs.get(n)
        if g is None or not g.blocks:
            res.undecided.append('%s: %s is not there' % (FN, n))
            return 0
    names = [n for _, n in f.params]
    cl = Stream(res, L, *names, None)
    try:
        R = Rel(m, FN, cl, lambda n, g: n not in BLK and g.internal)
        R.run()
    except AnalysisBroken as x:
        res.undecided.append('%s: %s' % (FN, x))
        return 0
    res.fns.add(FN)
    res.nstates += R.steps
    return 1

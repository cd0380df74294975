"""Contracts of the bit-string primitives (C24)."""
from .pxfer import add, scale, const, var, isconst, cval
from .rel import Rel, Client, base
from .eng import AnalysisBroken


class Bits(Client):
    """Tracks which bits of which source every output bit string holds."""
    drop_bits = True
    split_phis = True

    def __init__(self, m, L, me, res, spec):
        self.m = m; self.L = L; self.me = me; self.res = res
        self.spec = spec
        f = m.funcs[me]
        self.par = ['P:' + nm for _, nm in f.params]
        self.obl = set()
        self.raws = set()
        self.viols = []
        self.ptrs = {'P:' + nm for ty, nm in f.params if ty.k == 'ptr'}

    def bad(self, loc, what):
        self.viols.append((loc, what))

    def size(self, S, o):
        return var(S.cell(o, self.L.bsize))

    def start(self, R, S, fn):
        S.a.add_eq(var('G:I'))
        # the sizes given: outputs may not alias them
        for i, p in enumerate(self.par):
            if p in self.ptrs:
                S.a.add_eq(add(self.size(S, p), var('G:z%d' % i), -1))
                S.a.add_ge(var('G:z%d' % i))

    def templates(self, R, tgt):
        R.templates(tgt)
        regs = {r for p in R._cmp1 for r in p} & R.f.live[tgt]
        return [add(var('G:z%d' % i), var(r), -1)
                for i, p in enumerate(self.par) if p in self.ptrs
                for r in regs]

    def arith(self, R, S, ins, x, y):
        if ins.op in ('udiv', 'lshr', 'sdiv', 'ashr') and x is not None \
                and y is not None:
            k = S.known(y)
            if k == (8 if ins.op in ('udiv', 'sdiv') else 3):
                dst = 'q8:' + ins.dst
                S.a.assign('qa@' + dst, S.a.norm(x))
                S.a.forget(dst)
                return var(dst)
        return None

    def pure(self, name):
        return True

    def bytes_for(self, S, n):
        """n is ceil(x / 8): the form x, or None."""
        f = S.a.norm(n)
        for v in [v for v in f if v.startswith('q8:')]:
            if f == {v: 1}:
                return add(S.a.norm(var('qa@' + v)), const(-7))
        # the quotient may have been eliminated in favour of another name
        for v in {w for e in S.a.eq for w in [e]} :
            if v.startswith('q8:') and S.equal(var(v), n):
                return add(S.a.norm(var('qa@' + v)), const(-7))
        return None

    def compared(self, R, S, e, g, equal, loc):
        self.obl.add(('bits compared', self.me, loc))
        x, y = S.bits.get(e[1]), S.bits.get(g[1])
        bk = self.spec.get('compare')
        if bk is None or x is None or y is None:
            return
        b, key, off, at = bk(self, S)
        if x[0] == key and y[0] != key:
            e, g, x, y = g, e, y, x
        if x[0] != b or y[0] != key or (e[2] ^ g[2]) or \
                not S.equal(var(e[1]), add(off, var('G:I'))) or \
                not S.equal(var(g[1]), add(at, var('G:I'))):
            self.bad(loc, 'the bits compared are not the next bit of the '
                     'bit string and of the key')
        if 'stop' in S.facts:
            self.bad(loc, 'bits are compared behind the first difference')
        if equal:
            S.a.assign('G:I', add(var('G:I'), const(1)))
        else:
            S.facts['stop'] = 1

    # ------------------------------------------------------------ outputs

    def zeroed(self, R, S, d, k, v, loc):
        if d[0] in self.ptrs and d[1] <= self.L.bdata and v == {} and \
                k is not None and \
                d[1] + k >= self.L.bdata + self.L.keylen:
            S.facts[('zero', d[0])] = 1
            S.facts.pop(('segs', d[0]), None)
            S.a.assign('K@' + d[0], {})

    def seg(self, S, o, kind, start, n):
        """n more bits at the end of o."""
        segs = S.facts.get(('segs', o), ())
        K = 'K@' + o
        if segs and kind == segs[-1] and start is not None:
            i = len(segs) - 1
            done = add(var(K), var('d%d@%s' % (i, o)), -1)
            if S.equal(start, add(var('a%d@%s' % (i, o)), done)):
                S.a.assign(K, S.a.norm(add(var(K), n)))
                return
        i = len(segs)
        if i > 5:
            raise AnalysisBroken('bit string built from too many pieces')
        S.facts[('segs', o)] = segs + (kind,)
        S.a.assign('d%d@%s' % (i, o), S.a.norm(var(K)))
        if start is not None:
            S.a.assign('a%d@%s' % (i, o), S.a.norm(start))
        S.a.assign(K, S.a.norm(add(var(K), n)))

    def call(self, R, S, name, args, dst, loc, ins):
        L = self.L
        if name == 'urkel_get_bit':
            b = R.ptr(S, args[0]); i = R.num(S, args[1])
            if b is None or i is None:
                R.setval(S, dst, None)
                return [S]
            ix = 'b@' + dst
            for r in [r for r, e in S.env.items()
                      if e[0] == 'bit' and e[1] == ix]:
                del S.env[r]
            S.a.assign(ix, S.a.norm(i))
            S.bits[ix] = (b, None)
            R.setval(S, dst, ('bit', ix, 0))
            return [S]
        if name == 'urkel_set_bit':
            o = R.ptr(S, args[0]); i = R.num(S, args[1])
            self.obl.add(('bit set', self.me, loc))
            if o is None or o[1] != L.bdata:
                self.bad(loc, 'a bit is set outside the bit string')
                return [S]
            o = o[0]
            if ('zero', o) not in S.facts and ('segs', o) not in S.facts:
                self.bad(loc, 'a bit is set in a bit string which was not '
                         'cleared')
            if not S.equal(i, var('K@' + o)):
                self.bad(loc, 'the bit set is not the next one')
            e = R.val(S, args[2])
            if e is not None and e[0] == 'bit' and e[2] == 0:
                b = S.bits[e[1]][0]
                self.seg(S, o, ('b', b), var(e[1]), const(1))
                return [S]
            f = R.num(S, args[2])
            f = S.a.norm(f) if f is not None else None
            if f is not None and len(f) == 1 and \
                    next(iter(f)) in self.par:
                self.seg(S, o, ('p', next(iter(f))), None, const(1))
            else:
                self.seg(S, o, ('?',), None, const(1))
            return [S]
        return None

    def copied(self, R, S, d, s, n, loc, args):
        if d is None or d[0] not in self.ptrs or \
                not isinstance(d[1], int):
            return
        L = self.L
        k = S.known(n) if n is not None else None
        if s is None or not isinstance(s[1], int):
            self.bad(loc, 'unknown bytes are copied into a bit string')
            return
        if d[1] == L.bdata and s[1] == L.bdata and s[0] in self.ptrs:
            z = self.bytes_for(S, n) if n is not None else None
            if z is None and k == L.keylen:
                # all bytes: the bits behind the size are zero
                z = self.size(S, s[0])
            if z is not None and not S.equal(z, self.size(S, s[0])):
                S.facts[('dirty', d[0])] = 1
            if z is None or not S.equal(var('K@' + d[0]), {}):
                self.bad(loc, 'the bytes copied are not those of the bits')
                return
            self.seg(S, d[0], ('b', (s[0], L.bdata)), {}, z)
            self.obl.add(('bits copied', self.me, loc))
        else:
            self.bad(loc, 'the bytes copied are not those of the bits')

    def extent(self, R, obj, off):
        return 0

    def ret(self, R, S, o, loc):
        if 'raw' in S.facts:
            self.raws.add(loc)
            return
        self.obl.add(('result', self.me, loc))
        c = self.spec.get('count')
        if c is not None:
            c(self, R, S, o, loc)
        for out, want in self.spec.get('out', lambda s, S: [])(self, S):
            self.check(S, out, want, loc)

    # bytes of bit strings handled directly are not followed
    def load_elem(self, R, S, ins, obj, off, dst):
        S.facts['raw'] = 1
        self.raws.add(self.m.locstr(ins.loc))
        R.setval(S, dst, None)
        return [S]

    def store_elem(self, R, S, ins, obj, off, v):
        S.facts['raw'] = 1
        self.raws.add(self.m.locstr(ins.loc))

    def check(self, S, o, want, loc):
        if ('dirty', o) in S.facts:
            self.bad(loc, '%s holds bits behind its size' % o[3:])
            return
        segs = S.facts.get(('segs', o), ())
        nm = o[3:]
        if ('zero', o) not in S.facts:
            self.bad(loc, '%s is not cleared first' % nm)
        i = 0
        cum = {}
        for kind, start, n in want:
            if i < len(segs) and segs[i] == kind and \
                    S.equal(var('d%d@%s' % (i, o)), cum) and \
                    (start is None or
                     S.equal(var('a%d@%s' % (i, o)), start)):
                i += 1
            elif not (S.equal(n, {})):
                self.bad(loc, '%s does not hold the bits of %s it should' %
                         (nm, kind[1][0][3:] if kind[0] == 'b' else
                          'the parameter'))
                return
            cum = add(cum, n)
        if i != len(segs):
            self.bad(loc, '%s holds bits it should not' % nm)
        if not S.equal(var('K@' + o), cum):
            self.bad(loc, 'not all bits of %s are set' % nm)
        if not S.equal(self.size(S, o), cum):
            self.bad(loc, 'the size of %s is not the number of its bits'
                     % nm)


def stopped(c, S, *limits):
    return 'stop' in S.facts or any(S.equal(var('G:I'), x) for x in limits)


def contracts(L):
    KB = const(L.keybits)

    def cmp_(off):
        def f(c, S):
            return ((c.par[0 if off is None else 1], L.bdata),
                    (c.par[1 if off is None else 2], 0),
                    {} if off is None else var(c.par[3]),
                    var(c.par[2 if off is None else 3]))
        return f

    def count(c, R, S, o, loc):
        f = R.num(S, o)
        if not S.equal(f, var('G:I')):
            c.bad(loc, 'the result is not the number of equal bits')
        if not stopped(c, S, var('G:z0'),
                       add(KB, var(c.par[2]), -1)):
            c.bad(loc, 'the comparison stops before the first difference')

    def has(c, R, S, o, loc):
        f = R.num(S, o); k = S.known(f) if f is not None else None
        full = S.equal(var('G:I'), var('G:z0'))
        if k == 1 and not full:
            c.bad(loc, 'a match is reported although not all bits were '
                  'found equal')
        elif k == 0 and full and 'stop' not in S.facts:
            c.bad(loc, 'no match is reported although all bits are equal')
        elif k not in (0, 1):
            c.bad(loc, 'the result is not a truth value')

    def collide(c, R, S, o, loc):
        if not stopped(c, S, add(var('G:z1'), var(c.par[3]), -1),
                       add(KB, var(c.par[3]), -1)):
            c.bad(loc, 'the comparison stops before the first difference')

    B = lambda c, i: ('b', (c.par[i], L.bdata))
    V = lambda c, i: var(c.par[i])
    return {
        'urkel_bits_count': dict(compare=cmp_(None), count=count),
        'urkel_bits_has': dict(compare=cmp_(None), count=has),
        'urkel_bits_slice': dict(out=lambda c, S: [
            (c.par[0], [(B(c, 1), V(c, 2), add(V(c, 3), V(c, 2), -1))])]),
        'urkel_bits_split': dict(out=lambda c, S: [
            (c.par[0], [(B(c, 2), {}, V(c, 3))]),
            (c.par[1], [(B(c, 2), add(V(c, 3), const(1)),
                         add(add(var('G:z2'), V(c, 3), -1),
                             const(-1)))])]),
        'urkel_bits_collide': dict(
            compare=cmp_(1), count=collide, out=lambda c, S: [
                (c.par[0], [(B(c, 1), V(c, 3), var('G:I'))])]),
        'urkel_bits_join': dict(out=lambda c, S: [
            (c.par[0], [(B(c, 1), {}, var('G:z1')),
                        (('p', c.par[3]), None, const(1)),
                        (B(c, 2), {}, var('G:z2'))])]),
    }


def run(m, L, res):
    def policy(name, g):
        return name not in ('urkel_get_bit', 'urkel_set_bit') and \
            len(g.blocks) <= 60
    n = 0
    for me, spec in sorted(contracts(L).items()):
        if me not in m.funcs or not m.funcs[me].blocks:
            continue
        cl = Bits(m, L, me, res, spec)
        R = Rel(m, me, cl, policy)
        R.run()
        n += 1
        res.fns |= R.f.fns
        res.nblocks += len(R.f.blocks)
        res.nstates += R.steps
        res.sites += R.sites
        for k in cl.obl:
            res.obl[k] = 1
        if not cl.raws:
            for loc, what in cl.viols:
                res.viol('bit string', me, loc, what, key=what)
        if cl.raws:
            res.undecided.append('%s: bytes of bit strings are '
                                 'handled directly at %s' % (me, sorted(cl.raws)))
    res.need('bit-string operations', n, 4)

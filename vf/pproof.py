"""C09: a proof is accepted only after every required check."""
from .pxfer import add, scale, const, var, isconst, cval
from .rel import Rel, Client, base
from .eng import AnalysisBroken
from .pnav import Layout, DEADEND, SHORT, COLLISION, EXISTS

PRIMS = {'urkel_bits_has', 'urkel_bits_init', 'urkel_bits_read',
         'urkel_bits_size', 'urkel_get_bit', 'urkel_set_bit',
         'urkel_hash_internal', 'urkel_hash_leaf', 'urkel_hash_value',
         'urkel_hash_raw', 'urkel_hash_key', 'urkel_bits_count',
         'urkel_read8', 'urkel_read16', 'urkel_read32', 'urkel_read64'}
E = 'E'


class Verify(Client):
    keep_ret = 1000
    drop_bits = False

    def __init__(self, m, L, me, res):
        self.m = m; self.L = L; self.me = me; self.res = res
        self.obl = set()
        self.lost = set()
        f = m.funcs[me]
        _, ps = m.fn_sig(me)
        names = [nm for _, nm in f.params]
        # (exists, value, value_len, raw, len, key, root)
        if len(names) != 7:
            raise AnalysisBroken('unexpected parameters of ' + me)
        self.exists, self.value, self.vlen, self.raw, self.len, \
            self.key, self.root = ['P:' + n for n in names]
        self.key = (self.key, 0); self.root = (self.root, 0)
        self.cursors = {self.raw}
        o = L.proof
        self.off = {k: v[0] for k, v in o.items()}
        self.nodes = o['nodes']
        self.proofs = set()
        pn = L.pnode
        self.np, self.nh = pn['prefix'][0], pn['hash'][0]
        self.accepts = 0

    def bad(self, loc, what):
        self.res.viol('proof', self.me, loc, what, key=what)

    def ob(self, kind, loc):
        self.obl.add((kind, self.me, loc))

    def array_at(self, obj, off):
        if obj in self.proofs and self.nodes[0] <= off < \
                self.nodes[0] + self.nodes[1]:
            return (self.nodes[0], 8)
        return None

    def start(self, R, S, fn):
        # the proof: the local object of that type
        sz = self.m.struct_di('urkel_proof_s').get('size')
        for lab, (phis, insts, term, src) in R.f.blocks.items():
            for ins, pre, sub in insts:
                if ins.op == 'alloca' and ins.ty.size() * 8 == int(sz):
                    self.proofs.add('A:' + pre + ins.dst)
        S.a.assign('G:end', {})
        S.a.assign('G:n', {})
        S.a.add_ge(var(self.len))

    # ------------------------------------------------------------ helpers

    def cellv(self, S, P, f):
        return var(S.cell(P, self.off[f]))

    def size(self, S, b):
        return var(S.cell(b[0], b[1] + self.L.bsize))

    def fork(self, R, S, dst, vals):
        out = []
        for v in vals:
            b = S.copy()
            R.setnum(b, dst, const(v))
            b.keep[dst] = v
            out.append(b)
        return out

    def edge(self, R, S, lab):
        used = {e[1] for e in S.env.values() if e[0] == 'bit'} | \
               {e[1] for e in S.mem.values() if e[0] == 'bit'}
        cur = 'elem' in S.facts
        for P in self.proofs:
            t = S.known(self.cellv(S, P, 'type'))
            if t is None:
                S.facts.pop('T', None)
            else:
                S.facts['T'] = t
        for ix in [ix for ix in S.bits if ix not in used]:
            b = S.bits[ix][0]
            if b == self.key and cur and S.bits[ix][1] is not None:
                continue
            del S.bits[ix]
            S.a.forget(ix)

    def pure(self, name):
        return name in PRIMS or name in ('free', 'memcmp', 'urkel_memcmp',
                                         '__urkel_memcmp',
                                         '__urkel_get_errno')

    def extent(self, R, obj, off):
        if obj in self.proofs:
            for o, sz in self.L.proof.values():
                if o <= off < o + sz:
                    return o + sz - off
        return 1 << 60

    def arith(self, R, S, ins, x, y):
        if ins.op in ('udiv', 'lshr') and x is not None and y is not None:
            k = S.known(y)
            if k == (8 if ins.op == 'udiv' else 3):
                dst = 'q8:' + ins.dst
                f = S.a.norm(x)
                S.a.forget(dst)
                S.a.assign('qa@' + dst, f)
                S.a.add_ge(var(dst))
                S.facts[('q8', dst)] = 1
                return var(dst)
        if ins.op == 'lshr' and y is not None and S.known(y) is not None:
            v = 'sh:' + ins.dst
            S.a.forget(v)
            S.a.add_ge(var(v))
            return var(v)
        return None

    def fields(self, R, obj, off, k):
        if obj in self.proofs:
            return [o for o, sz in self.L.proof.values()
                    if off <= o < off + k and sz in (4, 8)] + \
                [self.off['prefix'] + self.L.bsize]
        return []

    def copy_cells(self, d, s, n):
        return [self.L.bsize] if n == self.L.bits else []

    def templates(self, R, tgt):
        return [add(var('G:n'), const(-1))]

    # ----------------------------------------------------------- raw bytes

    def read(self, S, f, n, loc):
        """n bytes at offset f of the input are used."""
        self.ob('input read', loc)
        e = S.a.norm(add(f, n))
        d = add(e, var('G:end'), -1)
        if S.ge(d):
            S.a.assign('G:end', e)
        elif not S.ge(scale(d, -1)):
            self.lost.add(loc)
            S.facts['lost'] = 1

    def load_cur(self, R, S, ins, obj, f, dst):
        self.read(S, f, const(ins.ty.size()),
                  self.m.locstr(ins.loc))
        S.a.add_ge(var(dst))
        return [S]

    def copied(self, R, S, d, s, n, loc, args):
        q = R.cur(S, args[1])
        if q is not None:
            if n is None:
                S.facts['lost'] = 1
            else:
                self.read(S, q[1], n, loc)
        if d is None or not isinstance(d[1], int):
            return
        for k in [k for k in S.facts if k[0] == 'cont' and k[1] == d[0] and
                  k[2] == d[1]]:
            del S.facts[k]
        if s is not None and isinstance(s[1], int):
            k = S.known(n) if n is not None else None
            c = self.content(S, s)
            if c is not None and k == 32:
                S.facts[('cont',) + d] = c
            if s[0] in self.proofs and s[1] == self.off['value'] and \
                    S.equal(n, self.cellv(S, s[0], 'size')):
                S.facts[('cont',) + d] = 'value'

    def content(self, S, p):
        """What the 32 bytes at p are: 'cur', 'zero', 'root', or None."""
        if p is None or not isinstance(p[1], int):
            return None
        if p == self.root:
            return 'root'
        if p == self.key:
            return 'key'
        if p[0] == E and p[1] == self.nh:
            return 'sib'
        c = S.facts.get(('cont',) + p)
        if c is None and p[0] in self.proofs:
            for f in ('left', 'right', 'key', 'hash'):
                if p[1] == self.off[f]:
                    return 'p.' + f
        return c

    def zeroed(self, R, S, d, k, v, loc):
        for x in [x for x in S.facts if x[0] == 'cont' and x[1] == d[0]
                  and (k is None or d[1] <= x[2] < d[1] + k)]:
            del S.facts[x]
        if k == 32 and v == {}:
            S.facts[('cont',) + d] = 'zero'

    # ------------------------------------------------------------- elements

    def store_elem(self, R, S, ins, obj, off, v):
        if obj not in self.proofs or off[0] != self.nodes[0]:
            return
        loc = self.m.locstr(ins.loc)
        self.ob('step decoded', loc)
        if 'k' in S.facts:
            self.bad(loc, 'a step is added to the proof while it is '
                     'verified')
        if not S.equal(var(off[2]), var('G:n')):
            self.bad(loc, 'a step of the proof is not stored behind the '
                     'one before')
        S.a.assign('G:n', add(var('G:n'), const(1)))
        S.a.add_ge(add(var('G:n'), const(-1)))
        S.facts['stepped'] = 1

    def load_elem(self, R, S, ins, obj, off, dst):
        if obj not in self.proofs or off[0] != self.nodes[0]:
            R.setval(S, dst, None)
            return [S]
        ix = S.a.norm(var(off[2]))
        if 'elem' in S.facts and S.equal(ix, var('G:ix')):
            R.setval(S, dst, ('p', E, 0))
            return [S]
        S.a.add_eq(add(var('t1'), ix, -1))
        self.finish(S, self.m.locstr(ins.loc))
        S.reset(E)
        S.facts['elem'] = 1
        S.a.assign('G:ix', S.a.norm(var('t1')))
        S.a.forget('t1')
        S.a.add_ge(var(S.cell(E, self.np + self.L.bsize)))
        R.setval(S, dst, ('p', E, 0))
        return [S]

    def open(self, S, loc):
        """The current element is used as the next step."""
        if 'open' in S.facts:
            return
        self.ob('step', loc)
        if 'rooteq' in S.facts:
            self.bad(loc, 'a step follows the comparison with the root')
        self.first(S, loc)
        if not S.equal(var('G:ix'), add(var('G:k'), const(-1))):
            self.bad(loc, 'the steps are not taken from the last to the '
                     'first')
        S.facts['open'] = 1

    def first(self, S, loc):
        """The walk along the steps starts."""
        if 'k' in S.facts:
            return
        P = next(iter(self.proofs))
        S.facts['k'] = 1
        S.a.assign('G:k', S.a.norm(self.cellv(S, P, 'nodes_len')))
        S.a.assign('G:d', S.a.norm(self.cellv(S, P, 'depth')))
        if not S.equal(var('G:n'), var('G:k')):
            self.bad(loc, 'the number of steps is not the number of the '
                     'steps read')
        if not S.ge(add(const(self.L.keybits), var('G:d'), -1)):
            self.bad(loc, 'a proof may be deeper than a key is long')

    def finish(self, S, loc):
        S.facts.pop('elem', None)
        if S.facts.pop('open', None) is None:
            return
        has = S.facts.pop('has', None)
        hashed = S.facts.pop('hashed', None)
        if 'reject' in S.facts:
            return
        if has != 1:
            self.bad(loc, 'a step is taken without its prefix matching the '
                     'key')
        if hashed is None:
            self.bad(loc, 'a step does not enter the hash')
        z = var(S.cell(E, self.np + self.L.bsize))
        S.a.assign('G:d', S.a.norm(add(add(var('G:d'), z, -1), const(-1))))
        S.a.assign('G:k', add(var('G:k'), const(-1)))

    # ---------------------------------------------------------------- calls

    def begin(self, S, kind, out, loc):
        self.ob('leaf hash', loc)
        if 'k' in S.facts:
            self.bad(loc, 'the leaf is hashed after a step')
        for k in [k for k, v in S.facts.items() if k[0] == 'cont' and
                  v in ('cur', 'zero')]:
            del S.facts[k]
        S.facts['start'] = kind
        if out is not None:
            S.facts[('cont',) + out] = 'cur'

    def hashed(self, S, args, R, loc):
        out, b, l, r = [R.ptr(S, args[i]) for i in range(4)]
        cl, cr = self.content(S, l), self.content(S, r)
        if b is not None and b[0] in self.proofs and \
                b[1] == self.off['prefix']:
            if (cl, cr) != ('p.left', 'p.right'):
                self.bad(loc, 'the inner node of the proof is not hashed '
                         'from its two children')
            self.begin(S, SHORT, out, loc)
            return
        if b is None or b[0] != E or b[1] != self.np:
            self.bad(loc, 'a hash is computed with a prefix which is not '
                     'that of the proof')
            return
        self.open(S, loc)
        if 'hashed' in S.facts:
            self.bad(loc, 'a step is hashed twice')
        S.facts['hashed'] = 1
        own = ('cur', 'zero')
        if 'start' not in S.facts and ('zero' in (cl, cr)):
            S.facts['start'] = DEADEND
        at = add(var('G:d'), const(-1))
        kb = None
        for ix, (bb, v) in S.bits.items():
            if bb == self.key and v is not None and S.equal(var(ix), at):
                kb = v
        if kb is None:
            self.bad(loc, 'the order of the two hashes is not chosen by the '
                     'bit of the key at the depth of the step')
        elif not ((cl in own and cr == 'sib' and kb == 0) or
                  (cr in own and cl == 'sib' and kb == 1)):
            self.bad(loc, 'a step does not hash the path and the sibling on '
                     'their sides')
        for k in [k for k, v in S.facts.items() if k[0] == 'cont' and
                  v in own]:
            del S.facts[k]
        if out is not None and isinstance(out[1], int):
            S.facts[('cont',) + out] = 'cur'

    def call(self, R, S, name, args, dst, loc, ins):
        L = self.L
        if name in ('urkel_read8', 'urkel_read16', 'urkel_read32'):
            q = R.cur(S, args[0])
            w = int(name[10:])
            R.setval(S, dst, None)
            S.a.add_ge(var(dst))
            S.a.add_ge(add(const((1 << w) - 1), var(dst), -1))
            if q is not None:
                self.read(S, q[1], const(w // 8), loc)
            return [S]
        if name == 'urkel_get_bit':
            i = R.num(S, args[1])
            b = R.ptr(S, args[0])
            if b is None or i is None or not isinstance(b[1], int):
                R.setval(S, dst, None)
                return self.fork(R, S, dst, (0, 1))
            f = S.a.norm(i)
            for ix, (bb, v) in S.bits.items():
                if bb == b and S.equal(var(ix), f):
                    R.setval(S, dst, ('bit', ix, 0))
                    return [S]
            ix = 'b@' + dst
            for r in [r for r, e in S.env.items()
                      if e[0] == 'bit' and e[1] == ix]:
                del S.env[r]
            S.a.assign(ix, f)
            S.bits[ix] = (b, None)
            R.setval(S, dst, ('bit', ix, 0))
            return [S]
        if name == 'urkel_bits_init':
            b, n = R.ptr(S, args[0]), R.num(S, args[1])
            if b is not None and isinstance(b[1], int):
                S.a.assign(S.cell(b[0], b[1] + L.bsize),
                           None if n is None else S.a.norm(n))
            return [S]
        if name == 'urkel_bits_read':
            b, n = R.ptr(S, args[0]), R.num(S, args[2])
            q = R.cur(S, args[1])
            self.ob('prefix decoded', loc)
            o = self.fork(R, S, dst, (0, 1))
            if b is not None and isinstance(b[1], int):
                for x in o:
                    S2 = x
                    c = S2.cell(b[0], b[1] + L.bsize)
                    S2.a.forget(c)
                    S2.a.add_ge(var(c))
                if q is not None:
                    z = 'z@' + '%s+%d' % b
                    o[1].a.forget(z)
                    o[1].a.add_ge(add(var(z), const(-1)))
                    self.read(o[1], q[1], var(z), loc)
            return o
        if name == 'urkel_bits_size':
            b = R.ptr(S, args[0])
            if b is not None and isinstance(b[1], int):
                R.setnum(S, dst, var('z@' + '%s+%d' % b))
            else:
                R.setval(S, dst, None)
            return [S]
        if name in ('urkel_bits_has', 'urkel_bits_count'):
            b, k = R.ptr(S, args[0]), R.ptr(S, args[1])
            d = R.num(S, args[2])
            self.ob('prefix compared', loc)
            if k != self.key:
                self.bad(loc, 'the prefix is not compared with the key')
            if name == 'urkel_bits_count' or b is None:
                R.setval(S, dst, None)
                return [S]
            o = self.fork(R, S, dst, (0, 1))
            if b[0] in self.proofs and b[1] == self.off['prefix']:
                if not S.equal(d, self.cellv(S, b[0], 'depth')):
                    self.bad(loc, 'the prefix of the proof is not compared '
                             'at the depth of the proof')
                o[0].facts['diverges'] = 1
                return o
            if b[0] == E and b[1] == self.np:
                for x, v in zip(o, (0, 1)):
                    self.open(x, loc)
                    z = var(S.cell(E, self.np + L.bsize))
                    at = add(add(var('G:d'), z, -1), const(-1))
                    if not x.equal(d, at):
                        self.bad(loc, 'the prefix of a step is not compared '
                                 'at the depth where it starts')
                    if not x.ge(at):
                        self.bad(loc, 'a step may lie above the root')
                    x.facts['has'] = v
                    if v == 0:
                        x.facts['reject'] = 1
            return o
        if name == 'urkel_hash_internal':
            self.hashed(S, args, R, loc)
            return [S]
        if name == 'urkel_hash_leaf':
            out, k, h = [R.ptr(S, args[i]) for i in range(3)]
            ck, chh = self.content(S, k), self.content(S, h)
            if (ck, chh) == ('key', 'vhash'):
                self.begin(S, EXISTS, out, loc)
                return [S]
            if (ck, chh) != ('p.key', 'p.hash'):
                self.bad(loc, 'the other leaf is not hashed from the key '
                         'and the hash in the proof')
            self.begin(S, COLLISION, out, loc)
            return [S]
        if name == 'urkel_hash_raw':
            out, v = R.ptr(S, args[0]), R.ptr(S, args[1])
            n = R.num(S, args[2])
            if out is not None and v is not None and v[0] in self.proofs \
                    and v[1] == self.off['value'] and \
                    S.equal(n, self.cellv(S, v[0], 'size')):
                S.facts[('cont',) + out] = 'vhash'
            return [S]
        if name == 'urkel_hash_value':
            out, k, v = [R.ptr(S, args[i]) for i in range(3)]
            n = R.num(S, args[3])
            if self.content(S, k) != 'key':
                self.bad(loc, 'the leaf is not hashed with the key')
            if v is None or v[0] not in self.proofs or \
                    v[1] != self.off['value'] or \
                    not S.equal(n, self.cellv(S, v[0], 'size')):
                self.bad(loc, 'the leaf is not hashed with the value in the '
                         'proof')
            self.begin(S, EXISTS, out, loc)
            return [S]
        if name in ('memcmp', 'urkel_memcmp', '__urkel_memcmp', 'bcmp'):
            x, y = R.ptr(S, args[0]), R.ptr(S, args[1])
            n = R.num(S, args[2])
            n = S.known(n) if n is not None else None
            c = {self.content(S, x), self.content(S, y)}
            e, d = S.copy(), S.copy()
            R.setnum(e, dst, {}); e.keep[dst] = 0
            R.setnum(d, dst, None); d.facts[('nez', dst)] = 1
            self.ob('comparison', loc)
            if 'root' in c and c & {'cur', 'zero'}:
                if n != 32:
                    self.bad(loc, 'only %s bytes of the root are compared'
                             % n)
                self.finish(e, loc); self.finish(d, loc)
                self.first(e, loc)
                if 'zero' in c and 'start' not in e.facts:
                    e.facts['start'] = DEADEND
                e.facts['rooteq'] = 1
            elif c == {'p.key', 'key'}:
                if n != 32:
                    self.bad(loc, 'only %s bytes of the keys are compared'
                             % n)
                d.facts['otherkey'] = 1
            return [e, d]
        return None

    def excluded(self, R, S, f, v):
        n = S.a.norm(f)
        return v == 0 and len(n) == 1 and \
            ('nez', next(iter(n))) in S.facts

    def stored(self, R, S, ins, obj, off, v):
        S.facts.pop(('cont', obj, off), None)

    # --------------------------------------------------------------- result

    def ret(self, R, S, o, loc):
        f = R.num(S, o)
        k = S.known(f) if f is not None else None
        if k == 0:
            return
        self.ob('acceptance', loc)
        self.accepts += 1
        P = next(iter(self.proofs))
        bad = lambda w: self.bad(loc, 'a proof is accepted ' + w)
        t = S.known(self.cellv(S, P, 'type'))
        if t not in (DEADEND, SHORT, COLLISION, EXISTS):
            bad('whose type is not known')
            return
        if 'rooteq' not in S.facts:
            bad('although the hash of its steps was not found equal to the '
                'root')
        if 'k' not in S.facts:
            self.first(S, loc)
        left, depth = var('G:k'), var('G:d')
        if not S.equal(left, {}):
            bad('without all its steps being hashed')
        if not S.equal(depth, {}):
            bad('although its depth is not used up')
        if S.facts.get('start') != t:
            bad('whose last node is hashed as that of another type')
        if t == SHORT:
            if 'diverges' not in S.facts:
                bad('although its prefix was not found to leave the key')
            if not S.ge(add(self.size(S, (P, self.off['prefix'])),
                            const(-1))):
                bad('although the diverging prefix may be empty')
        if t == COLLISION and 'otherkey' not in S.facts:
            bad('although the other leaf was not found to have another key')
        if 'lost' not in S.facts:
            d = S.a.norm(add(var(self.len), var('G:end'), -1))
            if d and not self.bitmap(S, d):
                bad('although not all of its bytes were used')
        # outputs
        x = S.known(var(S.cell(self.exists, 0)))
        if x != (1 if t == EXISTS else 0):
            bad('with a wrong statement about existence')
        if t == EXISTS:
            n = var(S.cell(self.vlen, 0))
            z = self.cellv(S, P, 'size')
            if not S.equal(n, z):
                bad('with a size which is not that of the value')
            if S.facts.get(('cont', self.value, 0)) != 'value' and \
                    not S.ge(scale(z, -1)):
                bad('without the value which was hashed being returned')

    def bitmap(self, S, d):
        """d bytes are left: the bitmap of no steps."""
        for x in S.facts:
            if x[0] == 'q8' and S.equal(var(x[1]), d) and \
                    S.equal(var('qa@' + x[1]), const(7)):
                return True
        return False


def policy(name, g):
    return name not in PRIMS and len(g.blocks) <= 80


def c09(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        L = Layout(m)
        run(m, L, res, cfg)
    return res


def run(m, L, res, cfg):
    me = 'urkel_verify'
    if me not in m.funcs or not m.funcs[me].blocks:
        raise AnalysisBroken('no ' + me)
    cl = Verify(m, L, me, res)
    R = Rel(m, me, cl, policy)
    R.run()
    res.fns |= R.f.fns
    res.nblocks += len(R.f.blocks)
    res.nstates += R.steps
    res.sites += R.sites
    for k in cl.obl:
        res.obl[k] = 1
    res.need('accepting paths (%s)' % cfg, cl.accepts, 4)
    if cl.lost:
        res.undecided.append('reads at %s: position not known' %
                             sorted(cl.lost))

"""C24: every operation navigates the tree by the same bits."""
from . import ir
from .pxfer import add, scale, const, var, isconst, cval
from .rel import Rel, Client, base, St
from .eng import AnalysisBroken
from . import pbits

NULLN, INTERNAL, LEAF, HASH = 0, 1, 2, 3
DEADEND, SHORT, COLLISION, EXISTS = 0, 1, 2, 3

PRIMS = {'urkel_bits_has', 'urkel_bits_count', 'urkel_bits_slice',
         'urkel_bits_split', 'urkel_bits_collide', 'urkel_bits_join',
         'urkel_bits_init', 'urkel_bits_size', 'urkel_bits_write',
         'urkel_bits_read', 'urkel_get_bit', 'urkel_set_bit',
         'urkel_node_hash', 'urkel_node_value_equals', 'urkel_node_destroy', 'urkel_proof_push', 'urkel_hash_raw',
         'urkel_hash_value', 'urkel_hash_leaf', 'urkel_hash_internal',
         'urkel_hash_key', 'urkel_node_clear'}


class Layout:
    def __init__(self, m):
        def offs(name):
            di = m.struct_di(name)
            if di is None:
                raise AnalysisBroken('no type information for ' + name)
            return {mn: (o, sz) for o, sz, mn, _ in m.members(di)}
        n = offs('urkel_node_s'); i = offs('urkel_internal_s')
        l = offs('urkel_leaf_s'); p = offs('urkel_proof_s')
        b = offs('urkel_bits_s')
        pn = offs('urkel_proof_node_s')
        u = n['u'][0]
        self.type = n['type'][0]
        self.prefix = u + i['prefix'][0]
        self.left = u + i['left'][0]
        self.right = u + i['right'][0]
        self.key = u + l['key'][0]
        self.value = u + l['value'][0]
        self.vsize = u + l['size'][0]
        self.bsize = b['size'][0]
        self.bdata = b['data'][0]
        self.bits = sum(x for x in [b['data'][0] + b['data'][1]])
        self.proof = p
        self.pnode = pn
        self.keylen = l['key'][1]
        self.keybits = self.keylen * 8


def node_param(m, f):
    """Index of the first parameter which points to a tree node."""
    try:
        _, ps = m.fn_sig(f.name)
    except Exception:
        return None
    for i, t in enumerate(ps):
        if t is None:
            continue
        p = m.pointee(t)
        if p is not None and p.get('name') == 'urkel_node_s':
            return i
    return None


def reaches(m, f, names, seen=None):
    seen = seen if seen is not None else set()
    if f.name in seen:
        return False
    seen.add(f.name)
    for b in f.blocks.values():
        for ins in b.insts:
            if ins.op == 'call' and ins.x[0] == '@':
                if base(ins.x[1:]) in names:
                    return True
                g = m.funcs.get(ins.x[1:])
                if g is not None and g.blocks and g.internal and \
                        reaches(m, g, names, seen):
                    return True
    return False


def nav_functions(m):
    """name -> dict(node, key, depth) parameter positions."""
    out = {}
    for caller in m.funcs.values():
        for b in caller.blocks.values():
            for ins in b.insts:
                if ins.op != 'call' or ins.x[0] != '@':
                    continue
                g = m.funcs.get(ins.x[1:])
                if g is None or not g.blocks or not g.internal or \
                        g.name in out or g is caller:
                    continue
                ni = node_param(m, g)
                if ni is None:
                    continue
                di = [i for i, (ty, o) in enumerate(ins.args)
                      if ty.k == 'int' and ty.w == 32]
                if not di or not reaches(m, g, {'urkel_get_bit'}):
                    continue
                ki = key_param(m, g)
                if ki is None:
                    continue
                # a helper is analysed inside its caller instead
                if caller.name in out or in_cycle(m, caller, g):
                    continue
                out[g.name] = dict(node=ni, key=ki, depth=di[-1])
    # a function which is only called by another of them is its helper
    return {n: d for n, d in out.items() if any(
        not reaches(m, c, {'urkel_get_bit'}) or c.name not in out
        for c in callers(m, n) if c.name != n)}


def callers(m, name):
    return [f for f in m.funcs.values() for b in f.blocks.values()
            for i in b.insts if i.op == 'call' and i.x == '@' + name]


def in_cycle(m, caller, g):
    """Does g reach caller (so that caller is part of the recursion)?"""
    return reaches(m, g, {base(caller.name)})


def key_param(m, g, depth=0):
    names = [nm for ty, nm in g.params]
    for b in g.blocks.values():
        for ins in b.insts:
            if ins.op == 'call' and ins.x[0] == '@':
                n = base(ins.x[1:])
                a = None
                if n == 'urkel_get_bit':
                    a = ins.args[0][1]
                elif n in ('urkel_bits_has', 'urkel_bits_count'):
                    a = ins.args[1][1]
                elif n == 'urkel_node_key_equals':
                    a = ins.args[1][1]
                elif depth < 3:
                    h = m.funcs.get(ins.x[1:])
                    if h is not None and h.blocks and h.internal and h != g:
                        k = key_param(m, h, depth + 1)
                        if k is not None:
                            a = ins.args[k][1]
                if a is not None and a[0] == 'r' and a[1] in names:
                    return names.index(a[1])
    return None


class Nav(Client):
    def __init__(self, m, L, nav, me, res, cfg):
        self.m = m; self.L = L; self.nav = nav; self.me = me
        self.res = res
        self.obl = set()
        f = m.funcs[me]
        p = nav[me]
        self.root = 'P:' + f.params[p['node']][1]
        self.key = ('P:' + f.params[p['key']][1], 0)
        self.depth = f.params[p['depth']][1]
        self.ret_ptr = f.ret is not None and f.ret.k == 'ptr'
        self.proof = None
        _, ps = m.fn_sig(me)
        for (ty, nm), t in zip(f.params, ps):
            q = m.pointee(t) if t else None
            if q is not None and q.get('name') == 'urkel_proof_s':
                self.proof = 'P:' + nm
        self.curloc = '?'
        # the value an insertion stores and its size
        vp = [nm for (ty, nm), t in zip(f.params, ps)
              if ty.k == 'ptr' and 'P:' + nm not in (self.root, self.key[0])
              and ((m.pointee(t) if t else None) or {}).get('name') ==
              'unsigned char']
        vs = [nm for ty, nm in f.params
              if ty.k == 'int' and nm != self.depth]
        self.val = None
        if self.ret_ptr and len(vp) == 1 and len(vs) == 1:
            self.val = ('P:' + vp[0], 0)
            self.valsize = var('P:' + vs[0])

    def bad(self, loc, what):
        self.res.viol('navigation', self.me, loc, what, key=what)

    def ob(self, kind, loc):
        self.obl.add((kind, self.me, loc))

    def start(self, R, S, fn):
        S.a.add_eq(add(var('D:' + self.root), var('P:' + self.depth), -1))

    # ----------------------------------------------------------- helpers

    def D(self, n):
        return var('D:' + n)

    def size(self, S, b):
        return var(S.cell(b[0], b[1] + self.L.bsize))

    def is_pfx(self, S, b):
        """The node whose own prefix b is, or None."""
        if b is None or not isinstance(b[1], int):
            return None
        s = S.facts.get(('src', b[0], b[1]))
        if s is not None:
            return None
        if b[1] == self.L.prefix:
            return b[0]
        return None

    def src(self, S, b):
        """(source, form of the depth where the bits start)."""
        if b is None or not isinstance(b[1], int):
            return None, None
        s = S.facts.get(('src', b[0], b[1]))
        if s is not None:
            return s, var('S@%s+%d' % b)
        if b[1] == self.L.prefix and b[0][:2] != 'H:':
            return ('pfx', b[0]), self.D(b[0])
        return None, None

    def set_src(self, S, b, s, start, size):
        v = 'S@%s+%d' % b
        st = S.norm(start); sz = S.norm(size)
        S.a.add_eq(add(var('t1'), st, -1)) if st is not None else None
        S.a.add_eq(add(var('t2'), sz, -1)) if sz is not None else None
        S.forget_cells(b[0], b[1], b[1] + self.L.bits)
        S.a.forget(v)
        if s is None:
            S.facts.pop(('src',) + b, None)
        else:
            S.facts[('src',) + b] = s
        if st is not None:
            S.a.add_eq(add(var(v), var('t1'), -1))
        if sz is not None:
            S.a.add_eq(add(self.size(S, b), var('t2'), -1))
        S.a.forget('t1'); S.a.forget('t2')

    def keybit(self, S, at):
        for ix, (b, v) in S.bits.items():
            if b == self.key and v is not None and \
                    S.equal(var(ix), at):
                return v
        return None

    def isbit(self, S, e, at):
        """e is the key bit at `at' (0), its complement (1), or None."""
        if e is None or e[0] != 'bit':
            return None
        b = S.bits.get(e[1])
        if b is None or b[0] != self.key or not S.equal(var(e[1]), at):
            return None
        return e[2]

    def typ(self, S, n):
        return S.known(var(S.cell(n, self.L.type)))

    def nottype(self, S, n, t):
        k = self.typ(S, n)
        if k is not None:
            return k != t
        return t in S.facts.get(('ne', n, self.L.type), ())

    def isleaf(self, S, c):
        """c is a new leaf which holds the key."""
        if c[:2] != 'H:' or self.typ(S, c) != LEAF or \
                S.facts.get(('cont', c, self.L.key)) != ('thekey',):
            return False
        if self.val is not None and c not in S.facts.get(('told',), ()):
            v = S.mem.get((c, self.L.value))
            S.facts[('told',)] = S.facts.get(('told',), ()) + (c,)
            self.ob('value stored', self.curloc)
            if not S.equal(var(S.cell(c, self.L.vsize)), self.valsize):
                self.bad(self.curloc, 'the size of the new leaf is not the '
                         'size of the value')
            if not S.ge(scale(self.valsize, -1)) and (
                    v is None or v[0] != 'p' or v[2] != 0 or
                    S.facts.get(('cont', v[1], 0)) != ('theval',)):
                self.bad(self.curloc, 'the new leaf does not hold the value')
        return True

    # -------------------------------------------------- sets of exclusions

    def cellof(self, f):
        if len(f) == 1:
            (v, c), = f.items()
            if c == 1 and v[:2] == 'M:':
                o, _, k = v[2:].rpartition('+')
                return o, int(k)
        return None

    def differs(self, R, S, f, v):
        c = self.cellof(f)
        if c:
            k = ('ne',) + c
            S.facts[k] = S.facts.get(k, frozenset()) | {v}

    def excluded(self, R, S, f, v):
        n = S.a.norm(f)
        if v == 0 and len(n) == 1 and ('nez', next(iter(n))) in S.facts:
            return True
        c = self.cellof(S.a.norm(f))
        return bool(c) and v in S.facts.get(('ne',) + c, ())

    def notin(self, R, S, o, vals):
        f = R.num(S, o)
        if f is not None:
            f = S.a.norm(f)
            for v in vals:
                self.differs(R, S, f, v)

    def stored(self, R, S, ins, obj, off, v):
        S.facts.pop(('ne', obj, off), None)
        S.facts.pop(('cont', obj, off), None)

    def edge(self, R, S, lab):
        # bits nobody can refer to any more
        used = {e[1] for e in S.env.values() if e[0] == 'bit'} | \
               {e[1] for e in S.mem.values() if e[0] == 'bit'}
        for ix in [ix for ix, (b, v) in S.bits.items()
                   if ix not in used and v is None]:
            del S.bits[ix]
            S.a.forget(ix)

    # -------------------------------------------------------------- memory

    def load_ptr(self, R, S, ins, obj, off, dst):
        if off in (self.L.left, self.L.right) and \
                self.isnode(S, obj):
            side = 0 if off == self.L.left else 1
            d = S.a.norm(add(add(self.D(obj), self.size(
                S, (obj, self.L.prefix))), const(1)))
            S.a.add_eq(add(var('t1'), d, -1))
            par = obj
            new = R.fresh_ptr(S, obj, off, dst, 'c:')
            S.a.add_eq(add(self.D(new), var('t1'), -1))
            S.a.forget('t1')
            S.facts[('slot', new)] = (par, side)
            return [S]
        R.fresh_ptr(S, obj, off, dst)
        return [S]

    def isnode(self, S, obj):
        return obj == self.root or obj[:2] in ('c:', 'R:', 'Z:')

    def pure(self, name):
        return name in PRIMS or name.startswith('pthread') or \
            name in ('free', 'memcmp', '__urkel_get_errno') or \
            name.startswith('urkel_store_')

    def copied(self, R, S, d, s, n, loc, args):
        if d is None or not isinstance(d[1], int):
            return
        k = S.known(n) if n is not None else None
        # whole bit strings copied
        if s is not None and isinstance(s[1], int) and k is not None:
            found = []
            for fk, fv in list(S.facts.items()):
                if fk[0] == 'src' and fk[1] == s[0] and \
                        s[1] <= fk[2] and fk[2] + self.L.bits <= s[1] + k:
                    found.append((fk[2], fv, var('S@%s+%d' % (s[0],
                                                              fk[2]))))
            b = (s[0], self.L.prefix)
            if not any(o == self.L.prefix for o, _, _ in found) and \
                    s[1] <= self.L.prefix and \
                    self.L.prefix + self.L.bits <= s[1] + k and \
                    self.isnode(S, s[0]):
                found.append((self.L.prefix, ('pfx', s[0]),
                              self.D(s[0])))
            for o, fv, st in found:
                t = (d[0], d[1] + o - s[1])
                stn = S.a.norm(st)
                self.put = (t, fv, stn)
                S.facts[('src',) + t] = fv
                v = 'S@%s+%d' % t
                S.a.assign(v, stn)
        # contents
        for o in [x for x in S.facts if x[0] == 'cont' and x[1] == d[0] and
                  d[1] <= x[2] < d[1] + (k if k is not None else 1)]:
            del S.facts[o]
        c = self.content(S, s, n, k)
        if c is not None:
            S.facts[('cont', d[0], d[1])] = c
            # the bits of a leaf key
            if c[0] == 'key' and S.known(self.size(
                    S, (d[0], d[1] - self.L.bdata))) == self.L.keybits:
                self.set_src(S, (d[0], d[1] - self.L.bdata),
                             ('leafkey', c[1]), {}, const(self.L.keybits))

    def content(self, S, s, n, k):
        if s is None or not isinstance(s[1], int):
            return None
        if s[0].startswith('hash:') and k == self.L.keylen:
            return ('hash', s[0][5:])
        if s[1] == self.L.key and self.isnode(S, s[0]) and \
                k == self.L.keylen:
            return ('key', s[0])
        if s == self.key and k == self.L.keylen:
            return ('thekey',)
        if s == self.val and S.equal(n, self.valsize):
            return ('theval',)
        v = S.facts.get(('val', s[0], s[1]))
        if v is not None and S.equal(n, var('V:' + v)):
            return ('value', v)
        return S.facts.get(('cont', s[0], s[1])) if k == self.L.keylen \
            else None

    def extent(self, R, obj, off):
        # a copy of a length not known stays in its field (C10, C11)
        if obj == self.proof:
            for o, sz in self.L.proof.values():
                if o <= off < o + sz:
                    return o + sz - off
        return 1 << 60

    # --------------------------------------------------------------- calls

    def onpath(self, S, n, loc, what):
        """n is the child the key leads to."""
        sl = S.facts.get(('slot', n))
        if sl is None:
            if n == self.root or ('res', n) in S.facts:
                return
            self.bad(loc, '%s a node whose place in the tree is not known'
                     % what)
            return
        p, side = sl
        at = add(self.D(p), self.size(S, (p, self.L.prefix)))
        if S.facts.get(('has', p)) != 1 and not (
                ('cnt', p) in S.facts and
                S.equal(var('c:' + p), self.size(S, (p, self.L.prefix)))):
            self.bad(loc, '%s a child of a node whose prefix was not found '
                     'to match the key' % what)
        if self.keybit(S, at) != side:
            self.bad(loc, '%s the %s child without the key bit behind the '
                     'prefix being %d' % (what, ('left', 'right')[side],
                                          side))

    def place(self, R, S, a, loc, what, path=True):
        n = R.ptr(S, a)
        if n is None or n[1] != 0:
            self.bad(loc, '%s something which is not a node of the tree'
                     % what)
            return None
        if path:
            self.onpath(S, n[0], loc, what)
        return n[0]

    def fork(self, R, S, dst, vals):
        out = []
        for v in vals:
            b = S.copy()
            R.setnum(b, dst, const(v))
            b.keep[dst] = v
            out.append(b)
        return out

    def call(self, R, S, name, args, dst, loc, ins):
        L = self.L
        full = ins.x[1:]
        if full in self.nav:
            return self.navcall(R, S, full, args, dst, loc)
        if name == 'urkel_get_bit':
            b = R.ptr(S, args[0]); i = R.num(S, args[1])
            if b is None or i is None or not isinstance(b[1], int):
                R.setval(S, dst, None)
                return [S]
            for ix, (bb, v) in S.bits.items():
                if bb == b and S.equal(var(ix), i):
                    R.setval(S, dst, ('bit', ix, 0))
                    return [S]
            ix = 'b@' + dst
            while ix in S.bits:
                ix += "'"
            S.a.assign(ix, S.a.norm(i))
            S.bits[ix] = (b, None)
            R.setval(S, dst, ('bit', ix, 0))
            return [S]
        if name in ('urkel_bits_has', 'urkel_bits_count'):
            b = R.ptr(S, args[0]); k = R.ptr(S, args[1])
            d = R.num(S, args[2])
            self.ob('prefix compared', loc)
            n = self.is_pfx(S, b)
            s, st = self.src(S, b)
            if n is None and s is not None and s[0] == 'pfx' and \
                    S.equal(st, self.D(s[1])):
                n = s[1]
            if n is None:
                self.bad(loc, 'the bits compared with the key are not the '
                         'prefix of a node')
                R.setval(S, dst, None)
                return [S]
            if n != self.root and ('slot', n) in S.facts:
                self.onpath(S, n, loc, 'compares the prefix of')
            if k != self.key:
                self.bad(loc, 'the prefix is not compared with the key')
            if not S.equal(d, self.D(n)):
                self.bad(loc, 'the prefix is compared with the key at '
                         'another depth than the node has')
            if name == 'urkel_bits_has':
                out = self.fork(R, S, dst, (0, 1))
                for o, v in zip(out, (0, 1)):
                    o.facts[('has', n)] = v
                return out
            R.setnum(S, dst, None)
            S.facts[('cnt', n)] = 1
            S.a.assign('c:' + n, var(dst))
            S.a.add_ge(var(dst))
            S.a.add_ge(add(self.size(S, b), var(dst), -1))
            return [S]
        if name in ('memcmp', 'urkel_memcmp', 'bcmp'):
            x, y = R.ptr(S, args[0]), R.ptr(S, args[1])
            k = R.num(S, args[2]); k = S.known(k) if k is not None else None
            for a, b in ((x, y), (y, x)):
                if a is not None and a[1] == L.key and \
                        self.isnode(S, a[0]):
                    self.ob('leaf compared', loc)
                    n = a[0]
                    if n != self.root:
                        self.onpath(S, n, loc, 'compares the key of')
                    if b != self.key:
                        self.bad(loc, 'the key of the leaf is not compared '
                                 'with the key')
                    if k != L.keylen:
                        self.bad(loc, 'only %s bytes of the key of the leaf '
                                 'are compared' % k)
                    e, d = S.copy(), S.copy()
                    R.setnum(e, dst, {})
                    e.keep[dst] = 0
                    R.setnum(d, dst, None)
                    d.facts[('nez', dst)] = 1
                    e.facts[('keyeq', n)] = 1
                    d.facts[('keyeq', n)] = 0
                    return [e, d]
            R.setval(S, dst, None)
            return [S]
        if name == 'urkel_node_value_equals':
            return self.fork(R, S, dst, (0, 1))
        if name == 'urkel_store_resolve':
            n = R.ptr(S, args[1])
            o0 = S.copy()
            R.setval(o0, dst, ('null',))
            new = 'R:' + dst
            while n is not None and n[0] == new:
                new += "'"
            if n is not None:
                dn = S.a.norm(self.D(n[0]))
                S.a.add_eq(add(var('t1'), dn, -1))
            S.reset(new)
            if n is not None:
                S.a.add_eq(add(self.D(new), var('t1'), -1))
                S.a.forget('t1')
                sl = S.facts.get(('slot', n[0]))
                if sl is not None:
                    S.facts[('slot', new)] = sl
                S.facts[('res', new)] = n[0]
            S.facts[('ne', new, L.type)] = frozenset({HASH})
            R.setval(S, dst, ('p', new, 0))
            return [o0, S]
        if name == 'urkel_store_retrieve':
            n = R.ptr(S, args[1])
            v, z = R.ptr(S, args[2]), R.ptr(S, args[3])
            self.ob('value read', loc)
            out = self.fork(R, S, dst, (0, 1))
            if n is not None and v is not None and isinstance(v[1], int):
                out[1].facts[('val',) + v] = n[0]
                if z is not None and isinstance(z[1], int):
                    out[1].a.forget(out[1].cell(*z))
                    out[1].a.assign('V:' + n[0], var(out[1].cell(*z)))
            return out
        if name == 'urkel_bits_init':
            b = R.ptr(S, args[0]); n = R.num(S, args[1])
            if b is not None and isinstance(b[1], int):
                self.set_src(S, b, None, None, n)
            return [S]
        if name == 'urkel_bits_slice':
            o, b = R.ptr(S, args[0]), R.ptr(S, args[1])
            x, y = R.num(S, args[2]), R.num(S, args[3])
            s, st = self.src(S, b)
            if o and x is not None and y is not None:
                self.set_src(S, o, s, None if st is None else add(st, x),
                             add(y, x, -1))
            return [S]
        if name == 'urkel_bits_split':
            l, r, b = [R.ptr(S, args[i]) for i in range(3)]
            x = R.num(S, args[3])
            s, st = self.src(S, b)
            self.ob('prefix split', loc)
            if l and r and b and x is not None and s is not None:
                sz = S.a.norm(self.size(S, b)); st = S.a.norm(st)
                x = S.a.norm(x)
                self.set_src(S, l, s, st, x)
                self.set_src(S, r, s, add(add(st, x), const(1)),
                             add(add(sz, x, -1), const(-1)))
            else:
                self.bad(loc, 'the bits split are not the prefix of a node')
            return [S]
        if name == 'urkel_bits_collide':
            o, b, k = [R.ptr(S, args[i]) for i in range(3)]
            d = R.num(S, args[3])
            s, st = self.src(S, b)
            self.ob('keys compared', loc)
            if s is None or s[0] != 'leafkey' or k != self.key:
                self.bad(loc, 'the common prefix is not taken from the key '
                         'of the leaf and the key')
                return [S]
            n = s[1]
            if not S.equal(d, self.D(n)):
                self.bad(loc, 'the common prefix is not taken from the '
                         'depth of the leaf')
            S.a.forget('c:' + n)
            self.set_src(S, o, ('common', n), d, var('c:' + n))
            S.a.add_ge(var('c:' + n))
            return [S]
        if name == 'urkel_bits_join':
            o, l, r = [R.ptr(S, args[i]) for i in range(3)]
            e = R.val(S, args[3]); bv = R.num(S, args[3])
            self.ob('prefixes joined', loc)
            sl, stl = self.src(S, l); sr, st_r = self.src(S, r)
            ok = sl is not None and sr is not None and \
                sl[0] == 'pfx' and sr[0] == 'pfx'
            if not ok:
                self.bad(loc, 'the bits joined are not the prefixes of two '
                         'nodes')
                return [S]
            zl, zr = self.size(S, l), self.size(S, r)
            if not S.equal(st_r, add(add(stl, zl), const(1))):
                self.bad(loc, 'the second prefix does not follow the first')
            slot = S.facts.get(('slot', sr[1]))
            if slot is None or slot[0] != sl[1]:
                self.bad(loc, 'the second prefix is not that of a child of '
                         'the first node')
            else:
                v = S.known(bv) if bv is not None else None
                if v != slot[1]:
                    self.bad(loc, 'the bit between the prefixes is not the '
                             'side of the child')
            self.set_src(S, o, sl, stl, add(add(zl, zr), const(1)))
            return [S]
        if name == 'urkel_node_hash':
            n = R.ptr(S, args[0])
            R.setval(S, dst, ('p', 'hash:' + n[0], 0)
                     if n and n[1] == 0 else None)
            return [S]
        if name == 'urkel_hash_raw':
            o, v = R.ptr(S, args[0]), R.ptr(S, args[1])
            n = R.num(S, args[2])
            w = S.facts.get(('val',) + v) if v else None
            if o is not None and isinstance(o[1], int):
                S.facts.pop(('cont',) + o, None)
                if w is not None and S.equal(n, var('V:' + w)):
                    S.facts[('cont',) + o] = ('vhash', w)
            return [S]
        if name == 'urkel_proof_push':
            return self.push(R, S, args, loc)
        return None

    def navcall(self, R, S, full, args, dst, loc):
        p = self.nav[full]
        self.ob('recursion', loc)
        n = self.place(R, S, args[p['node']], loc, 'descends into')
        if R.ptr(S, args[p['key']]) != self.key:
            self.bad(loc, 'the descent does not use the same key')
        d = R.num(S, args[p['depth']])
        if n is not None and not S.equal(d, self.D(n)):
            self.bad(loc, 'the depth passed is not the depth of the node '
                     'descended into')
        if self.proof is not None and n is not None:
            sl = S.facts.get(('slot', n))
            if sl is not None and n != self.root and \
                    ('res', n) not in S.facts and \
                    S.facts.get(('pushed', sl[0])) != 1:
                self.bad(loc, 'the node passed is not part of the proof')
        if self.ret_ptr or self.m.funcs[full].ret.k == 'ptr':
            o0 = S.copy()
            R.setval(o0, dst, ('null',))
            new = 'Z:' + dst
            S.reset(new)
            if n is not None:
                S.a.add_eq(add(self.D(new), self.D(n), -1))
                sl = S.facts.get(('slot', n))
                if sl is not None:
                    S.facts[('slot', new)] = sl
                S.facts[('sub', new)] = n
            R.setval(S, dst, ('p', new, 0))
            return [o0, S]
        out = self.fork(R, S, dst, (0, 1))
        out[1].facts['navok'] = 1
        return out

    def push(self, R, S, args, loc):
        self.ob('proof step', loc)
        b, h = R.ptr(S, args[1]), R.ptr(S, args[2])
        s, st = self.src(S, b)
        n = s[1] if s is not None and s[0] == 'pfx' and \
            S.equal(st, self.D(s[1])) else None
        if n is None:
            self.bad(loc, 'the prefix put into the proof is not that of a '
                     'node passed')
            return [S]
        if 'navok' in S.facts:
            self.bad(loc, 'a step is added to the proof after the steps '
                     'below it')
        c = h[0][5:] if h and h[0].startswith('hash:') else None
        sl = S.facts.get(('slot', c)) if c else None
        at = add(self.D(n), self.size(S, (n, self.L.prefix)))
        kb = self.keybit(S, at)
        if sl is None or sl[0] != n or kb is None or sl[1] != 1 - kb:
            self.bad(loc, 'the hash put into the proof is not that of the '
                     'sibling')
        if S.facts.get(('has', n)) != 1:
            self.bad(loc, 'a step is added to the proof although the prefix '
                     'does not match')
        S.facts[('pushed', n)] = 1
        return [S]

    # -------------------------------------------------------------- results

    def ret(self, R, S, o, loc):
        if o is None:
            return
        self.curloc = loc
        self.ob('result', loc)
        if self.ret_ptr:
            v = R.val(S, o)
            if v == ('null',):
                return
            if v is None or v[0] != 'p' or v[2] != 0:
                self.bad(loc, 'the result is not a node')
                return
            self.result(S, v[1], loc)
            return
        f = R.num(S, o)
        k = S.known(f) if f is not None else None
        if k == 0:
            return
        if S.facts.get('navok'):
            return
        if self.proof is None:
            if not any(x[0] == 'keyeq' and v == 1
                       for x, v in S.facts.items()):
                self.bad(loc, 'the key is reported as found without a leaf '
                         'having this key')
            for x, n in S.facts.items():
                if x[0] == 'val' and S.facts.get(('keyeq', n)) != 1:
                    self.bad(loc, 'the value is not taken from the leaf '
                             'found')
            return
        self.proved(S, loc)

    def proved(self, S, loc):
        P, o = self.proof, self.L.proof
        t = S.known(var(S.cell(P, o['type'][0])))
        n = [x[1] for x in S.facts if x[0] in ('has', 'keyeq')]
        cur = n[-1] if n else self.root
        if len(set(n)) > 1:
            cur = None
        if cur is None or not S.equal(var(S.cell(P, o['depth'][0])),
                                      self.D(cur)):
            self.bad(loc, 'the depth of the proof is not that of the node '
                     'where the search ends')
        if cur is None:
            return
        c = lambda f: S.facts.get(('cont', P, o[f][0]))
        if t == DEADEND:
            if self.typ(S, cur) != NULLN:
                self.bad(loc, 'a dead end is proven where the branch is '
                         'not empty')
        elif t == SHORT:
            if S.facts.get(('has', cur)) != 0:
                self.bad(loc, 'a diverging prefix is proven although the '
                         'prefix matches')
            s, st = self.src(S, (P, o['prefix'][0]))
            if s != ('pfx', cur) or not S.equal(st, self.D(cur)):
                self.bad(loc, 'the prefix in the proof is not that of the '
                         'node')
            for f, side in (('left', 0), ('right', 1)):
                h = c(f)
                if h is None or h[0] != 'hash' or \
                        S.facts.get(('slot', h[1])) != (cur, side):
                    self.bad(loc, 'the %s hash in the proof is not that of '
                             'the %s child' % (f, f))
        elif t == COLLISION:
            if S.facts.get(('keyeq', cur)) != 0:
                self.bad(loc, 'another leaf is proven although it has the '
                         'key')
            if c('key') != ('key', cur):
                self.bad(loc, 'the key in the proof is not that of the '
                         'leaf')
            if c('hash') != ('vhash', cur):
                self.bad(loc, 'the hash in the proof is not that of the '
                         'value of the leaf')
        elif t == EXISTS:
            if S.facts.get(('keyeq', cur)) != 1:
                self.bad(loc, 'existence is proven without the leaf having '
                         'the key')
            if not S.equal(var(S.cell(P, o['size'][0])),
                           var('V:' + cur)):
                self.bad(loc, 'the size in the proof is not that of the '
                         'value')
            if c('value') != ('value', cur) and \
                    S.known(var('V:' + cur)) != 0 and not S.a.entails(
                        scale(var('V:' + cur), -1)):
                self.bad(loc, 'the value in the proof is not that of the '
                         'leaf')
        else:
            self.bad(loc, 'a proof of unknown type is reported as complete')

    def same_place(self, S, z):
        """z stands where the node of this call stands."""
        x = S.facts.get(('sub', z), z)
        n = 0
        while ('res', x) in S.facts and n < 5:
            x = S.facts[('res', x)]; n += 1
        return x == self.root

    def result(self, S, r, loc):
        L = self.L
        if r == self.root:
            self.bad(loc, 'the node is returned unchanged')
            return
        if self.isleaf(S, r):
            if self.typ(S, self.root) == NULLN or \
                    S.facts.get(('keyeq', self.root)) == 1:
                return
            self.bad(loc, 'a leaf replaces a node which is neither empty '
                     'nor the leaf of this key')
            return
        if r[:2] == 'Z:' and self.same_place(S, r):
            return
        t = self.typ(S, r)
        if r[:2] == 'H:':
            if t == NULLN:
                if S.facts.get(('keyeq', self.root)) != 1:
                    self.bad(loc, 'a node is removed which is not the leaf '
                             'of this key')
                return
            if t == LEAF:
                self.bad(loc, 'the new leaf does not hold the key')
                return
            if t == INTERNAL:
                self.made(S, r, self.D(self.root), loc, True)
                return
            self.bad(loc, 'a node of unknown kind is returned')
            return
        sl = S.facts.get(('slot', r))
        if sl is not None and sl[0] == self.root:
            # the remaining sibling takes the place of its parent
            gone = [x[1] for x in S.facts if x[0] == 'sub' and
                    S.facts.get(('slot', x[1])) == (sl[0], 1 - sl[1]) and
                    self.typ(S, x[1]) == NULLN]
            if not gone:
                self.bad(loc, 'a child replaces its parent although its '
                         'sibling is not empty')
            if self.typ(S, r) != LEAF and not (
                    self.nottype(S, r, INTERNAL) and
                    self.nottype(S, r, HASH)):
                self.bad(loc, 'a child which may have a prefix of its own '
                         'moves up without the bits above it')
            return
        self.bad(loc, 'the result is a node which belongs elsewhere')

    def made(self, S, r, at, loc, top):
        """r is a new inner node at depth `at'."""
        L = self.L
        b = (r, L.prefix)
        s, st = self.src(S, b)
        if s is None:
            self.bad(loc, 'the prefix of a new inner node does not come '
                     'from the tree')
            return
        if not S.equal(st, at):
            self.bad(loc, 'the prefix of a new inner node does not start '
                     'at its depth')
            return
        br = add(st, self.size(S, b))          # index of the branching bit
        for side, off in ((0, L.left), (1, L.right)):
            v = S.mem.get((r, off))
            nm = ('left', 'right')[side]
            if v is None or v[0] != 'p' or v[2] != 0:
                self.bad(loc, 'the %s child of a new inner node is not a '
                         'node' % nm)
                continue
            c = v[1]
            if self.isleaf(S, c):
                if self.keybit(S, br) != side:
                    self.bad(loc, 'the new leaf is not put on the side of '
                             'its key bit')
                continue
            sl = S.facts.get(('slot', c))
            if sl is not None:
                if c[:2] == 'Z:' and not self.nottype(S, c, NULLN) and \
                        self.returns_null():
                    self.bad(loc, 'an emptied branch stays in the tree')
                if sl[1] != side:
                    self.bad(loc, 'the %s child of a new inner node was on '
                             'the other side' % nm)
                if not S.equal(self.D(c), add(br, const(1))):
                    self.bad(loc, 'the %s child of a new inner node does '
                             'not keep its depth' % nm)
                continue
            if c[:2] == 'H:' and self.typ(S, c) == INTERNAL:
                if s[0] != 'pfx' or ('cnt', s[1]) not in S.facts or \
                        not S.equal(add(self.D(s[1]), var('c:' + s[1])),
                                    br) or self.keybit(S, br) != 1 - side:
                    self.bad(loc, 'the rest of a split node is not put on '
                             'the side which the key leaves')
                self.made(S, c, add(br, const(1)), loc, False)
                continue
            if self.typ(S, c) == LEAF and s == ('common', c):
                if self.keybit(S, br) != 1 - side:
                    self.bad(loc, 'the old leaf is not put on the side '
                             'which the key leaves')
                continue
            self.bad(loc, 'the %s child of a new inner node belongs '
                     'elsewhere' % nm)

    def returns_null(self):
        return self.nullret


def policy_for(nav):
    def policy(name, g):
        if g.name in nav or name in PRIMS or name.startswith('urkel_store_'):
            return False
        return len(g.blocks) <= 60
    return policy


def c24(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        L = Layout(m)
        nav = nav_functions(m)
        res.need('functions which walk down the tree (%s)' % cfg, len(nav),
                 3)
        res.note('walkers (%s)' % cfg, sorted(nav))
        nret = 0
        for me in sorted(nav):
            cl = Nav(m, L, nav, me, res, cfg)
            # a removal reports an emptied branch by an empty node
            cl.nullret = reaches(m, m.funcs[me], {'urkel_node_create_null'})
            R = Rel(m, me, cl, policy_for(nav))
            R.run()
            res.fns |= R.f.fns
            res.nblocks += len(R.f.blocks)
            res.nstates += R.steps
            res.sites += R.sites
            for k in cl.obl:
                res.obl[k] = 1
        pbits.run(m, L, res)
        # the walk starts at the root with depth 0
        for fn, f in m.funcs.items():
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == 'call' and ins.x[1:] in nav and \
                            fn not in nav:
                        p = nav[ins.x[1:]]
                        o = ins.args[p['depth']][1]
                        loc = m.locstr(ins.loc)
                        res.obl[('start', fn, loc)] = 1
                        if o != ('i', 0) and not in_cycle(
                                m, f, m.funcs[ins.x[1:]]):
                            res.viol('navigation', fn, loc, 'the walk does '
                                     'not start at depth 0')
    return res

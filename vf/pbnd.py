"""C10, C11: accesses within bounds.

Every function which decodes input (a proof, a record of a data file) or walks
the tree is analysed with the relational engine: at each access through a
variable offset, each copy and each call of a helper the linear facts known on
the path must imply that the bytes accessed lie inside the object, and the
conditions the helper needs.  Each helper is itself analysed under just those
conditions, so that the argument is closed.  Abort calls must be unreachable
where the data, not the caller, decides.
"""
from fractions import Fraction as Fr
from math import gcd, floor
from .pxfer import add, scale, const, var, isconst, cval, split, ONE
from .rel import Rel, Client, base, ALLOC, NORET
from .eng import AnalysisBroken
from .pnav import Layout

KEYBITS = 256


# --------------------------------------------------------- linear entailment

def tight(g):
    """Integer tightening of a form >= 0."""
    den = 1
    for v, c in g.items():
        c = Fr(c)
        den = den * c.denominator // gcd(den, c.denominator)
    n = {v: int(Fr(c) * den) for v, c in g.items()}
    d = 0
    for v, c in n.items():
        if v != ONE:
            d = gcd(d, abs(c))
    if d == 0:
        return n
    r = {v: c // d for v, c in n.items() if v != ONE}
    k = n.get(ONE, 0) // d
    if k:
        r[ONE] = k
    return r


def refute(gs, limit=400):
    """Are the forms (each >= 0, over integers) contradictory?"""
    cur = {}

    def put(g):
        g = tight(g)
        c = g.get(ONE, 0)
        k = tuple(sorted((v, x) for v, x in g.items() if v != ONE))
        if not k:
            return c < 0
        if k not in cur or c < cur[k]:
            cur[k] = c
        return False
    for g in gs:
        if put(g):
            return True
    while cur:
        cnt = {}
        for k in cur:
            for v, c in k:
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if c > 0 else (p, n + 1)
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] -
                                    cnt[x][0] - cnt[x][1], x))
        pos = [(dict(k), c) for k, c in cur.items() if dict(k).get(v, 0) > 0]
        neg = [(dict(k), c) for k, c in cur.items() if dict(k).get(v, 0) < 0]
        cur = {k: c for k, c in cur.items() if v not in dict(k)}
        if len(pos) * len(neg) + len(cur) > limit:
            return False
        for p, pc in pos:
            for n, nc in neg:
                a, b = -n[v], p[v]
                r = {}
                for x, y in p.items():
                    r[x] = r.get(x, 0) + a * y
                for x, y in n.items():
                    r[x] = r.get(x, 0) + b * y
                r[ONE] = a * pc + b * nc
                r = {x: y for x, y in r.items() if y}
                if put(r):
                    return True
    return False


def prove(S, g):
    """Do the facts of the state imply g >= 0?"""
    g = S.a.norm(g)
    if isconst(g):
        return cval(g) >= 0
    if S.a.entails(g):
        return True
    ge = [S.a.norm(x) for x in S.a.ge]
    # only what is connected with g
    want = {v for v in g if v != ONE}
    use = []
    left = [x for x in ge if x and not isconst(x)]
    for _ in range(4):
        nl = []
        for x in left:
            if want & set(x):
                use.append(x)
            else:
                nl.append(x)
        for x in use:
            want |= {v for v in x if v != ONE}
        left = nl
    return refute(use + [add(scale(g, -1), const(-1))])


# -------------------------------------------------------------------- types

class Types:
    def __init__(self, m):
        self.m = m

    def size(self, di):
        di = self.m.strip(di)
        if di is None or not di.get('size'):
            if di is not None and di.get('tag') == 'DW_TAG_pointer_type':
                return 8
            return None
        return int(di.get('size')) // 8

    def levels(self, di, off, at=0):
        """[(struct, field, start, size, type)] around a byte, outermost
        first"""
        di = self.m.strip(di)
        out = []
        if di is None:
            return out
        if di.get('tag') == 'DW_TAG_array_type':
            el = self.m.strip(self.m.node(di.get('baseType')))
            es = self.size(el)
            if es and es > 1:
                i = (off - at) // es
                out.append((None, '[]', at + i * es, es, el))
                out += self.levels(el, off, at + i * es)
            return out
        for o, s, nm, mn in self.m.members(di):
            if at + o <= off < at + o + s:
                t = self.m.strip(mn)
                out.append((di.get('name'), nm, at + o, s, t))
                out += self.levels(t, off, at + o)
        return out

    def scalar(self, di, off):
        """(struct, field, type) of the scalar at an offset"""
        for st, f, o, s, t in reversed(self.levels(di, off)):
            if o == off and st and t is not None and t.get('tag') not in (
                    'DW_TAG_structure_type', 'DW_TAG_union_type',
                    'DW_TAG_array_type'):
                return st, f, t
        return None

    def room(self, di, off):
        """bytes which may be used from an offset on"""
        n = None
        sz = self.size(di)
        if off == 0 and sz is not None:
            n = sz
        for st, f, o, s, t in self.levels(di, off):
            if o == off or (t is not None and
                            t.get('tag') == 'DW_TAG_array_type'):
                n = max(n or 0, o + s - off)
        return n

    def unions(self, di, off):
        """is an offset inside of more than one member of a union?"""
        n = 0
        for st, f, o, s, t in self.levels(di, off):
            if t is not None and t.get('tag') == 'DW_TAG_union_type':
                k = [1 for mo, ms, nm, mn in self.m.members(t)
                     if o + mo <= off < o + mo + ms]
                n = max(n, len(k))
        return n > 1

    def array(self, di, off, start=False):
        """end of the innermost array around an offset"""
        if self.unions(di, off):
            c = [(o, o + s) for st, f, o, s, t in self.levels(di, off)
                 if t is not None and t.get('tag') == 'DW_TAG_array_type'
                 and (not start or o == off)]
            if not start or not c:
                return None
            return max(c, key=lambda x: x[1])
        for st, f, o, s, t in reversed(self.levels(di, off)):
            if t is not None and t.get('tag') == 'DW_TAG_array_type':
                return o, o + s
        di = self.m.strip(di)
        if di is not None and di.get('tag') == 'DW_TAG_array_type':
            return 0, self.size(di)
        return None

    def unsigned(self, t):
        return t is not None and 'unsigned' in str(t.get('encoding', '')) or \
            t is not None and t.get('tag') == 'DW_TAG_enumeration_type'


# fields which are bounded wherever they are set (see `fields')
BOUND = {('urkel_bits_s', 'size'): KEYBITS,
         ('urkel_proof_s', 'nodes_len'): KEYBITS}

# functions which are known by what they need and give (`Bounds.contract');
# those with a body are analysed on their own
HELPERS = {'urkel_bits_has', 'urkel_bits__count', 'urkel_blake2b_init',
           'urkel_blake2b_update', 'urkel_blake2b_final', 'urkel_bits_count', 'urkel_bits_size',
           'urkel_bits_read', 'urkel_bits_init', 'urkel_bits_split',
           'urkel_bits_slice', 'urkel_bits_collide', 'urkel_bits_join',
           'urkel_bits_write', 'urkel_hash_internal', 'urkel_hash_leaf',
           'urkel_hash_value', 'urkel_hash_raw', 'urkel_hash_key',
           'urkel_node_read', 'urkel_store_read', 'urkel_store_retrieve',
           'urkel_node_store', 'urkel_fs_pread', 'urkel_fs_read',
           'urkel_read8', 'urkel_read16', 'urkel_read32', 'urkel_read64',
           'urkel_meta_read'}
OPAQUE = {'urkel_store_resolve', 'urkel_node_destroy', 'urkel_node_hash',
          'urkel_node_create', 'urkel_node_create_leaf',
          'urkel_node_create_null', 'urkel_store_write',
          'urkel_cache_insert', 'urkel_cache_lookup', 'urkel_store_path',
          'urkel_store_path_index', 'urkel_fs_open', 'urkel_fs_close',
          'urkel_fs_fstat', 'urkel_fs_ftruncate', 'urkel_fs_unlink',
          'urkel_checksum', 'urkel_node_to_hash', 'urkel_node_hashed',
          'urkel_node_clear', 'urkel_node_init', 'urkel_node_mark',
          'urkel_node_get', 'urkel_pointer_init'}
# their result is assumed not to be null
NONNULL = {'urkel_node_create', 'urkel_node_create_leaf',
           'urkel_node_create_null', 'urkel_node_get'}


class Bounds(Client):
    keep_ret = 1000
    weak = True

    def __init__(self, m, L, spec, res):
        self.m = m; self.L = L; self.res = res; self.spec = spec
        self.me = spec['fn']
        self.T = Types(m)
        self.obl = set(); self.lost = set()
        self.ty = {}
        f = m.funcs[self.me]
        self.pn = [nm for _, nm in f.params]
        _, sig = m.fn_sig(self.me)
        self.cursors = set()
        self.ext = {}
        for i, (t, nm) in enumerate(f.params):
            if t.k == 'ptr' and i < len(sig):
                self.ty['P:' + nm] = m.pointee(sig[i])
        for i, n in spec.get('buf', {}).items():
            nm = 'P:' + self.pn[i]
            self.cursors.add(nm)
            self.ext[nm] = const(n[0]) if isinstance(n, tuple) else \
                var('P:' + self.pn[n])
        for i, n in spec.get('room', {}).items():
            self.ext['P:' + self.pn[i]] = const(n)
        self.aborts = spec.get('aborts', True)
        self.rets = 0
        self.curs = set()
        self.eqs = None
        self.split_phis = spec.get('split', False)
        self.weak = 2 if self.split_phis else True
        self.cells = set()

    # ---------------------------------------------------------- reporting

    def bad(self, loc, what):
        self.res.viol('bounds', self.me, loc, what, key=what)

    def need(self, S, g, loc, kind, what):
        """g >= 0 is required"""
        self.obl.add((kind, self.me, loc))
        if g is None:
            self.lost.add((kind, loc))
        elif not prove(S, g):
            if self.blank(S, g):
                # a number was computed in a way this does not follow: not
                # even that it is not negative is known
                self.lost.add((kind, loc))
            else:
                self.bad(loc, what)

    def blank(self, S, g):
        g = S.a.norm(g)
        seen = {v for h in S.a.ge for v, c in S.a.norm(h).items() if c > 0}
        return any(v != ONE and v[0] == 'f' and '@' not in v and
                   (v not in seen or v in self.sums()) for v in g)

    def undecided(self, kind, loc):
        self.obl.add((kind, self.me, loc))
        self.lost.add((kind, loc))

    # ------------------------------------------------------------- set up

    def start(self, R, S, fn):
        self.R = R
        for lab, (phis, insts, term, src) in R.f.blocks.items():
            for ins, pre, sub in insts:
                if ins.op == 'alloca':
                    self.ty['A:' + pre + ins.dst] = ('ir', ins.ty)
        for i, (t, nm) in enumerate(fn.params):
            if t.k == 'int':
                lo, hi = self.spec.get('arg', {}).get(i, (0, None))
                S.a.add_ge(add(var('P:' + nm), const(-lo)))
                if hi is not None:
                    S.a.add_ge(add(const(hi), var('P:' + nm), -1))
        for g in self.spec.get('pre', ()):
            S.a.add_ge(g(self, S))
        if self.spec.get('heap'):
            S.a.add_eq(var(LIVE))
            S.a.add_eq(var(FREED))

    def di(self, obj):
        t = self.ty.get(obj)
        if isinstance(t, tuple):
            x = t[1]
            nm = getattr(x, 'name', None)
            if nm:
                return self.m.struct_di(nm.lstrip('%').replace('struct.',
                                                               ''))
            return None
        return t

    def room(self, S, obj, off):
        """form of the bytes usable at a fixed offset, or None"""
        if obj in self.ext:
            return add(self.ext[obj], const(off), -1)
        d = self.di(obj)
        if d is not None and self.m.strip(d).get('tag') in (
                'DW_TAG_structure_type', 'DW_TAG_union_type'):
            n = self.T.room(d, off)
            return None if n is None else const(n)
        t = self.ty.get(obj)
        if isinstance(t, tuple):
            return const(t[1].size() - off)
        if obj[:2] == 'H:':
            return add(var('sz@' + obj), const(off), -1)
        return None

    def access(self, R, S, o, n, loc, kind='access', what=None):
        """n bytes at operand o are used."""
        if n is None:
            return self.undecided(kind, loc)
        q = R.cur(S, o)
        what = what or 'bytes outside of the %s may be used'
        if q is not None:
            obj, f = q
            e = self.ext.get(obj)
            self.need(S, add(add(e, f, -1), n, -1), loc, kind,
                      what % 'input' if '%' in what else what)
            self.need(S, f, loc, kind, 'bytes before the input may be used')
            return
        p = R.ptr(S, o)
        if p is None:
            v = R.val(S, o)
            if v is None or v[0] not in ('null',):
                self.undecided(kind, loc)
            return
        obj, off = p
        if isinstance(off, int):
            r = self.room(S, obj, off)
            if r is None:
                return              # whole objects of others: not ours
            self.need(S, add(r, n, -1), loc, kind,
                      what % 'object' if '%' in what else what)
            return
        f = add(const(off[0]), scale(var(off[2]), off[1]))
        self.inside(S, obj, off[0], f, n, loc, kind)

    def inside(self, S, obj, b, f, n, loc, kind):
        lo, hi = None, None
        d = self.di(obj)
        t = self.ty.get(obj)
        if obj in self.ext:
            lo, hi = const(0), self.ext[obj]
        elif d is not None and self.T.array(d, b, True) is not None:
            lo, hi = [const(x) for x in self.T.array(d, b, True)]
        elif isinstance(t, tuple) and d is None:
            lo, hi = const(0), const(t[1].size())
        elif obj[:2] == 'H:':
            lo, hi = const(0), var('sz@' + obj)
        if hi is None:
            return
        self.need(S, add(add(hi, f, -1), n, -1), loc, kind,
                  'an index may lie behind the end of the array')
        self.need(S, add(f, lo, -1), loc, kind,
                  'an index may lie before the array')

    # ------------------------------------------------------------ accesses

    def array_at(self, obj, off):
        """(start, element size) if the offset is one of an array"""
        d = self.di(obj)
        if d is not None:
            r = self.T.array(d, off)
            if r is not None:
                for st, f, o, n, t in self.T.levels(d, off):
                    if f == '[]':
                        if t is not None and t.get('tag') in (
                                'DW_TAG_structure_type',):
                            return None
                        return r[0], n
                return r[0], 1
            return None
        t = self.ty.get(obj)
        if isinstance(t, tuple) and t[1].k == 'arr' and \
                t[1].el.k in ('int', 'ptr'):
            return 0, t[1].el.size()
        return None

    def templates(self, R, tgt):
        out = []
        live = R.f.live[tgt]
        if self.spec.get('heap'):
            out.append(var(LIVE))
        for x, y in self.equated(R):
            if x in live and y in live:
                out.append(add(var(x), var(y), -1))
                out.append(add(var(y), var(x), -1))
        for c in self.cells:
            out.append(add(const(KEYBITS), var(c), -1))
            out.append(var(c))
        for v in self.curs:
            if v in live:
                out.append(var(v))
                for obj, e in self.ext.items():
                    if obj in self.cursors:
                        out.append(add(e, var(v), -1))
        return out

    def sums(self):
        """sums with the result of a comparison: what they are together with
        what was compared is lost where the branches meet"""
        if not hasattr(self, '_sums'):
            self._sums = set()
            for lab, (phis, insts, term, src) in self.R.f.blocks.items():
                z = {pre + i.dst for i, pre, sub in insts if i.op == 'icmp'}
                for i, pre, sub in insts:
                    ops = [self.R.f.op(x, pre, sub) for x in i.args] \
                        if i.op in ('zext', 'sext', 'add') else ()
                    if any(o[0] == 'v' and o[1] in z for o in ops):
                        (self._sums if i.op == 'add' else z).add(pre + i.dst)
        return self._sums

    def feasible(self, R, S):
        return not refute([S.a.norm(g) for g in S.a.ge], 60)

    def equated(self, R):
        """numbers compared by == or !="""
        if self.eqs is None:
            self.eqs = set()
            for lab, (phis, insts, term, src) in R.f.blocks.items():
                for ins, pre, sub in insts:
                    if ins.op == 'icmp' and ins.x in ('eq', 'ne'):
                        o = [R.f.op(x, pre, sub) for x in ins.args]
                        if o[0][0] == o[1][0] == 'v' and ins.ty is not None:
                            self.eqs.add((o[0][1], o[1][1]))
        return self.eqs

    def moved(self, R, S, obj, f):
        for v in f:
            self.curs.add(v)

    def phied(self, R, S, obj, dst):
        self.curs.add(dst)

    def loc(self, ins):
        return self.m.locstr(ins.loc)

    def load_cur(self, R, S, ins, obj, f, dst):
        self.cursor(S, obj, f, const(ins.ty.size()), self.loc(ins))
        if ins.ty.k == 'int':
            S.a.add_ge(var(dst))
            if ins.ty.w <= 32:
                S.a.add_ge(add(const((1 << ins.ty.w) - 1), var(dst), -1))
        return [S]

    def store_cur(self, R, S, ins, v, obj, f):
        self.cursor(S, obj, f, const(ins.args[0] and self.width(ins)),
                    self.loc(ins))

    def width(self, ins):
        t = ins.ty
        return t.size() if t is not None and t.k != 'void' else 1

    def cursor(self, S, obj, f, n, loc):
        e = self.ext.get(obj)
        self.need(S, add(add(e, f, -1), n, -1), loc, 'access',
                  'bytes behind the end of the input may be used')
        self.need(S, f, loc, 'access', 'bytes before the input may be used')

    def load_elem(self, R, S, ins, obj, off, dst):
        f = add(const(off[0]), scale(var(off[2]), off[1]))
        self.inside(S, obj, off[0], f, const(ins.ty.size()), self.loc(ins),
                    'element')
        if ins.ty.k == 'ptr':
            new = 'E:' + dst
            S.reset(new)
            d = self.di(obj)
            if d is not None:
                for st, fl, o, s, t in self.T.levels(d, off[0]):
                    if t is not None and t.get('tag') == \
                            'DW_TAG_array_type':
                        self.ty[new] = self.m.pointee(
                            self.m.node(t.get('baseType')))
            R.setval(S, dst, ('p', new, 0))
            if self.spec.get('heap'):
                S.a.assign('ix@' + new, S.a.norm(var(off[2])))
            return [S]
        R.setval(S, dst, None)
        S.a.add_ge(var(dst))
        if ins.ty.k == 'int' and ins.ty.w <= 16:
            S.a.add_ge(add(const((1 << ins.ty.w) - 1), var(dst), -1))
        return [S]

    def store_elem(self, R, S, ins, obj, off, v):
        f = add(const(off[0]), scale(var(off[2]), off[1]))
        self.inside(S, obj, off[0], f, const(off[1]), self.loc(ins),
                    'element')

    def load_ptr(self, R, S, ins, obj, off, dst):
        new = R.fresh_ptr(S, obj, off, dst)
        d = self.di(obj)
        self.ty.pop(new, None)
        if d is not None:
            s = self.T.scalar(d, off)
            if s is not None:
                self.ty[new] = self.m.pointee(s[2])
        return [S]

    def load_int(self, R, S, ins, obj, off, dst):
        f = var(S.cell(obj, off))
        if obj[:2] in ('P:', 'A:', 'H:', 'G:'):
            self.cells.add(S.cell(obj, off))
        d = self.di(obj)
        if d is not None:
            s = self.T.scalar(d, off)
            if s is not None:
                if self.T.unsigned(s[2]):
                    S.a.add_ge(f)
                b = BOUND.get(s[:2])
                if b is not None:
                    S.a.add_ge(add(const(b), f, -1))
        elif ins.ty.k == 'int' and obj[:2] == 'A:' and \
                ins.ty.w in (8, 16, 32, 64):
            S.a.add_ge(f)
        R.setnum(S, dst, f)
        return [S]

    def stored(self, R, S, ins, obj, off, v):
        d = self.di(obj)
        if d is None:
            return
        s = self.T.scalar(d, off)
        b = BOUND.get(s[:2]) if s is not None else None
        if b is None:
            return
        self.need(S, None if R.num(S, v) is None else
                  add(const(b), R.num(S, v), -1), self.loc(ins), 'field',
                  'a number over %d may be stored in %s' % (b, s[1]))

    def copied(self, R, S, d, s, n, loc, args):
        self.access(R, S, args[0], n, loc, 'copy')
        self.access(R, S, args[1], n, loc, 'copy')

    def zeroed(self, R, S, d, k, v, loc):
        pass

    def copy_cells(self, d, s, n):
        # numbers inside the copied part
        t = self.di(d[0]) or self.di(s[0])
        b = d[1] if self.di(d[0]) is not None else s[1]
        out = []
        if t is None:
            return range(0, min(n, 64), 4)
        for o in range(0, n, 4):
            x = self.T.scalar(t, b + o)
            if x is not None and self.T.size(x[2]) in (4, 8):
                out.append(o)
        return out

    def fields(self, R, obj, off, k):
        d = self.di(obj)
        if d is None:
            return range(0, k, 4) if k <= 64 else []
        out = []
        i = 0
        for st, fl, o, s, t in self.walk(d, 0):
            if off <= o < off + k:
                out.append(o - off)
        return out

    def walk(self, d, at):
        d = self.m.strip(d)
        if d is None:
            return
        for o, s, nm, mn in self.m.members(d):
            t = self.m.strip(mn)
            if t is None:
                continue
            if t.get('tag') in ('DW_TAG_structure_type',
                                'DW_TAG_union_type'):
                for x in self.walk(t, at + o):
                    yield x
            elif t.get('tag') != 'DW_TAG_array_type':
                yield (d.get('name'), nm, at + o, s, t)

    def extent(self, R, obj, off):
        d = self.di(obj)
        if d is not None:
            n = self.T.room(d, off)
            if n:
                return n
        return 1 << 60

    # ----------------------------------------------------------- arithmetic

    def arith(self, R, S, ins, x, y):
        if x is None or y is None:
            return None
        k = S.known(y)
        if ins.op in ('udiv', 'lshr', 'urem', 'sdiv') and k is not None and \
                k >= 0:
            d = k if ins.op in ('udiv', 'urem', 'sdiv') else 1 << k
            if d <= 0:
                return None
            f = S.a.norm(x)
            dst = 'q:' + ins.dst
            S.a.forget(dst)
            if dst in f:
                return None
            S.a.add_ge(var(dst))
            S.a.add_ge(add(f, scale(var(dst), d), -1))
            S.a.add_ge(add(add(scale(var(dst), d), const(d - 1)), f, -1))
            r = var(dst)
            if ins.op == 'urem':
                r = add(f, scale(r, d), -1)
            return r
        if ins.op == 'and' and k is not None and k > 0 and \
                k & (k + 1) == 0:
            # the remainder of a power of two
            f = S.a.norm(x)
            if prove(S, f) and prove(S, add(const(k), f, -1)):
                return f
            dst = 'q:' + ins.dst
            S.a.forget(dst)
            if dst in f or not prove(S, f):
                return None
            S.a.add_ge(var(dst))
            r = add(f, scale(var(dst), k + 1), -1)
            S.a.add_ge(r)
            S.a.add_ge(add(const(k), r, -1))
            return r
        if ins.op == 'or':
            for a, b in ((x, y), (y, x)):
                a, b = S.a.norm(a), S.a.norm(b)
                m = 0
                for v, c in a.items():
                    m = gcd(m, int(c)) if Fr(c).denominator == 1 else 1
                if m > 1 and prove(S, a):
                    m &= -m
                    if prove(S, b) and prove(S, add(const(m - 1), b, -1)):
                        return add(a, b)
        return None

    def mask(self, R, S, x, k, dst):
        """x & k: the states for the possible results, or None"""
        f = S.a.norm(x)
        j = k & 0xffffffff
        top = 0
        for w in (7, 15, 31):
            if j == 1 << w or (j & 0xffff == 0xffff & ~(1 << w)
                               and w < 16 and j >> 16 in (0, 0xffff)) or \
                    j == (1 << w) - 1:
                top = w
        if not top or isconst(f):
            return None
        p = 1 << top
        if not (prove(S, f) and prove(S, add(const(2 * p - 1), f, -1))):
            return None
        out = []
        for hi in (0, 1):
            b = S.copy()
            if not b.a.add_ge(add(f, const(-p)) if hi else
                              add(const(p - 1), f, -1)):
                continue
            if j == p:
                r = const(p if hi else 0)
            else:
                r = add(f, const(-p)) if hi else f
            R.setnum(b, dst, r)
            out.append(b)
        return out

    def gep(self, R, S, b, ins):
        """a pointer to a structure is formed: its type"""
        if b[1][:2] in ('H:', 'D:', 'E:', 'R:') and b[2] == 0 and \
                self.ty.get(b[1]) is None:
            nm = getattr(ins.ty, 'name', None)
            if nm:
                d = self.m.struct_di(nm.lstrip('%').replace('struct.', ''))
                if d is not None:
                    self.ty[b[1]] = d

    # ---------------------------------------------------------------- calls

    def fork(self, R, S, dst, vals):
        out = []
        for v in vals:
            b = S.copy()
            if dst:
                R.setnum(b, dst, const(v))
                b.keep[dst] = v
            out.append(b)
        return out

    def bits(self, R, S, o):
        """form of the size of a bit string"""
        b = R.ptr(S, o)
        if b is None or not isinstance(b[1], int):
            return None
        c = var(S.cell(b[0], b[1] + self.L.bsize))
        S.a.add_ge(c)
        if (b[0], b[1]) not in self.fresh(S):
            S.a.add_ge(add(const(KEYBITS), c, -1))
        return c

    def fresh(self, S):
        return ()

    def setbits(self, R, S, o, f):
        b = R.ptr(S, o)
        if b is None or not isinstance(b[1], int):
            return None
        c = S.cell(b[0], b[1] + self.L.bsize)
        S.a.forget('z@%s+%d' % b)
        S.a.assign(c, None if f is None else S.a.norm(f))
        if f is None:
            S.a.add_ge(var(c))
            S.a.add_ge(add(const(KEYBITS), var(c), -1))
        return var(c)

    def zof(self, R, S, o, dst):
        """form of the encoded size of a bit string"""
        b = R.ptr(S, o)
        n = self.bits(R, S, o)
        z = 'z@' + ('%s+%d' % b if n is not None else dst)
        if not any(z in g for g in S.a.ge) and z not in S.a.eq:
            S.a.add_ge(add(var(z), const(-1)))
            S.a.add_ge(add(const(34), var(z), -1))
            if n is not None:
                # 8 * z >= size + 8, 8 * z <= size + 7 + 16
                S.a.add_ge(add(scale(var(z), 8), add(n, const(8)), -1))
                S.a.add_ge(add(add(n, const(23)), scale(var(z), 8), -1))
        return var(z)

    def pure(self, name):
        return name in HELPERS or name in ('free', 'memcmp',
                                           'urkel_memcmp',
                                           '__urkel_get_errno')

    def depth(self, R, S, o, loc, what):
        d = R.num(S, o)
        self.need(S, None if d is None else add(const(KEYBITS), d, -1), loc,
                  'depth', what)
        self.need(S, d, loc, 'depth', what)
        return d

    def call(self, R, S, name, args, dst, loc, ins):
        L = self.L
        if name in NORET or (ins.x[0] == '@' and R.noreturn(ins.x[1:])):
            if self.aborts:
                self.obl.add(('abort', self.me, loc))
                # the path may still be impossible
                if not refute([S.a.norm(g) for g in S.a.ge]):
                    self.bad(loc, 'the process may be aborted')
            return []
        if name == self.me:
            for i, (lo, hi) in self.spec.get('arg', {}).items():
                self.depth(R, S, args[i], loc, 'the depth passed on may '
                           'lie behind the last bit of a key')
            return self.opaque(R, S, name, args, dst, ins)
        if name in ('urkel_read8', 'urkel_read16', 'urkel_read32',
                    'urkel_read64'):
            w = int(name[10:])
            self.access(R, S, args[0], const(w // 8), loc, 'input read')
            R.setval(S, dst, None)
            S.a.add_ge(var(dst))
            if w <= 32:
                S.a.add_ge(add(const((1 << w) - 1), var(dst), -1))
            return [S]
        if name == 'urkel_bits_init':
            n = R.num(S, args[1])
            self.need(S, None if n is None else add(const(KEYBITS), n, -1),
                      loc, 'field', 'a number of bits over %d may be stored'
                      % KEYBITS)
            self.setbits(R, S, args[0], n)
            return [S]
        if name in ('urkel_bits_has', 'urkel_bits_count'):
            n = self.bits(R, S, args[0])
            d = self.depth(R, S, args[2], loc, 'a prefix may be compared '
                           'behind the last bit of a key')
            if name == 'urkel_bits_has':
                o = self.fork(R, S, dst, (0, 1))
                if n is not None and d is not None:
                    # all bits of it were compared with bits of the key
                    if not o[1].a.add_ge(add(add(const(KEYBITS), d, -1), n,
                                             -1)):
                        o = o[:1]
                return o
            R.setval(S, dst, None)
            S.a.add_ge(var(dst))
            if n is not None:
                S.a.add_ge(add(n, var(dst), -1))
            if d is not None:
                S.a.add_ge(add(add(const(KEYBITS), d, -1), var(dst), -1))
            return [S]
        if name == 'urkel_bits__count':
            n = self.bits(R, S, args[0])
            i = R.num(S, args[1])
            d = self.depth(R, S, args[3], loc, 'a prefix may be compared '
                           'behind the last bit of a key')
            R.setval(S, dst, None)
            S.a.add_ge(var(dst))
            if n is None or i is None:
                self.undecided('depth', loc)
            else:
                self.need(S, add(n, i, -1), loc, 'depth', 'keys may be '
                          'compared behind their last bit')
                S.a.add_ge(add(add(n, S.a.norm(i), -1), var(dst), -1))
            if d is not None:
                S.a.add_ge(add(add(const(KEYBITS), d, -1), var(dst), -1))
            return [S]
        if name == 'urkel_blake2b_update':
            self.access(R, S, args[1], R.num(S, args[2]), loc, 'buffer')
            return [S]
        if name == 'urkel_blake2b_final':
            self.access(R, S, args[1], const(32), loc, 'buffer')
            return [S]
        if name == 'urkel_blake2b_init':
            return [S]
        if name == 'urkel_bits_size':
            R.setnum(S, dst, self.zof(R, S, args[0], dst))
            return [S]
        if name == 'urkel_bits_read':
            n = R.num(S, args[2])
            self.access(R, S, args[1], n, loc, 'input read')
            out = self.fork(R, S, dst, (0, 1))
            b = R.ptr(S, args[0])
            for x in out:
                if b is not None and isinstance(b[1], int):
                    x.a.forget('z@%s+%d' % b)
                    self.setbits(R, x, args[0], None)
            z = self.zof(R, out[1], args[0], dst)
            if n is not None and not out[1].a.add_ge(add(n, z, -1)):
                out = out[:1]
            return out
        if name == 'urkel_bits_split':
            n = self.bits(R, S, args[2])
            i = R.num(S, args[3])
            self.need(S, None if n is None or i is None else
                      add(add(n, i, -1), const(-1)), loc, 'split',
                      'a prefix may be split behind its last bit')
            self.need(S, i, loc, 'split', 'a prefix may be split before its '
                      'first bit')
            i = None if i is None else S.a.norm(i)
            n = None if n is None else S.a.norm(n)
            if i is not None and n is not None:
                S.a.add_eq(add(var('t1'), i, -1))
                S.a.add_eq(add(var('t2'), n, -1))
                self.setbits(R, S, args[0], var('t1'))
                self.setbits(R, S, args[1], add(add(var('t2'), var('t1'),
                                                    -1), const(-1)))
                S.a.forget('t1'); S.a.forget('t2')
            return [S]
        if name == 'urkel_bits_slice':
            n = self.bits(R, S, args[1])
            i, j = R.num(S, args[2]), R.num(S, args[3])
            if None in (n, i, j):
                self.undecided('split', loc)
                self.setbits(R, S, args[0], None)
                return [S]
            w = 'bits outside of a bit string may be copied'
            self.need(S, i, loc, 'split', w)
            self.need(S, add(j, i, -1), loc, 'split', w)
            self.need(S, add(n, j, -1), loc, 'split', w)
            self.setbits(R, S, args[0], S.a.norm(add(j, i, -1)))
            return [S]
        if name == 'urkel_bits_collide':
            n = self.bits(R, S, args[1])
            d = self.depth(R, S, args[3], loc, 'keys may be compared behind '
                           'their last bit')
            if n is not None and d is not None:
                self.need(S, add(n, d, -1), loc, 'depth',
                          'keys may be compared behind their last bit')
            c = self.setbits(R, S, args[0], None)
            if c is not None and d is not None:
                S.a.add_ge(add(add(const(KEYBITS), S.a.norm(d), -1), c, -1))
            return [S]
        if name == 'urkel_bits_join':
            a, b = self.bits(R, S, args[1]), self.bits(R, S, args[2])
            if a is None or b is None:
                self.undecided('join', loc)
                self.setbits(R, S, args[0], None)
                return [S]
            n = add(add(a, b), const(1))
            self.need(S, add(const(KEYBITS), n, -1), loc, 'join',
                      'a joined prefix may be longer than a key')
            self.setbits(R, S, args[0], S.a.norm(n))
            return [S]
        if name in ('urkel_hash_value', 'urkel_hash_raw',
                    'urkel_node_store', 'urkel_store_read',
                    'urkel_fs_pread', 'urkel_fs_read', 'urkel_node_read',
                    'urkel_hash_key'):
            i, j = {'urkel_hash_value': (2, 3), 'urkel_hash_raw': (1, 2),
                    'urkel_node_store': (1, 2), 'urkel_store_read': (1, 2),
                    'urkel_fs_pread': (1, 2), 'urkel_fs_read': (1, 2),
                    'urkel_node_read': (1, 2), 'urkel_hash_key': (1, 2)}[name]
            if j < len(args):
                self.access(R, S, args[i], R.num(S, args[j]), loc, 'buffer')
            p = R.ptr(S, args[0])
            if name == 'urkel_node_read' and p is not None:
                S.forget_cells(p[0])
            if dst:
                return self.fork(R, S, dst, (0, 1))
            return [S]
        if name == 'urkel_store_retrieve':
            self.access(R, S, args[2], const(1023), loc, 'buffer',
                        'a value may be larger than the buffer for it')
            out = self.fork(R, S, dst, (0, 1))
            p = R.ptr(S, args[3])
            if p is not None and isinstance(p[1], int):
                for x in out:
                    c = x.cell(*p)
                    x.a.forget(c)
                    x.a.add_ge(var(c))
                c = out[1].cell(*p)
                out[1].a.add_ge(add(const(1023), var(c), -1))
            return out
        if name == 'urkel_meta_read':
            self.access(R, S, args[1], const(META), loc, 'input read')
            return self.fork(R, S, dst, (0, 1))
        if name in ALLOC or name in ('realloc', 'checked_realloc'):
            if dst is None:
                return [S]
            new = 'H:' + dst
            n = R.num(S, args[-1])
            n = None if n is None else S.a.norm(n)
            S.reset(new)
            self.ty.pop(new, None)
            S.a.assign('sz@' + new, n)
            R.setval(S, dst, ('p', new, 0))
            if self.spec.get('heap') and 'realloc' not in name:
                S.a.assign(LIVE, S.a.norm(add(var(LIVE), const(1))))
            return [S]
        if name == 'free' and self.spec.get('heap'):
            self.freed(R, S, args[0], loc)
            return [S]
        if name.startswith('llvm.mem') or name in ('memcpy', 'memmove',
                                                   'memset'):
            if 'memset' in name:
                self.access(R, S, args[0], R.num(S, args[2]), loc, 'copy')
            return None
        if name in ('memcmp', 'urkel_memcmp', 'bcmp'):
            n = R.num(S, args[2])
            self.access(R, S, args[0], n, loc, 'copy')
            self.access(R, S, args[1], n, loc, 'copy')
            R.setval(S, dst, None)
            return [S]
        return self.opaque(R, S, name, args, dst, ins)

    def opaque(self, R, S, name, args, dst, ins):
        """a function which is not looked into"""
        g = self.m.funcs.get(ins.x[1:])
        if not self.pure(name):
            for o in args:
                p = R.ptr(S, o)
                if p is not None:
                    S.forget_cells(p[0])
        if dst is None:
            return [S]
        if ins.ty is not None and ins.ty.k == 'ptr':
            out = []
            if name not in NONNULL:
                b = S.copy()
                R.setval(b, dst, ('null',))
                out.append(b)
            new = 'R:' + dst
            S.reset(new)
            self.ty.pop(new, None)
            if g is not None and g.dbg:
                try:
                    self.ty[new] = self.m.pointee(self.m.fn_sig(g.name)[0])
                except Exception:
                    pass
            R.setval(S, dst, ('p', new, 0))
            return out + [S]
        R.setval(S, dst, None)
        return [S]

    def freed(self, R, S, o, loc):
        """a block is released: each element of the array once, in order"""
        v = R.val(S, o)
        if v == ('null',):
            return
        self.obl.add(('release', self.me, loc))
        n = None
        if v is not None and v[0] == 'p' and v[1][:2] == 'E:':
            n = S.a.norm(var('ix@' + v[1]))
        if n is not None:
            if not (S.equal(n, S.a.norm(var(FREED))) or
                    S.equal(n, add(S.a.norm(var(LIVE)), const(-1)))):
                self.lost.add(('release', loc))
        S.a.assign(LIVE, S.a.norm(add(var(LIVE), const(-1))))
        S.a.assign(FREED, S.a.norm(add(var(FREED), const(1))))

    # --------------------------------------------------------------- result

    def ret(self, R, S, o, loc):
        self.rets += 1
        if self.spec.get('heap'):
            self.obl.add(('leak', self.me, loc))
            n = S.a.norm(var(LIVE))
            if not prove(S, scale(n, -1)):
                self.bad(loc, 'memory may not be released at this return')
            elif not prove(S, n):
                self.bad(loc, 'memory may be released twice')
        post = self.spec.get('post')
        if post is None or o is None:
            return
        f = R.num(S, o)
        post(self, R, S, f, loc)


META = 38
LIVE, FREED = 'g:live', 'g:freed'


def post_read(c, R, S, f, loc):
    """the encoded bit string lies within the input"""
    if f is None or S.known(f) == 0:
        return
    n = var(S.cell('P:' + c.pn[0], c.L.bsize))
    ln = var('P:' + c.pn[2])
    for big in (0, 1):
        b = S.copy()
        if not b.a.add_ge(add(n, const(-128)) if big else
                          add(const(127), n, -1)):
            continue
        if refute([b.a.norm(g) for g in b.a.ge]):
            continue
        g = add(scale(add(ln, const(-1 - big)), 8), n, -1)
        c.need(b, g, loc, 'result', 'a bit string may be taken as read '
               'although it does not lie within the input')


def post_count(c, R, S, f, loc):
    if f is None:
        return c.undecided('result', loc)
    n = var(S.cell('P:' + c.pn[0], c.L.bsize))
    d = var('P:' + c.pn[len(c.pn) - 1])
    w = 'more bits may be counted than were compared'
    c.need(S, add(n, f, -1), loc, 'result', w)
    c.need(S, add(add(const(KEYBITS), d, -1), f, -1), loc, 'result', w)
    c.need(S, f, loc, 'result', w)


def post_count4(c, R, S, f, loc):
    if f is None:
        return c.undecided('result', loc)
    n = var(S.cell('P:' + c.pn[0], c.L.bsize))
    i, d = var('P:' + c.pn[1]), var('P:' + c.pn[3])
    w = 'more bits may be counted than were compared'
    c.need(S, add(add(n, i, -1), f, -1), loc, 'result', w)
    c.need(S, add(add(const(KEYBITS), d, -1), f, -1), loc, 'result', w)
    c.need(S, f, loc, 'result', w)


def post_retrieve(c, R, S, f, loc):
    if f is None or S.known(f) == 0:
        return
    z = var(S.cell('P:' + c.pn[3], 0))
    c.need(S, add(const(1023), z, -1), loc, 'result',
           'a value larger than any may be returned')


def bits_le(i, g=None):
    def f(c, S):
        return add(const(KEYBITS), var(S.cell('P:' + c.pn[i], c.L.bsize)),
                   -1)
    return f


def bits_ge(i):
    def f(c, S):
        return var(S.cell('P:' + c.pn[i], c.L.bsize))
    return f


def lt_bits(i, j):
    """argument j < number of bits of argument i"""
    def f(c, S):
        return add(add(var(S.cell('P:' + c.pn[i], c.L.bsize)),
                       var('P:' + c.pn[j]), -1), const(-1))
    return f


def le_bits(i, j):
    def f(c, S):
        return add(var(S.cell('P:' + c.pn[i], c.L.bsize)),
                   var('P:' + c.pn[j]), -1)
    return f


def join_ok(c, S):
    return add(const(KEYBITS - 1), add(
        var(S.cell('P:' + c.pn[1], c.L.bsize)),
        var(S.cell('P:' + c.pn[2], c.L.bsize))), -1)


def le_args(i, j):
    def f(c, S):
        return add(var('P:' + c.pn[j]), var('P:' + c.pn[i]), -1)
    return f


B = (bits_le, bits_ge)
DEPTH = (0, KEYBITS)
HELPER_ROOTS = [
    dict(fn='urkel_bits_read', buf={1: 2}, post=post_read, split=True),
    dict(fn='urkel_bits_count', room={1: 32}, arg={2: DEPTH},
         pre=[bits_le(0), bits_ge(0)], post=post_count, split=True),
    dict(fn='urkel_bits__count', room={2: 32}, arg={3: DEPTH},
         pre=[bits_le(0), bits_ge(0), le_bits(0, 1)], post=post_count4,
         split=True, opt=True),
    dict(fn='urkel_bits_has', room={1: 32}, arg={2: DEPTH},
         pre=[bits_le(0), bits_ge(0)]),
    dict(fn='urkel_bits_size', pre=[bits_le(0), bits_ge(0)]),
    dict(fn='urkel_bits_init', arg={1: DEPTH}),
]
BIT_ROOTS = [
    dict(fn='urkel_bits_slice', arg={2: (0, None)},
         pre=[bits_le(1), bits_ge(1), le_args(2, 3), le_bits(1, 3)]),
    dict(fn='urkel_bits_split', arg={3: (0, None)},
         pre=[bits_le(2), bits_ge(2), lt_bits(2, 3)]),
    dict(fn='urkel_bits_collide', room={2: 32}, arg={3: DEPTH},
         pre=[bits_le(1), bits_ge(1), le_bits(1, 3)]),
    dict(fn='urkel_bits_join', pre=[bits_le(1), bits_ge(1), bits_le(2),
                                    bits_ge(2), join_ok]),
]
HASH_ROOTS = [
    dict(fn='urkel_hash_internal', room={0: 32, 2: 32, 3: 32},
         pre=[bits_le(1), bits_ge(1)]),
    dict(fn='urkel_hash_value', room={0: 32, 1: 32}, buf={2: 3}),
    dict(fn='urkel_hash_leaf', room={0: 32, 1: 32, 2: 32}),
    dict(fn='urkel_hash_raw', room={0: 32}, buf={1: 2}),
]
VERIFY = [dict(fn='urkel_verify', buf={3: 4}, heap=True,
               room={1: 1023, 5: 32, 6: 32})]
DB = [
    dict(fn='urkel_node_read', buf={1: 2}),
    dict(fn='urkel_store_read_node', aborts=False),
    dict(fn='urkel_store_retrieve', room={2: 1023}, aborts=False, split=True,
         post=post_retrieve),
    dict(fn='urkel_store_read_root', aborts=False),
    dict(fn='urkel_meta_read', buf={1: (META,)}, room={2: 32},
         aborts=False),
    dict(fn='urkel_store_recover_state', aborts=False),
]
TREE = [
    dict(fn='urkel_tree_get', room={1: 1023, 4: 32}, arg={5: DEPTH},
         aborts=False),
    dict(fn='urkel_tree_insert', room={2: 32}, arg={5: DEPTH},
         aborts=False),
    dict(fn='urkel_tree_remove', room={2: 32}, arg={3: DEPTH},
         aborts=False),
    dict(fn='urkel_tree_prove', room={3: 32}, arg={4: DEPTH},
         aborts=False),
]


def policy_for(root):
    def policy(name, g):
        if name == root:
            return False
        if name in HELPERS:
            # what a root's own contract is about is looked into
            return (root, name) in LOOKINTO
        return name not in OPAQUE and len(g.blocks) <= 80
    return policy


LOOKINTO = {('urkel_bits_has', 'urkel_bits_count'),
            ('urkel_store_recover_state', 'urkel_node_read')}


def roots(ctx, specs):
    res = ctx.result()
    done = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        L = Layout(m)
        for spec in specs:
            fn = spec['fn']
            g = m.funcs.get(fn)
            if g is None or not g.blocks:
                if spec.get('opt'):
                    continue
                res.undecided.append('%s: not there' % fn)
                continue
            one = ctx.result()
            c = Bounds(m, L, spec, one)
            try:
                R = Rel(m, fn, c, policy_for(fn))
                R.run()
            except AnalysisBroken as x:
                res.undecided.append('%s: %s' % (fn, x))
                continue
            done += 1
            res.fns |= R.f.fns
            res.nblocks += len(R.f.blocks)
            res.nstates += R.steps
            res.sites += R.sites
            for k in c.obl:
                res.obl[k] = 1
            res.v.update(one.v)
            for kind, loc in sorted(c.lost):
                res.undecided.append('%s at %s in %s' % (kind, loc, fn))
            if not c.rets and fn != 'x':
                res.undecided.append('%s: no return reached' % fn)
        writers(m, res)
    res.need('functions analysed', done, 1)
    return res


def writers(m, res):
    """Every function which sets a bounded field is to be one analysed."""
    known = set(res.fns)
    for sp in HELPER_ROOTS + HASH_ROOTS + VERIFY + DB + TREE + BIT_ROOTS:
        known.add(sp['fn'])
    T = Types(m)
    for name, g in m.funcs.items():
        if base(name) in known or not g.blocks:
            continue
        geps = {}
        for lab, b in g.blocks.items():
            for ins in b.insts:
                nm = getattr(ins.ty, 'name', None)
                if ins.op == 'getelementptr' and nm and len(ins.x) == 2:
                    st = nm.lstrip('%').replace('struct.', '')
                    i = ins.x[1][1]
                    for (s, fl), n in BOUND.items():
                        if s == st and i[0] == 'i':
                            o = ins.ty.offs()[i[1]]
                            d = m.struct_di(s)
                            t = T.scalar(d, o) if d is not None else None
                            if t and t[1] == fl:
                                geps[ins.dst] = (s, fl)
        for lab, b in g.blocks.items():
            for ins in b.insts:
                if ins.op == 'store' and ins.args[1][0] == 'r' and \
                        ins.args[1][1] in geps:
                    v = ins.args[0]
                    k = geps[ins.args[1][1]]
                    res.obl[('field', name, m.locstr(ins.loc))] = 1
                    if v[0] == 'i' and 0 <= v[1] <= BOUND[k]:
                        continue
                    res.undecided.append('field %s at %s in %s' % (
                        k[1], m.locstr(ins.loc), name))


def c10(ctx):
    return roots(ctx, VERIFY + HELPER_ROOTS + HASH_ROOTS)


def c11(ctx):
    return roots(ctx, DB + TREE + HELPER_ROOTS + BIT_ROOTS)

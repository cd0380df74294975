"""Interprocedural property simulation over the IR.

A property is an automaton: a monitor state which is changed by events (calls
of external functions, accesses to memory, entries and exits of functions).
Every function is analysed for every monitor state it is entered with; states
which agree on the monitor state are merged at the start of each block, states
which differ are kept apart (property simulation).  Next to the monitor state
an interval / nullness / access-path abstraction of the registers and of some
memory cells decides branches.  Results of functions are memoised by their
abstract inputs, recursion is solved by iteration to a fixed point.
"""
from . import ir as IR
from .eng import AnalysisBroken

INF = 1 << 70
NOX = frozenset()
X0 = frozenset([0])
TOP = ('i', -INF, INF, NOX)
NZ = ('i', -INF, INF, X0)
ZERO = ('i', 0, 0, NOX)
ONE = ('i', 1, 1, NOX)
BOOL = ('i', 0, 1, NOX)


def C(n):
    return ('i', n, n, NOX)


def R(lo, hi, ex=NOX):
    """the integers lo..hi except those in ex"""
    if ex is True:
        ex = X0
    if ex:
        while lo in ex:
            lo += 1
        while hi in ex and hi >= lo:
            hi -= 1
        ex = frozenset(x for x in ex if lo < x < hi)
    return ('i', lo, hi, ex or NOX)


def tagged(v, tag):
    """an integer which is known to be a certain handle"""
    return ('i', v[1], v[2], v[3], tag)


def tag_of(v):
    return v[4] if v[0] == 'i' and len(v) > 4 else None


def has(v, c):
    return v[1] <= c <= v[2] and c not in v[3]


def PTR(root, path=(), nul='maybe'):
    return ('p', root, path, nul)


def is_c(v):
    return v[0] == 'i' and v[1] == v[2]


def is_null(v):
    return v == ZERO


def nonzero(v):
    """True / False / None"""
    if v[0] == 'i':
        if not has(v, 0):
            return True
        if v[1] == 0 == v[2]:
            return False
        return None
    if v[0] == 'p':
        return True if v[3] == 'nn' else None
    return True


ANY = ('?',)
NULLROOT = ('N',)


def vjoin(a, b):
    if a == b:
        return a
    if a[0] == 'i' and b[0] == 'i':
        lo, hi = min(a[1], b[1]), max(a[2], b[2])
        if hi - lo <= 16:
            ex = frozenset(x for x in range(lo + 1, hi)
                           if not has(a, x) and not has(b, x))
        elif not a[3] and not b[3] and lo <= 0 <= hi and \
                (has(a, 0) or has(b, 0)):
            ex = NOX
        else:
            ex = {x for x in a[3] if not has(b, x)} | \
                {x for x in b[3] if not has(a, x)}
            if not has(a, 0) and not has(b, 0):
                ex.add(0)
            g0, g1 = min(a[2], b[2]) + 1, max(a[1], b[1])
            if 0 < g1 - g0 <= 20:
                ex |= set(range(g0, g1))
        r = R(lo, hi, frozenset(ex))
        if len(a) > 4 or len(b) > 4:
            ta, tb = tag_of(a), tag_of(b)
            # -1 is no handle: joining it keeps the tag
            if ta == tb or b == C(-1):
                r = tagged(r, ta)
            elif isinstance(ta, frozenset) and isinstance(tb, frozenset):
                r = tagged(r, ta | tb)
            elif a == C(-1):
                r = tagged(r, tb)
        return r
    if a[0] == 'p' and b[0] == 'p':
        nul = 'nn' if a[3] == b[3] == 'nn' else 'maybe'
        if ANY in (a[1], b[1]):
            return ('p', ANY, (), nul)
        if a[1] == b[1] and a[2] == b[2]:
            return ('p', a[1], a[2], nul)
        if a[1] == b[1]:
            x, y = a[2], b[2]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if x[n:] in ((), ('[]',)) and y[n:] in ((), ('[]',)):
                return ('p', a[1], x[:n] + ('[]',), nul)
        r = pick_root(a, b)
        return ('p', r, (), nul)
    if a[0] == 'p' and is_null(b):
        return a[:3] + ('maybe',)
    if b[0] == 'p' and is_null(a):
        return b[:3] + ('maybe',)
    if 'p' in (a[0], b[0]):
        return ('p', ANY, (), 'maybe')
    return TOP


def pick_root(a, b):
    """root of the join of two pointers; several places are remembered"""
    r = set(places(a)) | set(places(b))
    if len(r) > 12 or ANY in {x[0] for x in r}:
        return ANY
    return ('J', frozenset(r))


def places(v):
    """possible (root, path) of a pointer value"""
    if v[1][0] == 'J':
        return sorted(v[1][1], key=str)
    return [(v[1], v[2])]


class St:
    __slots__ = ('env', 'mem', 'mon')

    def __init__(self, env, mem, mon):
        self.env = env; self.mem = mem; self.mon = mon

    def copy(self):
        return St(dict(self.env), dict(self.mem), self.mon)


class Dead(Exception):
    pass


def tracked(root, path):
    return root[0] in 'STGHA' and '[]' not in path and '~' not in path \
        and '~?' not in path and not (root[0] == 'S' and root[-1] == 'up2')


class Monitor:
    """hooks; each may be None"""
    access = None       # (T, st, ins, place, rw, ty, val)
    sys = None          # (T, st, name, args, tag, val, ins)
    before = None       # (T, st, name, args, ins)   external call
    enter = None        # (T, st, fname, args)
    leave = None        # (T, st, fname, args, ret) after call
    abort = None        # (T, st, ins)
    models = {}
    heap_cells = True
    value = None        # (T, st, ins, place) -> value of a load
    null_root = False   # keep pointers derived from null apart
    refined = None      # (T, st, old, new) a comparison narrowed a value
    phi_kind = None     # (pointer) -> kinds not merged at phis

    def init(self, fname):
        return ()

    def ret_key(self, r):
        z = nonzero(r) if r is not None else None
        if r is not None and r[0] == 'i' and r[2] < 0:
            return -1
        if r is not None and is_c(r) and abs(r[1]) < 64:
            return (z, r[1])
        return z


class TS:
    def __init__(self, m, mon, models, handles=(), limit=400):
        self.m = m
        self.mon = mon
        self.models = dict(models)
        self.models.update(mon.models)
        self.handles = set(handles)
        self.memo = {}
        self.table = {}
        self.work = []
        self.queued = set()
        self.seq = 0
        self.cur = None
        self.chain = []
        self.touched = False
        self.stack = []
        self.curins = None
        self.reports = {}
        self.covered = set()
        self.blocks = set()
        self.calls = set()
        self.nstates = 0
        self.limit = limit
        self.rpo = {}
        self._rw = None
        self.fnames = {}
        self.seen_fns = set()
        self.obl = {}

    # ---- reporting
    def loc(self, ins=None):
        ins = ins or self.curins
        return self.m.locstr(ins.loc) if ins is not None else '?'

    def where(self):
        out = []
        for f, i in self.stack:
            out.append('%s (%s)' % (f, self.loc(i)) if i is not None else f)
        return out

    def report(self, rule, msg, ins=None, key=None):
        k = (rule, self.loc(ins), key)
        if k not in self.reports:
            self.reports[k] = (rule, self.stack[-1][0] if self.stack else '?',
                               self.loc(ins), msg, self.where())

    def oblige(self, kind, ins=None):
        k = (kind, self.stack[-1][0] if self.stack else '?', self.loc(ins))
        self.obl[k] = self.obl.get(k, 0) + 1

    # ---- structure
    def field(self, sname, off):
        n = sname.split('.', 1)[-1]
        k = (n, off)
        if k not in self.fnames:
            di = self.m.struct_di(n)
            r = None
            for o, s, nm, mn in self.m.members(di):
                if o == off:
                    r = nm
                    break
            self.fnames[k] = r or str(off)
        return '%s.%s' % (n, self.fnames[k])

    def rw_sets(self):
        """transitively read / written field names and callees"""
        if self._rw is not None:
            return self._rw
        R_, callees, allocs = {}, {}, {}
        for f in self.m.funcs.values():
            if f.decl:
                continue
            s, c = set(), set()
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'getelementptr':
                        ty = i.ty
                        if ty.k == 'struct' and len(i.x) > 1 and \
                                i.x[1][1][0] == 'i':
                            s.add(self.field(ty.name or '?',
                                             ty.offs()[i.x[1][1][1]]))
                    elif i.op == 'call' and i.x[0] == '@':
                        c.add(i.x[1:])
                    for a in i.args:
                        if isinstance(a, tuple) and a and a[0] == 'g':
                            s.add(a[1])
                        if isinstance(a, tuple) and len(a) == 2 and \
                                isinstance(a[1], tuple) and a[1][:1] == ('g',):
                            s.add(a[1][1])
            R_[f.name] = s; callees[f.name] = c
        ch = True
        reach = {f: {f} | callees[f] for f in R_}
        while ch:
            ch = False
            for f in R_:
                n = len(reach[f])
                for c in list(reach[f]):
                    reach[f] |= reach.get(c, set())
                if len(reach[f]) != n:
                    ch = True
        self.reach = reach
        self._rw = {f: set().union(*[R_.get(c, set()) for c in reach[f]])
                    for f in R_}
        return self._rw

    def order(self, f):
        if f.name not in self.rpo:
            seen, out = set(), []
            st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
            seen.add(f.order[0])
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.blocks[s].succs)))
                        break
                else:
                    out.append(b); st.pop()
            out.reverse()
            pos = {b: i for i, b in enumerate(out)}
            heads = set()
            for b in out:
                for s in f.blocks[b].succs:
                    if pos[s] <= pos[b]:
                        heads.add(s)
            defs = {}
            for b in f.blocks.values():
                for i in b.insts + b.phis:
                    if i.dst:
                        defs[i.dst] = i
            flags = set()
            for bn in f.order:
                for p in f.blocks[bn].phis:
                    if p.ty.k == 'ptr' and 1 < len(p.x) <= 6 and (
                            self.mon.phi_kind is not None or
                            any(v[0] == 'null' for v, _ in p.x)):
                        flags.add(p.dst)
                        continue
                    if p.ty.k != 'int' or p.ty.w not in (1, 32):
                        continue
                    ok = any(v[0] == 'i' for v, _ in p.x)
                    for v, pr in p.x:
                        if v[0] == 'r':
                            d = defs.get(v[1])
                            if d is not None and d.op in (
                                    'add', 'sub', 'mul', 'shl', 'lshr',
                                    'or', 'and', 'xor') and d.ty.w > 1:
                                ok = False
                    if ok:
                        flags.add(p.dst)
            ch = True
            while ch:
                ch = False
                for r, d in defs.items():
                    if r not in flags and d.op in ('zext', 'phi') and \
                            d.ty.k == 'int' and d.ty.w in (1, 8, 32):
                        src = [d.args[0]] if d.op == 'zext' else \
                            [v for v, _ in d.x]
                        if src and all(v[0] == 'i' or v[1] in flags
                                       for v in src if v[0] in 'ir') and \
                                any(v[0] == 'r' and v[1] in flags
                                    for v in src):
                            flags.add(r)
                            ch = True
            self.flags = getattr(self, 'flags', {})
            self.flags[f.name] = sorted(flags)
            # integers which are compared with zero and used again
            nuse, zt = {}, set()
            for bl in f.blocks.values():
                for i in bl.insts + bl.phis + [bl.term]:
                    for r in regs_of(i):
                        nuse[r] = nuse.get(r, 0) + 1
                    if i.op == 'icmp' and i.args[1][0] in ('i', 'null') and \
                            i.args[0][0] == 'r':
                        zt.add(i.args[0][1])
            self.tests = getattr(self, 'tests', {})
            self.tests[f.name] = {r for r in zt if nuse[r] > 1 and r in defs
                                  and defs[r].op in ('call',)}
            self.rpo[f.name] = (pos, heads, defs, self.live(f))
        return self.rpo[f.name]

    def live(self, f):
        """registers live at the start of each block"""
        use, de = {}, {}

        def ops(i):
            out = []

            def walk(o):
                if isinstance(o, tuple):
                    if len(o) == 2 and o[0] == 'r':
                        out.append(o[1])
                    else:
                        for x in o:
                            walk(x)
                elif isinstance(o, list):
                    for x in o:
                        walk(x)
            walk(tuple(i.args))
            if i.op == 'getelementptr':
                walk(i.x)
            if i.op == 'call' and i.x[0] == '%':
                out.append(i.x)
            return out
        phiuse = {}
        self.uses = getattr(self, 'uses', {})
        for bn, b in f.blocks.items():
            u, d = set(), set()
            for p in b.phis:
                d.add(p.dst)
                for v, pr in p.x:
                    if v[0] == 'r':
                        phiuse.setdefault(pr, set()).add(v[1])
            for i in b.insts + [b.term]:
                for r in ops(i):
                    if r not in d:
                        u.add(r)
                if i.dst:
                    d.add(i.dst)
            use[bn] = u; de[bn] = d
        liv = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for bn in reversed(f.order):
                b = f.blocks[bn]
                o = set(phiuse.get(bn, ()))
                for s in b.succs:
                    o |= liv[s] - {p.dst for p in f.blocks[s].phis}
                n = use[bn] | (o - de[bn]) | {p.dst for p in b.phis
                                              if p.dst in o or
                                              p.dst in use[bn] or True}
                if n != liv[bn]:
                    liv[bn] = n
                    ch = True
        return liv

    # ---- values
    def val(self, st, op):
        k = op[0]
        if k == 'r':
            return st.env.get(op[1], TOP)
        if k == 'i':
            return C(op[1])
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'g':
            n = op[1]
            if n[1:].strip('"') in self.m.funcs:
                return ('f', n[1:].strip('"'))
            return PTR(('G', n), (), 'nn')
        if k == 'gep':
            return self.gep(st, self.val(st, op[2]), op[1],
                            [(None, x) for x in op[3]])
        return TOP

    def gep(self, st, b, ty, idx):
        if b[0] != 'p':
            if is_null(b):
                return PTR(NULLROOT if self.mon.null_root else ANY, (), 'nn')
            return PTR(ANY, (), 'maybe')
        if b[1] == NULLROOT:
            return b
        if b[1][0] == 'J':
            out = None
            for r, q in places(b):
                x = self.gep(st, ('p', r, q, 'nn'), ty, idx)
                out = x if out is None else vjoin(out, x)
            return out
        root, path = b[1], b[2]
        first = True
        for it, o in idx:
            v = self.val(st, o)
            if first:
                first = False
                if v != ZERO and path[-1:] != ('[]',):
                    path = path + ('[]',)
                continue
            if ty.k == 'struct':
                i = v[1]
                s = self.field(ty.name or '?', ty.offs()[i])
                S = s.split('.')[0]
                if S in self.handles and root[0] not in 'HS':
                    root, path = ('T', S), ()
                else:
                    for k, e in enumerate(path):
                        if e.startswith(S + '.') and '*' in path[k:]:
                            path = path[:k]
                            if path[-1:] != ('~',):
                                path = path + ('~',)
                            break
                path = path + (s,)
                ty = ty.fields[i]
            else:
                ty = ty.el
                if path[-1:] != ('[]',):
                    path = path + ('[]',)
        return ('p', root, path, 'nn')

    def cell(self, mem, root, path, env=None):
        v = mem.get((root, path))
        if v is not None:
            if v[0] == 'reg':
                return env.get(v[1], TOP) if env is not None else TOP
            return v
        for n in range(len(path), -1, -1):
            if (root, path[:n] + ('0',)) in mem:
                return ZERO
        return None

    def resolve(self, st):
        """replace register references in memory by values"""
        for k, v in list(st.mem.items()):
            if v[0] == 'reg':
                x = st.env.get(v[1], TOP)
                if x == TOP:
                    del st.mem[k]
                else:
                    st.mem[k] = x

    def load(self, st, p, ty, ins):
        isptr = ty.k == 'ptr'
        if p[0] != 'p':
            return PTR(ANY) if isptr else TOP
        out = None
        for root, path in places(p):
            v = None
            if tracked(root, path):
                v = self.cell(st.mem, root, path, st.env)
            if v is None and root[0] == 'G':
                v = self.ginit(root, path, ty)
            if v is None:
                v = ('p', root, path + ('*',), 'maybe') if isptr else TOP
                if root == ANY:
                    v = PTR(ANY) if isptr else TOP
                if root[0] == 'S' and isptr and \
                        (root, ('#u',)) in st.mem:
                    v = PTR(ANY)
            out = v if out is None else vjoin(out, v)
        return out

    def ginit(self, root, path, ty):
        g = self.m.globals.get(root[1][0:]) or \
            self.m.globals.get(root[1][1:]) or None
        if g and g.get('const') and not path and g.get('init'):
            o = g['init']
            if o[0] == 'i':
                return C(o[1])
        return None

    def weak(self, st, root, path, v):
        """forget what a store through (root, path) may change"""
        last = path[-1] if path else None
        for k in list(st.mem):
            r, q = k
            if q and q[-1] in ('0', '#', '@', '@o', '#u'):
                continue
            if q and q[-1][0] == '&':
                if (r, q[:-1]) == (root, path) or (
                        q[-2:-1] == path[-1:] and not (
                            r[0] == 'S' and root[0] in 'TGAH') and not (
                            r[0] in 'SH' and root[0] == r[0] and r != root)):
                    del st.mem[k]
                continue
            if root == r and path == q and tracked(root, path):
                continue
            if not q and not path and ANY not in (root, r):
                # different variables
                continue
            if q[-1:] == path[-1:] or (last in ('[]', '*', '~')
                                       and root == ANY and not q):
                if r[0] == 'S' and root[0] in 'TGAH':
                    continue
                if r[0] == 'S' and root[0] == 'S' and r != root:
                    continue
                if r[0] == 'H' and root[0] == 'H' and r != root:
                    continue
                st.mem[k] = vjoin(self.cell(st.mem, r, q, st.env) or TOP, v)
                if st.mem[k] == TOP:
                    self.drop(st, k)

    def drop(self, st, k):
        """forget a cell"""
        r, q = k
        st.mem.pop(k, None)
        for n in range(len(q), -1, -1):
            if (r, q[:n] + ('0',)) in st.mem:
                st.mem[k] = TOP
                return

    def store(self, st, p, v, ins):
        if p[0] != 'p':
            return
        pl = places(p)
        for root, path in pl:
            self.weak(st, root, path, v)
            if tracked(root, path):
                multi = root[0] == 'H' and \
                    st.mem.get((root, ('#',))) == C(2)
                if root[0] == 'S' and root[-1] == 'up':
                    multi = False
                if multi or len(pl) > 1:
                    old = self.cell(st.mem, root, path, st.env)
                    nv = vjoin(old, v) if old is not None else None
                else:
                    nv = v
                if nv is None or nv == TOP:
                    self.drop(st, (root, path))
                else:
                    st.mem[(root, path)] = nv
        if v[0] == 'p':
            for r, q in places(v):
                if r[0] == 'H':
                    for root, path in pl:
                        if path and '.' in path[-1]:
                            st.mem.setdefault((r, ('@o',)),
                                              ('at', (root, path)))
                        if root[0] not in 'SH' or \
                                (root, ('@',)) in st.mem:
                            base = ('p', root, path, 'nn')
                            self.publish(st, r, (root, path))

    def publish(self, st, r, at):
        if (r, ('@',)) in st.mem:
            return
        st.mem[(r, ('@',))] = ('at', at)
        for (r2, q), v in list(st.mem.items()):
            if r2 == r and v[0] == 'p':
                for r3, q3 in places(v):
                    if r3[0] == 'H' and r3 != r:
                        self.publish(st, r3, (at[0], at[1] + ('*',) + q))

    # ---- refinement
    def refine_val(self, v, pred, c, truth):
        """v after (v pred c) == truth, or None if impossible"""
        inv = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt',
               'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
               'ugt': 'ule', 'ule': 'ugt'}
        if not truth:
            pred = inv[pred]
        if v[0] == 'p':
            if is_null(c):
                if pred == 'eq':
                    return None if v[3] == 'nn' else ZERO
                if pred == 'ne':
                    return v[:3] + ('nn',)
            elif pred == 'eq' and is_c(c) and c[1] in (-1, (1 << 64) - 1) \
                    and v[1][0] in 'HSG':
                return None
            return v
        if v[0] != 'i' or c[0] != 'i':
            if v[0] == 'i' and is_null(v) and c[0] == 'p' and \
                    c[3] == 'nn' and pred == 'eq':
                return None
            return v
        lo, hi, ex = v[1], v[2], v[3]
        if pred == 'eq':
            lo = max(lo, c[1]); hi = min(hi, c[2])
            ex = ex | c[3]
        elif pred == 'ne':
            if is_c(c) and (len(ex) < 12 or c[1] in (lo, hi)):
                ex = ex | {c[1]}
        else:
            if pred[0] == 'u':
                if lo < 0 or c[1] < 0:
                    if (pred, c) in (('ugt', ZERO), ('uge', ONE)):
                        return self.refine_val(v, 'ne', ZERO, True)
                    if (pred, c) in (('ule', ZERO), ('ult', ONE)):
                        return self.refine_val(v, 'eq', ZERO, True)
                    return v
            p = pred[1:]
            if p == 'lt':
                hi = min(hi, c[2] - 1)
            elif p == 'le':
                hi = min(hi, c[2])
            elif p == 'gt':
                lo = max(lo, c[1] + 1)
            elif p == 'ge':
                lo = max(lo, c[1])
        if lo > hi:
            return None
        r = R(lo, hi, ex)
        if r[1] > r[2]:
            return None
        if len(v) > 4 and r != C(-1):
            r = tagged(r, v[4])
        return r

    def decide(self, pred, a, b):
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1] and a[2] == b[2] and '[]' not in a[2] and \
                    pred in ('eq', 'ne') and a[3] == 'nn' == b[3] and \
                    tracked(a[1], a[2]) and a[1] != ANY:
                return pred == 'eq'
            return None
        x = self.refine_val(a, pred, b, True)
        if x is None:
            return False
        y = self.refine_val(a, pred, b, False)
        if y is None:
            return True
        sw = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sge': 'sle',
              'sgt': 'slt', 'sle': 'sge', 'ult': 'ugt', 'uge': 'ule',
              'ugt': 'ult', 'ule': 'uge'}[pred]
        if self.refine_val(b, sw, a, True) is None:
            return False
        if self.refine_val(b, sw, a, False) is None:
            return True
        return None

    def set_reg(self, st, r, v):
        st.env[r] = v

    def assume(self, st, f, op, truth, depth=0):
        """refine st by (op is truth); False if impossible"""
        defs = self.order(f)[2]
        if op[0] != 'r':
            v = self.val(st, op)
            nz = nonzero(v)
            return nz is None or nz == truth
        r = op[1]
        v = st.env.get(r, TOP)
        nv = self.refine_val(v, 'ne', ZERO, truth)
        if nv is None:
            return False
        st.env[r] = nv
        d = defs.get(r)
        if d is None or depth > 6:
            return True
        if d.op == 'icmp':
            a, b = d.args
            va, vb = self.val(st, a), self.val(st, b)
            pred = d.x
            na = self.refine_val(va, pred, vb, truth)
            if na is None:
                return False
            sw = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sge': 'sle',
                  'sgt': 'slt', 'sle': 'sge', 'ult': 'ugt', 'uge': 'ule',
                  'ugt': 'ult', 'ule': 'uge'}[pred]
            nb = self.refine_val(vb, sw, va, truth)
            if nb is None:
                return False
            if self.mon.refined is not None:
                self.mon.refined(self, st, va, na)
            if a[0] == 'r':
                st.env[a[1]] = na
            if b[0] == 'r':
                st.env[b[1]] = nb
            # comparison of a boolean with zero: look through
            if b[0] in ('i', 'null') and self.val(st, b) == ZERO and \
                    pred in ('eq', 'ne') and a[0] == 'r':
                return self.assume(st, f, a, truth == (pred == 'ne'),
                                   depth + 1)
            if a[0] == 'r':
                self.back(st, f, a[1], depth)
            return True
        if d.op in ('zext', 'sext') or (d.op == 'trunc' and d.ty.w == 1):
            return self.assume(st, f, d.args[0], truth, depth + 1)
        if d.op == 'phi':
            src = st.env.get('=' + r)
            if src is not None:
                return self.assume(st, f, src[1], truth, depth + 1)
            return True
        if d.op == 'xor' and d.args[1] == ('i', 1):
            return self.assume(st, f, d.args[0], not truth, depth + 1)
        if d.op == 'xor' and d.args[1] == ('i', -1) and d.ty.w == 1:
            return self.assume(st, f, d.args[0], not truth, depth + 1)
        if d.op == 'and' and d.args[1][0] == 'i' and d.args[0][0] == 'r':
            for k, x in list(st.mem.items()):
                if x == ('reg', d.args[0][1]):
                    st.mem[(k[0], k[1] + ('&%d' % d.args[1][1],))] = nv
        self.back(st, f, r, depth)
        return True

    def back(self, st, f, r, depth):
        """propagate a refined register to the value it was computed from"""
        defs = self.order(f)[2]
        d = defs.get(r)
        if d is None:
            return
        v = st.env[r]
        if d.op in ('sext', 'zext') and d.args[0][0] == 'r' and v[0] == 'i':
            s = st.env.get(d.args[0][1], TOP)
            if s[0] == 'i' and (d.op == 'sext' or s[1] >= 0):
                lo, hi = max(s[1], v[1]), min(s[2], v[2])
                if lo <= hi and R(lo, hi, s[3] | v[3])[1] <= hi:
                    st.env[d.args[0][1]] = R(lo, hi, s[3] | v[3])

    # ---- running
    def run(self, fname, args, mem, mon, wide=True):
        """results [(ret, mem, mon)] of a defined function"""
        f = self.m.funcs[fname]
        rw = self.rw_sets()[fname]
        rel = self.relevant(fname, args, mem)
        key = (fname, tuple(args), frozenset(rel.items()), mon)
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 150:
            raise AnalysisBroken('call depth')
        if fname in self.recset():
            return self.run_rec(key, args, rel, wide)
        touched, self.touched = self.touched, False
        try:
            res = self.body(f, args, rel, mon)
        finally:
            was, self.touched = self.touched, self.touched or touched
        if not was:
            self.memo[key] = res
        return res

    # Recursive functions: a table of results which grow until nothing
    # changes any more; whoever used a result is run again when it grows.
    def run_rec(self, key, args, rel, wide):
        fname, _, _, mon = key
        if wide:
            prev = None
            cnt = 0
            for k in self.chain:
                if k[0] == fname and k[3] == mon:
                    prev = k
                    cnt += 1
            if prev is not None:
                na = []
                for x, y in zip(prev[1], args):
                    j = vjoin(x, y)
                    if j[0] == 'i':
                        j = x if j == x else TOP
                    elif cnt < 10:
                        j = y
                    na.append(j)
                pm = dict(prev[2])
                nm = self.mjoin(pm, rel) if cnt >= 10 else dict(rel)
                for k, v in list(nm.items()):
                    if v[0] == 'i' and pm.get(k) != v and \
                            k[1][-1:] not in (('#',), ('@',), ('@o',)):
                        del nm[k]
                if tuple(na) != tuple(args) or nm != rel:
                    return self.run(fname, na, nm, mon, False)
        ent = self.table.get(key)
        if ent is not None:
            ent['deps'].add(self.cur)
            self.touched = True
            return list(ent['res'])
        outer = self.cur is None
        ent = dict(res=[], deps=set() if outer else {self.cur},
                   chain=tuple(self.chain), stack=list(self.stack),
                   args=list(args), rel=rel, n=0)
        self.table[key] = ent
        if len(self.table) > 30000:
            raise AnalysisBroken('too many contexts of recursive functions')
        try:
            self.evaluate(key)
            if outer:
                import heapq
                while self.work:
                    _, _, k = heapq.heappop(self.work)
                    self.queued.discard(k)
                    self.evaluate(k)
                for k, e in self.table.items():
                    self.memo[k] = e['res']
        finally:
            if outer:
                self.table = {}
                self.work = []
                self.queued = set()
        if not outer:
            self.touched = True
        return list(ent['res'])

    def evaluate(self, key):
        import heapq
        ent = self.table[key]
        saved = self.cur, self.chain, self.stack, self.curins, self.touched
        self.cur = key
        self.chain = list(ent['chain']) + [key]
        self.stack = list(ent['stack'])
        if not self.stack or self.stack[-1][0] != key[0]:
            self.stack.append((key[0], None))
        ent['n'] += 1
        if ent['n'] > 400:
            raise AnalysisBroken('no fixed point in ' + key[0])
        try:
            res = self.body(self.m.funcs[key[0]], ent['args'], ent['rel'],
                            key[3])
        finally:
            (self.cur, self.chain, self.stack, self.curins,
             self.touched) = saved
        old = {(x[2], self.mon.ret_key(x[0]) if x[0] is not None else None):
               x for x in ent['res']}
        new = self.canon(ent['res'] + res)
        if ent['n'] > 8:
            out = []
            for r, m, mo in new:
                o = old.get((mo, self.mon.ret_key(r) if r is not None
                             else None))
                if o is not None:
                    m = {k: widen(o[1][k], v) if k in o[1] and v[0] == 'i' ==
                         o[1][k][0] and v != o[1][k] and
                         k[1][-1:] != ('#',) else v for k, v in m.items()}
                    if r is not None and r[0] == 'i' == o[0][0] and r != o[0]:
                        r = widen(o[0], r)
                out.append((r, m, mo))
            new = out
        if {self.rkey(x) for x in new} != {self.rkey(x) for x in ent['res']}:
            ent['res'] = new
            for d in ent['deps']:
                if d not in self.queued and d in self.table:
                    self.queued.add(d)
                    self.seq += 1
                    heapq.heappush(self.work,
                                   (-len(self.table[d]['chain']), self.seq,
                                    d))

    def rkey(self, x):
        return (x[0], frozenset(x[1].items()), x[2])

    def canon(self, res):
        """merge results by monitor state and kind of return value"""
        out = {}
        for r, mem, mon in res:
            k = (mon, self.mon.ret_key(r) if r is not None else None)
            if k in out:
                r0, m0 = out[k]
                out[k] = (vjoin(r0, r) if r is not None else None,
                          self.mjoin(m0, mem))
            else:
                out[k] = (r, mem)
        return [(r, mem, k[0]) for k, (r, mem) in out.items()]

    def mjoin(self, a, b, ea=None, eb=None):
        if a == b:
            return a
        out = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if k[1][-1:] in (('@',), ('#',), ('@o',)):
                    out[k] = v
                    continue
                if k[1][-1:] == ('0',):
                    # keep what was zero as explicit cells only
                    continue
                w = self.cell(b, k[0], k[1], eb)
                if w is None:
                    continue
            if v == w:
                out[k] = v
                continue
            if k[1][-1:] == ('#',):
                out[k] = C(2)
                continue
            if v[0] == 'reg':
                v = ea.get(v[1], TOP) if ea is not None else TOP
            if w[0] == 'reg':
                w = eb.get(w[1], TOP) if eb is not None else TOP
            if v[0] == 'at' or w[0] == 'at':
                out[k] = v
                continue
            j = vjoin(v, w)
            if j != TOP:
                out[k] = j
        for k, w in b.items():
            if k in a:
                continue
            if k[1][-1:] in (('@',), ('#',), ('@o',)):
                out[k] = w
            elif k[1][-1:] == ('0',):
                pass
            else:
                v = self.cell(a, k[0], k[1], ea)
                if v is not None:
                    if w[0] == 'reg':
                        w = eb.get(w[1], TOP) if eb is not None else TOP
                    j = vjoin(v, w)
                    if j != TOP:
                        out[k] = j
        return out

    def relevant(self, fname, args, mem):
        rw = self.rw_sets()[fname]
        reach = self.reach[fname]
        roots = set()
        work = []

        def add(v):
            if v[0] == 'p':
                for r, q in places(v):
                    if r not in roots:
                        roots.add(r); work.append(r)
        for a in args:
            if a is not None:
                add(a)
        byroot = {}
        for (r, q), v in mem.items():
            byroot.setdefault(r, []).append((q, v))
        rel = {}
        for r, cs in byroot.items():
            if r[0] in 'TG':
                for q, v in cs:
                    last = q[-1] if q else None
                    if r[0] == 'G':
                        ok = r[1] in rw or r[1] in self.always
                    else:
                        if last and last[0] == '&':
                            last = q[-2]
                        ok = last in rw or last == '*'
                    if ok:
                        rel[(r, q)] = v
                        add(v)
        while work:
            r = work.pop()
            for q, v in byroot.get(r, ()):
                if r[0] in 'SHA':
                    rel[(r, q)] = v
                    add(v)
        for r, cs in byroot.items():
            if r[0] == 'H' and r not in roots and r[1] in reach:
                for q, v in cs:
                    if q == ('#',):
                        rel[(r, q)] = v
        return rel

    def passed(self, fname, rel):
        """leave out what a load would yield anyhow"""
        rel = dict(rel)
        rec = fname in self.recset()
        for (r, q), v in list(rel.items()):
            if r[0] not in 'TAH' or q[-1:] in (('#',), ('@',), ('@o',), ('0',)):
                continue
            if (v[0] == 'p' and v == ('p', r, q + ('*',), 'maybe') and
                self.cell({k: x for k, x in rel.items()
                           if k[1][-1:] == ('0',)}, r, q) is None) or (
                    rec and v[0] == 'i' and v[2] - v[1] > 16 and len(v) < 5
                    and r[0] in 'TA'):
                # what a load would yield anyhow
                rel[(r, q)] = None
        return {k: v for k, v in rel.items() if v is not None}

    always = {'@errno'}

    def body(self, f, args, mem, mon):
        pos, heads, defs, live = self.order(f)
        self.seen_fns.add(f.name)
        env = {}
        for (ty, nm), v in zip(f.params, args):
            env[nm] = v if v is not None else TOP
        inb = {}
        entry = f.order[0]
        inb[entry] = {(mon, ()): [env, mem, 0]}
        flags = self.flags[f.name]
        rets = []
        n = 0
        import heapq
        heap = [(pos[entry], 0, entry, (mon, ()))]
        inq = {(entry, (mon, ()))}
        cnt = 0
        while heap:
            _, _, b, mk = heapq.heappop(heap)
            inq.discard((b, mk))
            n += 1
            if n > 20000:
                raise AnalysisBroken('too many steps in ' + f.name)
            e, m, c = inb[b][mk]
            for tgt, st in self.block(f, b, St(dict(e), dict(m), mk[0]), rets):
                tb = f.blocks[tgt]
                # phis
                if tb.phis:
                    nv = {}
                    for p in tb.phis:
                        for v, pr in p.x:
                            if pr == b:
                                nv[p.dst] = self.val(st, v)
                                if v[0] == 'r':
                                    nv['=' + p.dst] = ('op', v)
                                else:
                                    st.env.pop('=' + p.dst, None)
                                break
                    st.env.update(nv)
                for k, v in list(st.mem.items()):
                    if v[0] == 'reg' and v[1] not in st.env:
                        del st.mem[k]
                lv = live[tgt]
                ext = set()
                for r, x in st.env.items():
                    if r[0] == '=' and r[1:] in lv:
                        chain = [x[1][1]]
                        while chain:
                            y = chain.pop()
                            if y in ext or y in lv:
                                continue
                            ext.add(y)
                            dd = defs.get(y)
                            if dd is not None and dd.op in (
                                    'icmp', 'zext', 'sext', 'xor', 'trunc'):
                                chain += [o[1] for o in dd.args
                                          if o[0] == 'r']
                            if dd is not None and dd.op == 'phi' and \
                                    '=' + y in st.env:
                                ext.add('=' + y)
                                chain.append(st.env['=' + y][1][1])
                if ext:
                    lv = lv | ext
                env2 = {r: x for r, x in st.env.items() if r in lv or
                        (r[0] == '=' and r[1:] in lv)}
                for k, v in list(st.mem.items()):
                    if v[0] == 'reg' and (v[1] not in env2 or (
                            tb.phis and v[1] in nv)):
                        x = st.env.get(v[1], TOP)
                        if x == TOP:
                            del st.mem[k]
                        else:
                            st.mem[k] = x
                d = inb.setdefault(tgt, {})
                fk = []
                for r in flags:
                    if r in env2:
                        z = env2[r]
                        if is_c(z) and 0 <= z[1] <= 1:
                            fk.append((r, z[1]))
                        elif z[0] == 'p':
                            if self.mon.phi_kind is not None:
                                fk.append((r, z[3], self.mon.phi_kind(z)))
                            elif z[3] == 'nn':
                                fk.append((r, 'nn'))
                        elif '=' + r in env2:
                            fk.append((r, env2['=' + r][1]))
                for r in sorted(self.tests[f.name]):
                    if r in env2:
                        z = nonzero(env2[r])
                        if z is not None:
                            fk.append((r, z))
                sk = (st.mon, tuple(fk))
                if len(d) > 64 and sk not in d:
                    sk = (st.mon, ())
                old = d.get(sk)
                if old is None:
                    if len(d) > self.limit:
                        raise AnalysisBroken('too many monitor states in %s'
                                             % f.name)
                    d[sk] = [env2, st.mem, 1]
                else:
                    je = {}
                    wid = old[2] > 6 and tgt in heads
                    for r, x in env2.items():
                        y = old[0].get(r)
                        if y is None:
                            continue
                        if r[0] == '=':
                            if x == y:
                                je[r] = x
                            continue
                        j = vjoin(y, x)
                        if wid and j != y and j[0] == 'i':
                            j = widen(y, j)
                        je[r] = j
                    jm = self.mjoin(old[1], st.mem, old[0], env2)
                    if wid:
                        for k, j in list(jm.items()):
                            y = old[1].get(k)
                            if y is not None and y != j and j[0] == 'i' \
                                    and y[0] == 'i':
                                jm[k] = widen(y, j)
                    if je == old[0] and jm == old[1]:
                        continue
                    if old[2] > 60:
                        raise AnalysisBroken('no fixed point in ' + f.name)
                    old[0], old[1] = je, jm
                    old[2] += 1
                if (tgt, sk) not in inq:
                    cnt += 1
                    inq.add((tgt, sk))
                    heapq.heappush(heap, (pos[tgt], cnt, tgt, sk))
        out = []
        for r, m, mo in rets:
            m = {k: v for k, v in m.items()
                 if not (k[0][0] == 'S' and k[0][1] == f.name and
                         k[0][-1] not in ('up', 'up2'))}
            out.append((r, m, mo))
        return self.canon(out)

    def block(self, f, b, st, rets):
        self.blocks.add((f.name, b))
        blk = f.blocks[b]
        work = [(0, st)]
        out = []
        while work:
            i, st = work.pop()
            n = len(blk.insts)
            dead = False
            while i < n:
                ins = blk.insts[i]
                i += 1
                self.curins = ins
                self.nstates += 1
                if self.stack:
                    self.stack[-1] = (f.name, ins)
                if ins.op == 'call':
                    try:
                        rs = self.do_call(f, ins, st)
                    except Dead:
                        rs = []
                    self.curins = ins
                    self.stack[-1] = (f.name, ins)
                    if not rs:
                        dead = True
                        break
                    for r, s in rs[1:]:
                        if ins.dst:
                            s.env[ins.dst] = r
                        work.append((i, s))
                    r, st = rs[0]
                    if ins.dst:
                        st.env[ins.dst] = r
                else:
                    self.step(f, ins, st)
            if dead:
                continue
            t = blk.term
            self.curins = t
            if self.stack:
                self.stack[-1] = (f.name, t)
            if t.op == 'br':
                if len(t.x) == 1:
                    out.append((t.x[0], st))
                    continue
                c = t.args[0]
                v = nonzero(self.val(st, c))
                s1 = st.copy()
                if v is not False and self.assume(s1, f, c, True):
                    out.append((t.x[0], s1))
                if v is not True and self.assume(st, f, c, False):
                    out.append((t.x[1], st))
            elif t.op == 'switch':
                d, cases = t.x
                v = self.val(st, t.args[0])
                cur = v
                for cv, tgt in cases:
                    r = self.refine_val(cur, 'eq', C(cv), True)
                    if r is not None:
                        s = st.copy()
                        if t.args[0][0] == 'r':
                            s.env[t.args[0][1]] = r
                            self.back(s, f, t.args[0][1], 0)
                        out.append((tgt, s))
                    cur = self.refine_val(cur, 'eq', C(cv), False)
                    if cur is None:
                        break
                if cur is not None:
                    if t.args[0][0] == 'r':
                        st.env[t.args[0][1]] = cur
                    out.append((d, st))
            elif t.op == 'ret':
                r = self.val(st, t.args[0]) if t.args else None
                self.resolve(st)
                rets.append((r, st.mem, st.mon))
            elif t.op == 'unreachable':
                pass
            else:
                raise AnalysisBroken('terminator ' + t.op)
        return out

    def do_call(self, f, ins, st):
        cal = ins.x
        if cal[0] == '@':
            name = cal[1:].strip('"')
        else:
            v = st.env.get(cal, TOP)
            if v[0] != 'f':
                raise AnalysisBroken('indirect call at %s' % self.loc(ins))
            name = v[1]
        if name.startswith('llvm.dbg'):
            return [(None, st)]
        args = [self.val(st, o) if ty.k != 'md' else None
                for ty, o in ins.args]
        fn = self.m.funcs.get(name)
        if fn is None or fn.decl or name in self.models:
            return self.external(name, args, st, ins)
        self.calls.add((f.name, name, self.loc(ins)))
        return self.internal(f, fn, name, args, st, ins)

    def internal(self, f, fn, name, args, st, ins):
        if self.mon.enter is not None:
            r = self.mon.enter(self, st, name, args, ins)
            if r is not None:
                return r
        self.resolve(st)
        mem = st.mem
        wrap = name in self.wrappers()
        had = {k[0] for k in mem if k[1] == ('#',)} if wrap else ()
        up = self.own_roots(name, args, mem)
        if up:
            args = [self.ren(a, up) if a is not None else None for a in args]
            mem = self.ren_mem(mem, up)
        rel = self.relevant(name, args, mem)
        self.stack.append((name, None))
        try:
            res = self.run(name, args, self.passed(name, rel), st.mon)
        finally:
            self.stack.pop()
        out = []
        for r, m, mo in res:
            nm = {k: v for k, v in mem.items() if k not in rel}
            for k, v in m.items():
                nm[k] = v
            if up:
                inv = {v: k for k, v in up.items()}
                nm = self.ren_mem(nm, inv)
                r = self.ren(r, inv) if r is not None else None
            if wrap and r is not None and r[0] == 'p' and r[1][0] == 'H' \
                    and r[1] not in had and r[1][1] in self.wrappers():
                new = ('H', f.name, self.loc(ins))
                multi = (new, ('#',)) in nm
                if multi:
                    for k in [k for k in nm if k[0] == new]:
                        del nm[k]
                mp = {r[1]: new}
                nm = self.ren_mem(nm, mp)
                nm[(new, ('#',))] = C(2) if multi else ONE
                r = self.ren(r, mp)
            s = St(dict(st.env), nm, mo)
            out.append((r, s))
        if self.mon.leave is not None:
            o2 = []
            for r, s in out:
                x = self.mon.leave(self, s, name, args, r, ins)
                if x is None:
                    o2.append((r, s))
                else:
                    o2 += x
            out = o2
        return out

    def wrappers(self):
        """functions which only hand on the result of an allocator"""
        if not hasattr(self, '_wrap'):
            self._wrap = set()
            base = {'malloc', 'calloc', 'realloc'}
            ch = True
            while ch:
                ch = False
                for f in self.m.funcs.values():
                    if f.decl or f.name in self._wrap or \
                            f.ret is None or f.ret.k != 'ptr':
                        continue
                    cs = [i for b in f.blocks.values() for i in b.insts
                          if i.op == 'call' and
                          not i.x.startswith('@llvm.dbg')]
                    if any(i.op in ('store', 'load') for b in
                           f.blocks.values() for i in b.insts):
                        continue
                    al = [i for i in cs if i.x[1:] in base or
                          i.x[1:] in self._wrap]
                    rest = [i for i in cs if i not in al and
                            i.x[1:] not in ('abort', 'llvm.memset.p0.i64',
                                            'memset', 'memcpy', 'strlen',
                                            'llvm.memcpy.p0.i64', 'free')
                            and not self.aborts(i.x[1:])]
                    if len(al) >= 1 and not rest:
                        self._wrap.add(f.name)
                        ch = True
        return self._wrap

    def aborts(self, name):
        f = self.m.funcs.get(name)
        return f is not None and not f.decl and not any(
            b.term.op == 'ret' for b in f.blocks.values())

    def own_roots(self, name, args, mem):
        """stack objects of an outer activation of the same function"""
        up = {}
        if name not in self.recset():
            return up
        for r in {k[0] for k in mem} | {x for a in args if a and a[0] == 'p'
                                        for x, _ in places(a)}:
            if r[0] == 'S' and r[1] in self.recset() and len(r) == 3:
                up[r] = r + ('up',)
        return up

    def recset(self):
        if not hasattr(self, '_recset'):
            self.rw_sets()
            self._recset = set()
            cal = {}
            for f in self.m.funcs.values():
                if f.decl:
                    continue
                cal[f.name] = {i.x[1:] for b in f.blocks.values()
                               for i in b.insts
                               if i.op == 'call' and i.x[0] == '@'}
            for f in cal:
                for c in cal[f]:
                    if f in self.reach.get(c, ()):
                        self._recset.add(f)
        return self._recset

    def ren(self, v, mp):
        if v[0] == 'p':
            if v[1] in mp:
                return ('p', mp[v[1]], v[2], v[3])
            if v[1][0] == 'J':
                return ('p', ('J', frozenset((mp.get(r, r), q)
                                             for r, q in v[1][1])),
                        v[2], v[3])
        return v

    def ren_mem(self, mem, mp):
        out = {}
        for (r, q), v in mem.items():
            k = (mp.get(r, r), q)
            v = self.ren(v, mp)
            if k in out:
                v = vjoin(v, out[k])
            out[k] = v
        return out

    def external(self, name, args, st, ins):
        mon = self.mon
        if mon.before is not None:
            mon.before(self, st, name, args, ins)
        mod = self.models.get(name)
        if mod is None:
            for pre in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset'):
                if name.startswith(pre):
                    mod = self.models[pre[5:]]
            if name.startswith('llvm.'):
                if mod is None:
                    return [(args[0] if args and name.startswith(
                        'llvm.expect') else TOP, st)]
        if mod is None:
            self.unmodelled = getattr(self, 'unmodelled', set())
            self.unmodelled.add(name)
            mod = unknown
        res = mod(self, st, args, ins) if callable(mod) else \
            table(self, st, mod, name, args, ins)
        out = []
        for v, tag, s in res:
            if mon.sys is not None:
                r = mon.sys(self, s, name, args, tag, v, ins)
                if r is False:
                    continue
            out.append((v, s))
        return out

    def deref(self, st, f, op):
        """the pointer is used: it is not null"""
        defs = self.order(f)[2]
        n = 0
        while op[0] == 'r' and n < 12:
            n += 1
            r = op[1]
            v = st.env.get(r)
            d = defs.get(r)
            if d is not None and d.op == 'getelementptr':
                op = d.args[0]
                continue
            if v is not None and v[0] == 'p' and v[3] == 'maybe':
                st.env[r] = v[:3] + ('nn',)
            src = st.env.get('=' + r)
            if d is None or d.op != 'phi' or src is None:
                return
            op = src[1]

    def step(self, f, ins, st):
        op = ins.op
        if op in ('load', 'store'):
            self.deref(st, f, ins.args[0 if op == 'load' else 1])
        if op == 'load':
            p = self.val(st, ins.args[0])
            v = None
            if self.mon.value is not None:
                v = self.mon.value(self, st, ins, p)
            if v is None:
                v = self.load(st, p, ins.ty, ins)
            if self.mon.access is not None:
                self.mon.access(self, st, ins, p, 'r', ins.ty, v)
            st.env[ins.dst] = v
            if self.mon.heap_cells and p[0] == 'p' and p[1][0] != 'J' and \
                    tracked(p[1], p[2]) and p[1][0] in 'TASH':
                k = (p[1], p[2])
                c = st.mem.get(k)
                if c is None and self.cell(st.mem, *k) is None or \
                        (c is not None and c[0] == 'reg') or \
                        (c is not None and not is_c(c)):
                    if not (p[1][0] == 'H' and
                            st.mem.get((p[1], ('#',))) == C(2)):
                        st.mem[k] = ('reg', ins.dst)
        elif op == 'store':
            v = self.val(st, ins.args[0])
            p = self.val(st, ins.args[1])
            if self.mon.access is not None:
                self.mon.access(self, st, ins, p, 'w', ins.ty, v)
            self.store(st, p, v, ins)
        elif op == 'getelementptr':
            st.env[ins.dst] = self.gep(st, self.val(st, ins.args[0]), ins.ty,
                                       ins.x)
        elif op == 'alloca':
            root = ('S', f.name, ins.dst)
            for k in [k for k in st.mem if k[0] == root]:
                del st.mem[k]
            st.mem[(root, ('#u',))] = ONE
            st.env[ins.dst] = PTR(root, (), 'nn')
        elif op == 'icmp':
            a = self.val(st, ins.args[0]); b = self.val(st, ins.args[1])
            d = self.decide(ins.x, a, b)
            st.env[ins.dst] = BOOL if d is None else C(1 if d else 0)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr',
                    'ptrtoint', 'freeze'):
            v = self.val(st, ins.args[0])
            if op == 'zext':
                w = ins.x.w
                if v[0] == 'i':
                    if v[1] < 0:
                        if is_c(v):
                            v = C(v[1] & ((1 << w) - 1))
                        else:
                            v = R(0, (1 << w) - 1, nonzero(v) is True)
                    elif v == TOP or v[2] > (1 << w) - 1:
                        v = R(0, (1 << w) - 1, nonzero(v) is True)
            elif op == 'sext':
                w = ins.x.w
                if w == 1:
                    v = {True: C(-1), False: ZERO}.get(nonzero(v),
                                                       R(-1, 0))
                elif v[0] == 'i':
                    v = R(max(v[1], -(1 << (w - 1))),
                          min(v[2], (1 << (w - 1)) - 1), v[3]) \
                        if v[1] <= (1 << (w - 1)) - 1 else TOP
            elif op == 'trunc':
                w = ins.ty.w
                if v[0] == 'i':
                    if is_c(v):
                        x = v[1] & ((1 << w) - 1)
                        if w > 1 and x >> (w - 1):
                            x -= 1 << w
                        v = C(x)
                    elif not (v[1] >= -(1 << (w - 1)) and
                              v[2] <= (1 << (w - 1)) - 1):
                        if w == 1:
                            v = BOOL if v != NZ else BOOL
                        else:
                            v = R(-(1 << (w - 1)), (1 << w) - 1)
                else:
                    v = TOP
            elif op == 'inttoptr':
                if v[0] == 'i' and v != ZERO:
                    v = PTR(ANY, (), 'nn' if nonzero(v) else 'maybe') \
                        if not is_c(v) else v
            elif op == 'ptrtoint':
                if v[0] == 'p':
                    v = NZ if v[3] == 'nn' else TOP
            st.env[ins.dst] = v
        elif op == 'select':
            c = nonzero(self.val(st, ins.args[0]))
            a = self.val(st, ins.args[1]); b = self.val(st, ins.args[2])
            st.env[ins.dst] = a if c is True else b if c is False else \
                vjoin(a, b)
        elif op in ('fcmp',):
            st.env[ins.dst] = BOOL
        else:
            if len(ins.args) == 2:
                a = self.val(st, ins.args[0]); b = self.val(st, ins.args[1])
                r = arith(op, a, b, ins.ty)
                if op == 'and' and ins.args[1][0] == 'i' and \
                        ins.args[0][0] == 'r' and not is_c(r):
                    for k, x in st.mem.items():
                        if x == ('reg', ins.args[0][1]):
                            y = st.mem.get((k[0], k[1] +
                                            ('&%d' % ins.args[1][1],)))
                            if y is not None and y[0] == 'i':
                                r = y
                st.env[ins.dst] = r
            else:
                st.env[ins.dst] = TOP

    # ---- entry
    def api(self, fname, argf):
        """analyse one entry point; argf(T, name, i, di) -> value"""
        f = self.m.funcs[fname]
        args = []
        for i, (ty, nm) in enumerate(f.params):
            args.append(argf(fname, i, ty))
        mon = self.mon.init(fname)
        self.stack = [(fname, None)]
        return args, self.run(fname, args, {}, mon)


def regs_of(i):
    out = []

    def walk(o):
        if isinstance(o, tuple):
            if len(o) == 2 and o[0] == 'r':
                out.append(o[1])
            else:
                for x in o:
                    walk(x)
        elif isinstance(o, list):
            for x in o:
                walk(x)
    walk(tuple(i.args))
    if i.op in ('getelementptr', 'phi'):
        walk(i.x)
    return out


def widen(y, j):
    B = (0, 1, 255, 65535, 0x7fffffff, 0xffffffff)
    lo, hi = j[1], j[2]
    if lo < y[1]:
        lo = 0 if lo >= 0 else -1 if lo >= -1 else -INF
    if hi > y[2]:
        hi = INF
    return R(lo, hi, j[3] if (lo, hi) == (j[1], j[2]) else
             (X0 if not has(j, 0) and not has(y, 0) else NOX))


def arith(op, a, b, ty):
    if a[0] == 'p' or b[0] == 'p' or ty.k != 'int':
        return TOP
    if a[0] != 'i' or b[0] != 'i':
        return TOP
    w = ty.w
    lim = 1 << w

    def fit(lo, hi, nz=False):
        if lo < -(lim >> 1) or hi >= lim:
            return TOP
        return R(lo, hi, nz)
    if is_c(a) and is_c(b):
        x, y = a[1], b[1]
        ux, uy = x % lim, y % lim
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y,
                 'mul': lambda: x * y, 'and': lambda: ux & uy,
                 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                 'shl': lambda: ux << uy, 'lshr': lambda: ux >> uy,
                 'ashr': lambda: x >> uy, 'udiv': lambda: ux // uy,
                 'urem': lambda: ux % uy,
                 'sdiv': lambda: int(x / y),
                 'srem': lambda: x - y * int(x / y)}[op]() % lim
        except (KeyError, ZeroDivisionError):
            return TOP
        if w > 1 and r >> (w - 1) and not (x >= 0 and y >= 0):
            r -= lim
        if w == 32 and r >> 31:
            r -= lim
        return C(r)
    if op == 'add' and abs(a[1]) < INF and abs(b[1]) < INF:
        if a[2] < INF and b[2] < INF:
            return fit(a[1] + b[1], a[2] + b[2])
        return TOP
    if op == 'sub' and a[2] < INF and b[2] < INF and a[1] > -INF and \
            b[1] > -INF:
        return fit(a[1] - b[2], a[2] - b[1])
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if is_c(y) and y[1] >= 0:
                hi = y[1]
                if x[1] >= 0 and x[2] < hi:
                    hi = x[2]
                return R(0, hi)
        if a[1] >= 0 or b[1] >= 0:
            return R(0, max(a[2], b[2]))
        return TOP
    if op == 'or':
        nz = bool(nonzero(a) or nonzero(b))
        if a[1] >= 0 and b[1] >= 0 and a[2] < INF and b[2] < INF:
            n = max(a[2].bit_length(), b[2].bit_length())
            return R(max(a[1], b[1]), (1 << n) - 1, nz)
        return R(-INF, INF, nz)
    if op in ('udiv', 'lshr', 'urem') and a[1] >= 0:
        if op == 'urem' and is_c(b) and b[1] > 0:
            return R(0, min(a[2], b[1] - 1))
        return R(0, a[2])
    if op == 'mul' and a[1] >= 0 and b[1] >= 0 and a[2] < INF and \
            b[2] < INF:
        return fit(a[1] * b[1], a[2] * b[2])
    if op == 'xor' and w == 1:
        return BOOL
    return TOP


def vspec(s):
    return {'fd': R(0, (1 << 31) - 1), '-1': C(-1), '0': ZERO, 'top': TOP,
            'pos': R(1, (1 << 62)), 'nneg': R(0, (1 << 62)), 'nz': NZ,
            'null': ZERO, '1': ONE, 'any': PTR(ANY, (), 'nn'),
            'bool': BOOL, 'neg': R(-INF, -1), 'err': R(1, 4095)}[s]


ERRNO = (('G', '@errno'), ())


def unknown(T, st, args, ins):
    """an external function nothing is known about"""
    st.mem.pop(ERRNO, None)
    for a in args:
        if a is not None and a[0] == 'p':
            for r, q in places(a):
                for k in list(st.mem):
                    if k[0] == r and k[1][:len(q)] == q and \
                            k[1][-1:] not in (('#',), ('@',), ('@o',), ('#u',)):
                        del st.mem[k]
    fn = T.m.funcs.get(ins.x[1:].strip('"')) if ins.x[0] == '@' else None
    isptr = ins.ty is not None and getattr(ins.ty, 'k', '') == 'ptr'
    return [(PTR(ANY) if isptr else TOP, 'ok', st)]


def table(T, st, outs, name, args, ins):
    res = []
    for k, (spec, tag) in enumerate(outs):
        s = st if k == len(outs) - 1 else st.copy()
        v = vspec(spec)
        if tag.startswith('fail'):
            e = tag.split(':')[1] if ':' in tag else ''
            s.mem.pop(ERRNO, None)
            if e == 'EINTR':
                s.mem[ERRNO] = C(4)
            elif e == 'EEXIST':
                s.mem[ERRNO] = C(17)
            elif e == 'ENOENT':
                s.mem[ERRNO] = C(2)
            elif e == 'EINVAL':
                s.mem[ERRNO] = C(22)
            else:
                s.mem[ERRNO] = R(18, 4095, frozenset([22]))
        res.append((v, tag, s))
    return res

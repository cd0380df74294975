"""Abstract interpreter over the linked IR of the library.

Starting from every public entry point it interprets the program over sets of
abstract states (numeric constraints + a typed, lazily materialised heap + the
typestate of a property monitor).  Calls to defined functions are followed
(recursive calls through tabulated summaries), calls to system primitives go
through the models in libc.py.  Loops are solved by fixpoint iteration with
inferred linear invariants.  Nothing is executed.
"""
import sys
from .dom import *
from . import ir as IR

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
FLOAT = Undef()


class Ptr:
    """oid 0: not an object (null when off == 0)."""
    __slots__ = ('oid', 'off', 'hint')

    def __init__(self, oid, off=ZERO, hint=None):
        self.oid = oid; self.off = off; self.hint = hint

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.oid == o.oid and self.off == o.off

    def __hash__(self):
        return hash((self.oid, self.off))

    def __repr__(self):
        if self.oid == 0:
            return 'null' if self.off == ZERO else 'int(%r)' % self.off
        return '&%s%s' % (ONAMES[self.oid],
                          '' if self.off == ZERO else '+%r' % self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


NULL = Ptr(0)
ONAMES = ['null']
OIDS = {}
MADE = {}            # object -> (owner, offset, version) it is named by
_ver = [0]


def new_ver():
    _ver[0] += 1
    return _ver[0]


def oid_for(key, name):
    i = OIDS.get(key)
    if i is None:
        i = len(ONAMES)
        ONAMES.append(name)
        OIDS[key] = i
    return i


class Obj:
    """An abstract memory object.

    cells: offset -> (size, value, hint) for strongly known contents.
    ovl:   overlays, newest first: (lo, hi, kind, data) where hi may be None;
           kind in 'uninit' 'zero' 'lazy' 'havoc' 'copy'.
    """
    __slots__ = ('oid', 'kind', 'size', 'dty', 'cells', 'ovl', 'status',
                 'nul', 'prov', 'g', 'tok', '_sig', 'wver', 'site')

    def __init__(self, oid, kind, size=None, dty=None, ovl=(), nul='nn',
                 prov=None, site=None):
        self.oid = oid; self.kind = kind; self.size = size; self.dty = dty
        self.cells = {}; self.ovl = ovl; self.status = 'live'
        self.nul = nul; self.prov = prov; self.g = {}
        self.tok = None; self._sig = None; self.wver = 0
        self.site = site

    def copy(self):
        o = Obj(self.oid, self.kind, self.size, self.dty, self.ovl, self.nul,
                self.prov, self.site)
        o.cells = dict(self.cells); o.status = self.status
        o.g = dict(self.g); o.wver = self.wver
        return o


class State:
    __slots__ = ('num', 'objs', 'tok', 'mon', 'trace', 'env')

    def __init__(self):
        self.num = Num()
        self.objs = {}
        self.tok = object()
        self.mon = None
        self.trace = None
        self.env = None

    def copy(self):
        s = State()
        s.num = self.num.copy()
        s.objs = dict(self.objs)
        self.tok = object()
        s.mon = self.mon
        s.trace = self.trace
        return s

    def rd(self, oid):
        return self.objs.get(oid)

    def wr(self, oid):
        o = self.objs[oid]
        if o.tok is not self.tok:
            o = o.copy()
            o.tok = self.tok
            self.objs[oid] = o
        o._sig = None
        return o

    def note(self, text):
        self.trace = (text, self.trace)


class Path(Exception):
    """the current path ends here"""


WIDTHS = {}


def smin(n): return -(1 << (n - 1))
def smax(n): return (1 << (n - 1)) - 1
def umax(n): return (1 << n) - 1


class FnInfo:
    """CFG facts of one function: liveness, loop nesting (WTO)."""

    def __init__(self, fn):
        self.fn = fn
        self.entry = fn.order[0] if isinstance(fn.order[0], str) \
            else fn.order[0].name
        B = fn.blocks
        # reachable blocks, RPO
        seen = set(); post = []
        st = [(self.entry, iter(B[self.entry].succs))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(B[s].succs)))
                    break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.wto = self._wto(self.entry)
        self._live()

    def _wto(self, entry):
        B = self.fn.blocks
        dfn = {}; num = [0]; stack = []

        def visit(v, part):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = dfn[v]
            loop = False
            for w in B[v].succs:
                m = dfn.get(w, 0)
                if m == 0:
                    m = visit(w, part)
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = 1 << 60
                el = stack.pop()
                if loop:
                    while el != v:
                        dfn[el] = 0
                        el = stack.pop()
                    sub = []
                    for w in B[v].succs:
                        if dfn.get(w, 0) == 0:
                            visit(w, sub)
                    part.insert(0, (v, sub))
                else:
                    part.insert(0, v)
            return head
        part = []
        visit(entry, part)
        return part

    def _live(self):
        B = self.fn.blocks
        use = {}; dfs = {}; phiuse = {}
        for b in self.rpo:
            u = set(); d = set()
            blk = B[b]
            for p in blk.phis:
                d.add(p.dst)
                for v, pr in p.x:
                    if v[0] == 'r':
                        phiuse.setdefault(pr, set()).add(v[1])
            for i in blk.insts + [blk.term]:
                for o in regs(i):
                    if o not in d:
                        u.add(o)
                if i.dst:
                    d.add(i.dst)
            use[b] = u; dfs[b] = d
        self.live_in = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b, ()))
                for s in B[b].succs:
                    if s in self.live_in:
                        out |= self.live_in[s]
                n = use[b] | (out - dfs[b])
                # phi destinations are defined on entry, keep them live
                if n != self.live_in[b]:
                    self.live_in[b] = n
                    ch = True
        # live after the phis (what a state at block entry must carry)
        self.live_at = {}
        for b in self.rpo:
            out = set(phiuse.get(b, ()))
            for s in B[b].succs:
                if s in self.live_in:
                    out |= self.live_in[s]
            d = set(); u = set()
            for i in B[b].insts + [B[b].term]:
                for o in regs(i):
                    if o not in d:
                        u.add(o)
                if i.dst:
                    d.add(i.dst)
            self.live_at[b] = sorted(u | (out - d))
        # live-in excludes phi dsts; fix: phis define on entry
        # blocks belonging to each loop
        self.loop_blocks = {}

        def coll(el):
            if isinstance(el, tuple):
                h, sub = el
                s = {h}
                for e in sub:
                    s |= coll(e)
                self.loop_blocks[h] = s
                return s
            return {el}
        for e in self.wto:
            coll(e)
        # integer constants compared against, per function
        self.consts = set()
        for b in self.rpo:
            for i in B[b].insts:
                if i.op == 'icmp':
                    for a in i.args:
                        if a[0] == 'i':
                            self.consts.add(a[1])


def regs(i):
    out = []

    def op(o):
        if o[0] == 'r':
            out.append(o[1])
        elif o[0] == 'gep':
            op(o[2])
            for x in o[3]:
                op(x if x[0] != 'ty' else x[1])
    if i.op == 'call':
        for t, o in i.args:
            op(o)
        if i.x.startswith('%'):
            out.append(i.x)
    elif i.op == 'getelementptr':
        op(i.args[0])
        for t, o in i.x:
            op(o)
    elif i.op == 'phi':
        pass
    else:
        for o in i.args:
            op(o)
    return out


class Engine:
    def __init__(self, mod, mon, models, cfg):
        self.m = mod
        self.mon = mon
        self.models = models
        self.cfg = cfg
        self.info = {}
        self.out = []            # emitted items of the current run
        self.stack = []          # call stack: (fn name, ctx)
        self.ctx = ()
        self.ctxid = {}
        self.curfn = None
        self.curins = None
        self.stats = {'insts': 0, 'states': 0, 'loops': 0, 'calls': 0,
                      'merges': 0, 'fns': set(), 'blocks': set(),
                      'sites': set()}
        self.summ = {}           # recursion summaries
        self._gep = {}
        self.lochint = {}
        self._rec = None
        self._pure = {}
        self._rs = {}
        self.rec = {}
        self.rec_active = []
        self._locs = {}
        self._mem = {}
        self.bounds_on = getattr(mon, 'bounds', False)
        self.maxstates = getattr(mon, 'maxstates', 120)

    # ------------------------------------------------------------ reports
    def loc(self, ins=None):
        ins = ins or self.curins
        if ins is None:
            return '?'
        r = self._locs.get(ins)
        if r is None:
            r = self.m.locstr(ins.loc) if ins.loc else '?'
            self._locs[ins] = r
        return r

    def name(self, o):
        oid = o if isinstance(o, int) else o.oid
        return ONAMES[oid]

    def where(self):
        """file:line of the current instruction, then its callers."""
        s = [self.loc()]
        for name, ins in reversed(self.stack):
            if ins is not None:
                s.append(self.loc(ins))
        return s

    def report(self, st, rule, msg, ins=None):
        tr = []
        t = st.trace
        while t and len(tr) < 60:
            tr.append(t[0]); t = t[1]
        self.out.append(('viol', rule, self.loc(ins),
                         self.stack[-1][0] if self.stack else '?', msg,
                         tuple(self.where()), tuple(reversed(tr))))

    def emit(self, item):
        self.out.append(item)

    # ------------------------------------------------------------ symbols
    def fresh(self, name, lo, hi, d=None):
        return sym_lin(new_sym(name, lo, hi, d))

    def to_u(self, st, v, n):
        if v.const:
            return Lin(v.c & umax(n))
        lo, hi = st.num.bounds(v)
        m = umax(n)
        if lo is not None and lo >= 0:
            if hi is not None and hi <= m:
                return v
        if (lo is not None and lo >= 0) or st.num.entails(v):
            if (hi is not None and hi <= m) or \
                    st.num.entails(v.neg().addc(m)):
                return v
        if hi is not None and hi < 0 and lo is not None and lo >= -m - 1:
            return v.addc(m + 1)
        s = term(('wrapu', n, v), 0, m)
        return sym_lin(s)

    def to_s(self, st, v, n):
        if v.const:
            c = v.c & umax(n)
            return Lin(c - (1 << n) if c > smax(n) else c)
        lo, hi = st.num.bounds(v)
        a, b = smin(n), smax(n)
        if lo is not None and hi is not None and lo >= a and hi <= b:
            return v
        okl = (lo is not None and lo >= a) or st.num.entails(v.addc(-a))
        okh = (hi is not None and hi <= b) or st.num.entails(v.neg().addc(b))
        if okl and okh:
            return v
        s = term(('wraps', n, v), a, b)
        return sym_lin(s)

    def udivc(self, st, v, k):
        """floor(v / k) for v >= 0 given as exact integer"""
        if v.const:
            return Lin(v.c // k)
        if k == 1:
            return v
        if all(x % k == 0 for _, x in v.t) :
            return Lin(v.c // k, tuple((s, x // k) for s, x in v.t))
        lo, hi = st.num.bounds(v)
        key = ('div', k, v)
        s = TERMS.get(key)
        if s is None:
            s = term(key, None, None)
            t = sym_lin(s)
            s.facts = (v.sub(t.mul(k)),                 # v - k t >= 0
                       t.mul(k).addc(k - 1).sub(v))     # kt + k-1 - v >= 0
            s.lo = 0
        t = sym_lin(s)
        if lo is not None or hi is not None:
            a, b = st.num.sb(s.id)
            na = lo // k if lo is not None else a
            nb = hi // k if hi is not None else b
            if a is not None and (na is None or a > na): na = a
            if b is not None and (nb is None or b < nb): nb = b
            if (na, nb) != (a, b):
                st.num.iv[s.id] = (na, nb)
                st.num._dirty()
        return t

    def bits_and(self, st, a, b, n):
        if a.const:
            a, b = b, a
        if a.const and b.const:
            return Lin((a.c & b.c) & umax(n))
        if b.const:
            m = b.c & umax(n)
            if m == 0:
                return ZERO
            if m == umax(n):
                return a
            au = self.to_u(st, a, n)
            # low mask
            if m & (m + 1) == 0:
                lo, hi = st.num.bounds(au)
                if hi is not None and hi <= m:
                    return au
                q = self.udivc(st, au, m + 1)
                if q.const or self.cfg.get('divmask', True):
                    return au.sub(q.mul(m + 1))
            d = self.defn(au)
            if d and d[0] == 'or' and isinstance(d[2], int):
                # (x | c) & m
                return self.bits_or_c(st, self.bits_and(
                    st, d[1], Lin(m), n), d[2] & m, n)
            if d and d[0] == 'and' and isinstance(d[2], int):
                return self.bits_and(st, d[1], Lin(d[2] & m), n)
            lo, hi = st.num.bounds(au)
            if hi is not None and lo is not None and lo >= 0:
                hb = hi.bit_length()
                m &= (1 << hb) - 1
                if m == 0:
                    return ZERO
                if m == (1 << hb) - 1:
                    return au
            # single-bit or sparse mask
            s = term(('and', au, m), 0, m)
            return sym_lin(s)
        k = tuple(sorted((a, b), key=hash))
        au = self.to_u(st, a, n); bu = self.to_u(st, b, n)
        ha = st.num.bounds(au)[1]; hb = st.num.bounds(bu)[1]
        return sym_lin(term(('and2', n) + k, 0, min(ha, hb)))

    def defn(self, v):
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            return SYMS[v.t[0][0]].d
        return None

    def bits_or_c(self, st, a, c, n):
        if c == 0:
            return a
        if a.const:
            return Lin((a.c | c) & umax(n))
        d = self.defn(a)
        if d and d[0] == 'or' and isinstance(d[2], int):
            return self.bits_or_c(st, d[1], d[2] | c, n)
        if d and d[0] == 'and' and (d[2] & c) == 0:
            # disjoint bits
            return a.addc(c)
        lo, hi = st.num.bounds(a)
        if lo is not None and lo >= 0 and hi is not None:
            # disjoint when a < lowest bit of c
            low = c & -c
            if hi < low:
                return a.addc(c)
            h = (1 << max(hi.bit_length(), c.bit_length())) - 1
        else:
            h = umax(n)
        return sym_lin(term(('or', a, c), c, h))

    def bits_or(self, st, a, b, n):
        if a.const:
            a, b = b, a
        if b.const:
            au = self.to_u(st, a, n)
            return self.bits_or_c(st, au, b.c & umax(n), n)
        au = self.to_u(st, a, n); bu = self.to_u(st, b, n)
        # disjoint: one is a multiple of 2^k, the other < 2^k
        for x, y in ((au, bu), (bu, au)):
            g = x.c
            for _, k in x.t:
                g = _gcd(g, k)
            low = g & -g if g else 0
            hi = st.num.bounds(y)[1]
            if low and hi is not None and hi < low:
                return x.add(y)
        ha = st.num.bounds(au)[1] or 0; hb = st.num.bounds(bu)[1] or 0
        h = (1 << max(ha.bit_length(), hb.bit_length())) - 1
        k = tuple(sorted((au, bu), key=hash))
        return sym_lin(term(('or2', n) + k, 0, h))

    def binop(self, st, ins, op, a, b, n):
        if a is UNDEF or b is UNDEF:
            return self.fresh('undef', smin(n), umax(n))
        if isinstance(a, Cond) or isinstance(b, Cond):
            return self.boolop(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # ptrtoint arithmetic: pointer differences
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' \
                    and a.oid == b.oid:
                return a.off.sub(b.off)
            return self.fresh('ptrarith', smin(n), umax(n))
        if op == 'add':
            return a.add(b)
        if op == 'sub':
            return a.sub(b)
        if op == 'mul':
            if b.const:
                return self.small(a.mul(b.c), n)
            if a.const:
                return self.small(b.mul(a.c), n)
            la, ha = st.num.bounds(a); lb, hb = st.num.bounds(b)
            lo, hi = smin(n), umax(n)
            if None not in (la, ha, lb, hb):
                ps = [la * lb, la * hb, ha * lb, ha * hb]
                if min(ps) >= smin(n) and max(ps) <= umax(n):
                    lo, hi = min(ps), max(ps)
            k = tuple(sorted((a, b), key=hash))
            return sym_lin(term(('mul', n) + k, lo, hi))
        if op == 'shl':
            if b.const and 0 <= b.c < n:
                r = a.mul(1 << b.c)
                lo, hi = st.num.bounds(r)
                if lo is not None and hi is not None and lo >= 0 \
                        and hi <= umax(n):
                    return r
                if a.const:
                    return Lin((a.c << b.c) & umax(n))
                return self.to_u(st, r, n)
            return sym_lin(term(('shl', n, a, b), 0, umax(n)))
        if op == 'lshr':
            au = self.to_u(st, a, n)
            if b.const and 0 <= b.c < n:
                return self.udivc(st, au, 1 << b.c)
            return sym_lin(term(('lshr', n, au, b), 0,
                                st.num.bounds(au)[1]))
        if op == 'ashr':
            lo, hi = st.num.bounds(a)
            if b.const and lo is not None and lo >= 0 and hi is not None \
                    and hi <= smax(n):
                return self.udivc(st, a, 1 << b.c)
            if lo is not None and lo >= 0 and hi is not None and \
                    hi <= smax(n):
                return sym_lin(term(('ashr', n, a, b), 0, hi))
            return sym_lin(term(('ashr', n, a, b), smin(n), smax(n)))
        if op in ('udiv', 'urem'):
            au = self.to_u(st, a, n); bu = self.to_u(st, b, n)
            if bu.const and bu.c > 0:
                q = self.udivc(st, au, bu.c)
                if op == 'udiv':
                    return q
                return au.sub(q.mul(bu.c))
            if op == 'udiv':
                return sym_lin(term(('udiv', n, au, bu), 0,
                                    st.num.bounds(au)[1]))
            s = term(('urem', n, au, bu), 0, umax(n))
            r = sym_lin(s)
            if not s.facts:
                s.facts = (au.sub(r),)
            st2 = st.num
            try:
                st2.assume_ge(bu.sub(r).addc(-1))
            except Infeasible:
                pass
            return r
        if op in ('sdiv', 'srem'):
            la, ha = st.num.bounds(a)
            if b.const and b.c > 0 and la is not None and la >= 0:
                q = self.udivc(st, a, b.c)
                return q if op == 'sdiv' else a.sub(q.mul(b.c))
            if b.const and b.c > 0:
                if op == 'srem':
                    s = term(('srem', n, a, b), -(b.c - 1), b.c - 1)
                else:
                    s = term(('sdiv', n, a, b), smin(n), smax(n))
                return sym_lin(s)
            return sym_lin(term((op, n, a, b), smin(n), smax(n)))
        if op == 'and':
            return self.bits_and(st, a, b, n)
        if op == 'or':
            return self.bits_or(st, a, b, n)
        if op == 'xor':
            if a.const and b.const:
                return Lin((a.c ^ b.c) & umax(n))
            if a.const:
                a, b = b, a
            if b.const and b.c == 0:
                return a
            if b.const and (b.c & umax(n)) == umax(n):
                return a.neg().addc(-1)
            lo, hi = st.num.bounds(a)
            if b.const and b.c == 1 and (
                    lo is not None and lo >= 0 and
                    hi is not None and hi <= 1 or
                    st.num.entails(a) and st.num.entails(ONE.sub(a))):
                return ONE.sub(a)
            if a == b:
                return ZERO
            k = tuple(sorted((a, b), key=hash))
            h = umax(n)
            lb, hb = st.num.bounds(b)
            if lo is not None and lo >= 0 and hi is not None and \
                    lb is not None and lb >= 0 and hb is not None:
                h = (1 << max(hi.bit_length(), hb.bit_length())) - 1
            return sym_lin(term(('xor', n) + k, 0, h))
        raise AnalysisBroken('operator ' + op)

    def small(self, v, n):
        """keep huge wrapped multiplications from exploding"""
        m = 1 << n
        if any(abs(k) >= m for _, k in v.t) or abs(v.c) >= m:
            return Lin(v.c % m, tuple((s, k % m) for s, k in v.t if k % m))
        return v

    def boolop(self, op, a, b):
        def c(x):
            if isinstance(x, Cond):
                return x
            if isinstance(x, Lin) and x.const:
                return CTRUE if x.c & 1 else CFALSE
            return Cond('unk', new_ver())
        a = c(a); b = c(b)
        if op == 'xor':
            if b is CTRUE or b == CTRUE:
                return cnot(a)
            if a == CTRUE:
                return cnot(b)
            if b == CFALSE:
                return a
        if op == 'and':
            if a == CFALSE or b == CFALSE: return CFALSE
            if a == CTRUE: return b
            if b == CTRUE: return a
            return Cond('and', a, b)
        if op == 'or':
            if a == CTRUE or b == CTRUE: return CTRUE
            if a == CFALSE: return b
            if b == CFALSE: return a
            return Cond('or', a, b)
        return Cond('unk', new_ver())

    def b2i(self, st, c):
        """bool condition as 0/1 integer"""
        d = st.num.decide(c)
        if d is not None:
            return ONE if d else ZERO
        s = term(('bool', c), 0, 1)
        return sym_lin(s)

    # ------------------------------------------------------------ conditions
    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return Cond('unk', new_ver())
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            x = a if isinstance(a, Cond) else b
            y = b if isinstance(a, Cond) else a
            if isinstance(y, Lin) and y.const:
                t = (y.c & 1) == 1
                if pred == 'ne':
                    t = not t
                return x if t else cnot(x)
            return Cond('unk', new_ver())
        n = ty.w
        if pred in ('eq', 'ne'):
            d = a.sub(b)
            lo, hi = st.num.bounds(d)
            if not (lo is not None and hi is not None and
                    lo > -(1 << n) and hi < (1 << n)):
                d = self.to_u(st, a, n).sub(self.to_u(st, b, n))
            # bool-valued symbol
            if d.c in (0, 1, -1) and len(d.t) == 1:
                s, k = d.t[0]
                df = SYMS[s].d
                if df and df[0] == 'bool' and abs(k) == 1:
                    v = -d.c * k
                    if v == 1:
                        c = df[1]
                    elif v == 0:
                        c = cnot(df[1])
                    else:
                        c = CFALSE
                    return c if pred == 'eq' else cnot(c)
            c = Cond(pred, d)
        else:
            if pred[0] == 'u':
                a = self.to_u(st, a, n); b = self.to_u(st, b, n)
            else:
                a = self.to_s(st, a, n); b = self.to_s(st, b, n)
            p = pred[1:]
            if p == 'lt': f = b.sub(a).addc(-1)
            elif p == 'le': f = b.sub(a)
            elif p == 'gt': f = a.sub(b).addc(-1)
            else: f = a.sub(b)
            c = Cond('ge', f)
        d = st.num.decide(c)
        if d is not None:
            return CTRUE if d else CFALSE
        return c

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            r = a == b
            return CTRUE if (r == (pred == 'eq')) else CFALSE
        if isinstance(a, Lin) and isinstance(b, Ptr):
            a = Ptr(0, a)
        if isinstance(b, Lin) and isinstance(a, Ptr):
            b = Ptr(0, b)
        if isinstance(a, Lin) or isinstance(b, Lin) or pred not in (
                'eq', 'ne'):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and \
                    a.oid == b.oid:
                d = {'ult': b.off.sub(a.off).addc(-1),
                     'ule': b.off.sub(a.off),
                     'ugt': a.off.sub(b.off).addc(-1),
                     'uge': a.off.sub(b.off)}.get(pred)
                if d is not None:
                    c = Cond('ge', d)
                    r = st.num.decide(c)
                    return c if r is None else (CTRUE if r else CFALSE)
            return Cond('unk', new_ver())
        c = self.peq(st, a, b)
        return c if pred == 'eq' else cnot(c)

    def peq(self, st, a, b):
        if a.oid == b.oid:
            c = Cond('eq', a.off.sub(b.off))
            r = st.num.decide(c)
            return c if r is None else (CTRUE if r else CFALSE)
        if a.oid == 0 or b.oid == 0:
            if a.oid == 0:
                a, b = b, a
            o = st.objs.get(a.oid)
            if o is None:
                return CFALSE
            if o.nul == 'nn':
                return CFALSE
            if b.off != ZERO:
                return CFALSE
            if o.nul == 'null':
                return CTRUE
            return Cond('nul', a.oid)
        oa = st.objs.get(a.oid); ob = st.objs.get(b.oid)
        # a fresh or local object is different from everything else
        for o in (oa, ob):
            if o is None or o.kind in FRESH:
                return CFALSE
        if oa.kind == 'global' and ob.kind == 'global':
            return CFALSE
        k = (min(a.oid, b.oid), max(a.oid, b.oid))
        return Cond('unk', ('alias',) + k)

    def assume(self, st, c, truth):
        """list of states in which c is `truth` (st is consumed)"""
        if not truth:
            c = cnot(c)
        k = c.k
        if k == 'const':
            return [st] if c.a else []
        try:
            if k == 'ge':
                st.num.assume_ge(c.a)
                return [st]
            if k == 'eq':
                st.num.assume_eq(c.a)
                self.bool_prop(st, c.a)
                return [st]
            if k == 'ne':
                st.num.assume_ne(c.a)
                self.bool_prop(st, c.a)
                return [st]
        except Infeasible:
            return []
        if k in ('nul', 'nnul'):
            o = st.objs.get(c.a)
            if o is None:
                return [st] if k == 'nnul' else []
            want = 'null' if k == 'nul' else 'nn'
            if o.nul == want:
                return [st]
            if o.nul != 'maybe':
                return []
            st.wr(c.a).nul = want
            return [st]
        if k in ('unk', 'unkn'):
            # remember the choice
            f = Lin(0, ((self.unk_sym(c.a).id, 1),))
            try:
                if k == 'unk':
                    st.num.assume_ge(f.addc(-1))
                else:
                    st.num.assume_ge(f.neg())
            except Infeasible:
                return []
            return [st]
        if k == 'and':
            r = []
            for s in self.assume(st, c.a, True):
                r += self.assume(s, c.b, True)
            return r
        if k == 'or':
            s2 = st.copy()
            r = self.assume(st, c.a, True)
            for s in self.assume(s2, c.a, False):
                r += self.assume(s, c.b, True)
            return r
        raise AssertionError(k)

    def unk_sym(self, key):
        return term(('unk', key), 0, 1)

    def bool_prop(self, st, l):
        """after refining a 0/1 symbol which stands for a condition"""
        for s, _ in l.t:
            d = SYMS[s].d
            if d and d[0] == 'bool':
                lo, hi = st.num.sb(s)
                if lo == hi:
                    rs = self.assume(st, d[1], lo == 1)
                    if not rs:
                        raise Infeasible()
                    # conditions that split are left as they are

    def fork(self, st, c):
        """(true states, false states)"""
        if c is UNDEF:
            c = Cond('unk', new_ver())
        if isinstance(c, Lin):
            c = CTRUE if c.c & 1 else CFALSE
        r = st.num.decide(c) if c.k in ('const', 'ge', 'eq', 'ne') else None
        if r is True:
            return [st], []
        if r is False:
            return [], [st]
        s2 = st.copy()
        return self.assume(st, c, True), self.assume(s2, c, False)

    # ------------------------------------------------------------ types
    def hint_field(self, sname, idx):
        """hint for field idx of LLVM struct name"""
        key = (sname, idx)
        h = self._mem.get(key)
        if h is None:
            base = sname.split('.', 1)[1] if '.' in sname else sname
            base = base.split('.')[0] if base.split('.')[-1].isdigit() \
                else base
            di = self.m.struct_di(base)
            h = ()
            if di is not None:
                ms = self.m.members(di)
                if idx < len(ms):
                    off, sz, nm, mn = ms[idx]
                    h = (self.m.strip(mn), (base, nm))
            self._mem[key] = h
        return h or None

    def elem_hint(self, h):
        if h is None:
            return None
        di, key = h
        if di is not None and di.get('tag') == 'DW_TAG_array_type':
            if key is not None and not key[1].endswith('[]'):
                key = (key[0], key[1] + '[]')
            return (self.m.strip(self.m.node(di.get('baseType'))), key)
        return h

    def type_at(self, di, off, struct=None):
        """(DI scalar type, (struct, field)) at constant offset in type di"""
        key = None
        for _ in range(12):
            if di is None:
                return None
            tag = di.get('tag')
            if tag == 'DW_TAG_array_type':
                base = self.m.strip(self.m.node(di.get('baseType')))
                sz = self.di_size(base)
                off = off % sz if sz else 0
                di = base
                continue
            if tag == 'DW_TAG_structure_type':
                sz = self.di_size(di)
                if sz and off >= sz:
                    off %= sz
                nm = di.get('name')
                for o, s, n, mn in self.m.members(di):
                    if o <= off < o + max(s, 1):
                        key = (nm, n)
                        di = self.m.strip(mn)
                        off -= o
                        break
                else:
                    return None
                continue
            if tag == 'DW_TAG_union_type':
                return None
            return (di, key)
        return None

    def di_size(self, di):
        if di is None:
            return 0
        if di.get('tag') == 'DW_TAG_array_type' or 'size' in di:
            try:
                return int(di.get('size', 0)) // 8
            except ValueError:
                return 0
        return 0

    def ptr_type(self, st, p):
        if p.hint:
            return p.hint
        o = st.objs.get(p.oid)
        if o is None or o.dty is None:
            return None
        if p.off.const:
            return self.type_at(o.dty, p.off.c)
        d = o.dty
        if d.get('tag') in ('DW_TAG_pointer_type',) or \
                d.get('_k') == 'DIBasicType':
            return (d, None)
        return None

    def int_range(self, n, h):
        """bounds of an n-bit integer loaded with type hint h"""
        if h:
            di, key = h
            if key is not None:
                r = self.cfg['ref'].get(key)
                if r is not None:
                    return r
            if di is not None:
                e = di.get('encoding', '')
                if e in ('DW_ATE_unsigned', 'DW_ATE_unsigned_char',
                         'DW_ATE_boolean'):
                    return (0, umax(n))
                if e in ('DW_ATE_signed', 'DW_ATE_signed_char'):
                    return (smin(n), smax(n))
        if n == 8:
            return (0, 255)
        return (0, umax(n))

    # ------------------------------------------------------------ memory
    def glob(self, st, name):
        """pointer to a global object"""
        f = self.m.funcs.get(name[1:])
        if f is not None:
            return FnPtr(name[1:])
        oid = oid_for(('g', name), name)
        if oid not in st.objs:
            g = self.m.globals.get(name[1:]) or self.m.globals.get(name)
            o = Obj(oid, 'global')
            if g is None:
                raise AnalysisBroken('global ' + name)
            ty = g['ty'] if isinstance(g, dict) else g.ty
            o.size = Lin(ty.size())
            o.prov = name
            const = g['const']
            init = g['init']
            o.ovl = ((0, None, 'lazy', 0),)
            dbg = g.get('dbg')
            if dbg:
                n = self.m.node(dbg)
                if n and n.get('_k') == 'DIGlobalVariableExpression':
                    n = self.m.node(n.get('var'))
                if n:
                    o.dty = self.m.strip(self.m.node(n.get('type')))
            if const or self.cfg.get('globinit', True) and const:
                o.ovl = ((0, None, 'zero', 0),)
                self.init_cells(st, o, 0, ty, init)
            st.objs[oid] = o
        return Ptr(oid)

    def init_cells(self, st, o, off, ty, init):
        if init is None:
            o.ovl = ((0, None, 'lazy', 0),)
            return
        k = init[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, Lin(b), None)
            return
        if k == 'agg':
            offs = None
            if ty.k == 'struct':
                offs = ty.offs()
            for i, (et, ev) in enumerate(init[1]):
                self.init_cells(st, o, off + (offs[i] if offs is not None
                                              else i * et.size()), et, ev)
            return
        if k == 'i':
            o.cells[off] = (ty.size(), Lin(init[1]), None)
        elif k == 'null':
            o.cells[off] = (8, NULL, None)
        elif k in ('g', 'gep'):
            o.cells[off] = (8, self.val(st, {}, init), None)

    def default(self, st, o, off, size, ty, hint):
        """contents of [off, off+size) where no cell is known"""
        c = off.const
        lo, hi = (off.c, off.c) if c else st.num.bounds(off)
        for (a, b, kind, data) in o.ovl:
            # does this overlay definitely cover, or possibly overlap?
            if hi is not None and hi + size <= a:
                continue
            if b is not None and lo is not None and lo >= b:
                continue
            cover = lo is not None and lo >= a and (
                b is None or (hi is not None and hi + size <= b))
            if not cover:
                return self.mk(st, o, off, size, ty, hint,
                               ('mix', o.wver), False)
            if kind == 'zero':
                return NULL if ty.k == 'ptr' else ZERO
            if kind == 'uninit':
                return UNDEF
            if kind == 'copy':
                (soid, sver, delta) = data
                return self.mk(st, o, off.addc(-delta), size, ty, hint,
                               ('src', soid, sver), True, soid)
            return self.mk(st, o, off, size, ty, hint, (kind, data), True)
        return self.mk(st, o, off, size, ty, hint, ('none', o.wver), False)

    def mk(self, st, o, off, size, ty, hint, tag, stable, soid=None):
        if ty.k == 'int':
            n = ty.w
            lo, hi = self.int_range(n, hint)
            if tag[0] == 'lazy' and hint and hint[1] and 'parent' in o.g:
                r = self.cfg['via'].get((o.g['parent'][1], hint[1]))
                if r is not None:
                    lo, hi = r
            if tag[0] == 'lazy':
                key = ('ld', o.oid, tag[1], off, size)
            elif tag[0] == 'src':
                key = ('ld', tag[1], tag[2], off, size)
            else:
                key = ('ld', o.oid, tag, off, size)
            nm = '%s%s' % (ONAMES[soid or o.oid], '.' + hint[1][1]
                           if hint and hint[1] else '[%r]' % off)
            s = TERMS.get(key)
            if s is None:
                s = term(key, lo, hi, nm)
                s.d = ('load',) + key[1:]
            return sym_lin(s)
        if ty.k == 'ptr':
            if tag[0] == 'lazy':
                key = ('p', o.oid, tag[1], off)
            elif tag[0] == 'src':
                key = ('p', tag[1], tag[2], off)
            else:
                key = ('p', o.oid, tag, off)
            fld = hint[1] if hint else None
            dst = None
            if hint and hint[0] is not None:
                dst = self.m.pointee(hint[0])
            name = '%s->%s' % (ONAMES[soid or o.oid], fld[1] if fld else
                               '[%r]' % off)
            oid = oid_for(key, name)
            if tag[0] != 'src':
                MADE[oid] = (o.oid, off, tag)
            if oid not in st.objs:
                p = o
                prov = None
                if soid is not None and soid in st.objs:
                    p = st.objs[soid]
                if p.prov is not None:
                    prov = self.child_prov(p, fld, dst)
                nul = 'maybe' if (fld in self.cfg['nullable']) else 'nn'
                n = Obj(oid, 'lazy', None, dst, ((0, None, 'lazy', 0),), nul,
                        prov)
                n.g['parent'] = (p.oid, fld)
                if nul != 'nn':
                    n.g['nul0'] = nul
                if not off.const or self.is_elem(hint) or \
                        self.in_array(o, off.c):
                    n.g['elem'] = (o.oid, off)
                if dst is not None and dst.get('tag') == \
                        'DW_TAG_structure_type':
                    n.size = Lin(self.di_size(dst))
                sz = self.cfg['bufsize'].get(fld)
                if sz is not None:
                    n.size = sz(self, st, p)
                st.objs[oid] = n
            elif hint and st.objs[oid].dty is None and dst is not None:
                st.wr(oid).dty = dst
            return Ptr(oid)
        return FLOAT

    def child_prov(self, p, fld, dst):
        f = fld[1] if fld else '[]'
        if dst is not None and p.dty is not None and \
                dst.get('name') == p.dty.get('name') and dst.get('name'):
            return p.prov if p.prov.endswith('*') else p.prov + '*'
        r = p.prov + '.' + f
        return r if len(r) < 80 else r[:80]

    def overlapping(self, o, lo, hi):
        return [k for k, v in o.cells.items()
                if k < hi and k + v[0] > lo]

    def load(self, st, p, ty, ins=None):
        o = st.objs.get(p.oid)
        if o is None:
            return self.fresh('noobj', 0, umax(64)) if ty.k == 'int' else NULL
        size = ty.size()
        off = p.off
        hint = None
        if off.const:
            c = o.cells.get(off.c)
            if c is not None and c[0] == size:
                v = c[1]
                if ty.k == 'ptr' and isinstance(v, Lin):
                    v = NULL if v == ZERO else Ptr(0, v)
                if ty.k == 'int' and isinstance(v, Ptr) and v.oid == 0:
                    v = v.off
                if not (ty.k == 'int' and isinstance(v, Ptr)):
                    return v
            ov = self.overlapping(o, off.c, off.c + size)
            hint = self.ptr_type(st, p)
            if not ov:
                return self.default(st, o, off, size, ty, hint)
            if ty.k == 'int':
                r = self.compose(st, o, off.c, size, ov)
                if r is not None:
                    return r
            return self.mk(st, o, off, size, ty, hint, ('ov', o.wver), False)
        lo, hi = st.num.bounds(off)
        hint = self.ptr_type(st, p)
        lo = 0 if lo is None or lo < 0 else lo
        if hi is None:
            ov = [k for k, v in o.cells.items() if k + v[0] > lo]
        else:
            ov = self.overlapping(o, lo, hi + size)
        if ov:
            # constant tables and initialised arrays
            vals = [o.cells[k][1] for k in ov if o.cells[k][0] == size]
            if ty.k == 'int' and len(vals) == len(ov) and \
                    all(isinstance(v, Lin) for v in vals):
                r = self.mk(st, o, off, size, ty, hint, ('arr', o.wver),
                            False)
                if all(v.const for v in vals) and len(vals) <= 256:
                    cs = [v.c for v in vals] + [0]
                    s = SYMS[r.t[0][0]] if r.t else None
                    if s is not None and o.ovl and o.ovl[0][2] == 'zero':
                        s.lo, s.hi = min(cs), max(cs)
                return r
            return self.mk(st, o, off, size, ty, hint, ('arr', o.wver), False)
        return self.default(st, o, off, size, ty, hint)

    def compose(self, st, o, off, size, ov):
        """little-endian composition of smaller cells / part of a larger"""
        if len(ov) == 1:
            k = ov[0]
            sz, v, _ = o.cells[k]
            if k <= off and k + sz >= off + size and isinstance(v, Lin):
                v = self.to_u(st, v, sz * 8)
                v = self.udivc(st, v, 1 << (8 * (off - k)))
                if off + size < k + sz:
                    v = self.bits_and(st, v, Lin(umax(size * 8)), 64)
                return v
        r = ZERO
        pos = off
        while pos < off + size:
            c = o.cells.get(pos)
            if c is None:
                v = self.default(st, o, Lin(pos), 1, IR.INT(8), None)
                if not isinstance(v, Lin):
                    return None
                sz = 1
            else:
                sz, v, _ = c
            if pos + sz > off + size or not isinstance(v, Lin):
                return None
            r = r.add(self.to_u(st, v, sz * 8).mul(1 << (8 * (pos - off))))
            pos += sz
        return r

    def havoc_range(self, st, oid, lo, hi, kind='havoc', data=None):
        """forget [lo, hi) of the object (hi None: to the end)"""
        o = st.wr(oid)
        for k in [k for k, v in o.cells.items()
                  if (hi is None or k < hi) and k + v[0] > lo]:
            del o.cells[k]
        o.wver = new_ver()
        ent = (lo, hi, kind, data if data is not None else new_ver())
        ovl = tuple(x for x in o.ovl
                    if not (x[0] >= lo and (hi is None or
                            (x[1] is not None and x[1] <= hi)))
                    or x is o.ovl[-1])
        if hi is None and lo == 0:
            ovl = ()
        o.ovl = (ent,) + ovl
        return o

    def store(self, st, p, v, ty_size, hint=None):
        o = st.wr(p.oid)
        off = p.off
        o.wver = new_ver()
        if off.const:
            a = off.c
            for k in self.overlapping(o, a, a + ty_size):
                sz, val, h = o.cells[k]
                del o.cells[k]
                if k < a or k + sz > a + ty_size:
                    # keep the untouched bytes of integers
                    if isinstance(val, Lin):
                        vu = self.to_u(st, val, sz * 8)
                        for j in range(sz):
                            if not (a <= k + j < a + ty_size):
                                b = self.bits_and(st, self.udivc(
                                    st, vu, 1 << (8 * j)), Lin(255), 64)
                                o.cells[k + j] = (1, b, None)
                    else:
                        self.havoc_range(st, p.oid, k, k + sz)
                        o = st.wr(p.oid)
            if isinstance(v, Ptr) and v.oid and v.off == ZERO and \
                    o.kind in ('lazy', 'global') and \
                    self.own_child(o, a, v.oid):
                return
            o.cells[a] = (ty_size, v, hint)
        else:
            lo, hi = st.num.bounds(off)
            lo = 0 if lo is None or lo < 0 else lo
            self.havoc_range(st, p.oid, lo, None if hi is None
                             else hi + ty_size)

    def own_child(self, o, a, oid):
        """is the object what the field at offset a holds anyway?"""
        for (x, y, kind, data) in o.ovl:
            if a + 8 <= x or (y is not None and a >= y):
                continue
            return kind == 'lazy' and x <= a and (y is None or a + 8 <= y) \
                and OIDS.get(('p', o.oid, data, Lin(a))) == oid
        return False

    def store_elem(self, st, p, v):
        """a pointer stored into an array of pointers is absorbed by it"""
        lo, hi = st.num.bounds(p.off)
        lo = 0 if lo is None or lo < 0 else lo
        self.havoc_range(st, p.oid, lo, None if hi is None else hi + 8)
        if isinstance(v, Ptr) and v.oid and v.oid in st.objs:
            o = st.wr(v.oid)
            if o.kind in FRESH and o.kind != 'stack':
                o.g['in'] = p.oid
                st.wr(p.oid).g['elems'] = 'own'

    def memcpy(self, st, d, s, n):
        """copy n (Lin) bytes"""
        so = st.objs.get(s.oid)
        if d.oid == 0 or d.oid not in st.objs:
            return
        if n.const and d.off.const and s.off.const and so is not None:
            a, b, n = d.off.c, s.off.c, n.c
            if n <= 0:
                return
            cells = {k: v for k, v in so.cells.items()
                     if k >= b and k + v[0] <= b + n}
            # overlay of the source over the range
            new = []
            for (x, y, kind, data) in so.ovl:
                lo = max(x, b); hi = b + n if y is None else min(y, b + n)
                if lo >= hi:
                    continue
                if kind == 'lazy':
                    new.append((lo - b + a, hi - b + a, 'copy',
                                (so.oid, data, a - b)))
                elif kind == 'copy':
                    new.append((lo - b + a, hi - b + a, 'copy',
                                (data[0], data[1], data[2] + a - b)))
                elif kind == 'havoc':
                    new.append((lo - b + a, hi - b + a, 'copy',
                                (so.oid, (kind, data), a - b)))
                else:
                    new.append((lo - b + a, hi - b + a, kind, data))
                if lo == b and hi == b + n:
                    break
            self.havoc_range(st, d.oid, a, a + n)
            o = st.wr(d.oid)
            if new:
                o.ovl = tuple(new) + o.ovl[1:]
            for k, v in cells.items():
                o.cells[k - b + a] = v
            return
        lo, hi = st.num.bounds(d.off)
        nl, nh = st.num.bounds(n)
        lo = 0 if lo is None or lo < 0 else lo
        if nh is not None and nh <= 0:
            return
        self.havoc_range(st, d.oid, lo,
                         None if hi is None or nh is None else hi + nh)

    def memset(self, st, d, v, n):
        if d.oid not in st.objs:
            return
        if n.const and d.off.const and v == ZERO:
            if n.c > 0:
                self.havoc_range(st, d.oid, d.off.c, d.off.c + n.c, 'zero', 0)
            return
        lo, hi = st.num.bounds(d.off)
        nl, nh = st.num.bounds(n)
        lo = 0 if lo is None or lo < 0 else lo
        self.havoc_range(st, d.oid, lo,
                         None if hi is None or nh is None else hi + nh)

    def alloc(self, st, kind, size, site, dty=None):
        k = 0
        base = ('h', self.ctx, site)
        while True:
            oid = oid_for(base + (k,), '%s@%s%s' % (
                kind, self.loc(), '' if k == 0 else '#%d' % k))
            o = st.objs.get(oid)
            if o is None or ((o.status != 'live' or 'in' in o.g) and
                             not self.referenced(st, oid)):
                break
            k += 1
            if k > 40:
                raise AnalysisBroken('unbounded allocation at %s' %
                                     self.loc())
        o = Obj(oid, kind, size, dty, ((0, None, 'uninit', 0),), 'nn',
                None, (self.loc(), self.stack[-1][0] if self.stack else ''))
        o.tok = st.tok
        st.objs[oid] = o
        return Ptr(oid)

    def stale(self, st, oid, null=False):
        """every existing pointer to the block becomes a dead one"""
        did = 0 if null else \
            oid_for(('stale', oid), 'old ' + ONAMES[oid])
        used = False
        for k in list(st.objs):
            o = st.objs[k]
            hit = [a for a, c in o.cells.items()
                   if isinstance(c[1], Ptr) and c[1].oid == oid]
            if hit:
                used = True
                o = st.wr(k)
                for a in hit:
                    sz, v, h = o.cells[a]
                    o.cells[a] = (sz, Ptr(did, v.off, v.hint), h)
        for fr in self.frames:
            for k, v in list(fr.items()):
                if isinstance(v, Ptr) and v.oid == oid:
                    used = True
                    fr[k] = Ptr(did, v.off, v.hint)
        par = st.objs[oid].g.get('parent')
        if not null and (used or par):
            d = Obj(did, 'heap', None, None, ((0, None, 'havoc', 0),))
            d.status = 'freed'
            st.objs[did] = d
        if par and par[0] in st.objs:
            # a lazily known parent holds the old pointer as well
            po = st.objs[par[0]]
            for off in self.field_offs(po, par[1]):
                if off not in po.cells:
                    po = st.wr(par[0])
                    po.cells[off] = (8, Ptr(did), None)

    def field_offs(self, o, fld):
        if fld is None or o.dty is None:
            return []
        sz = self.di_size(o.dty)
        out = []
        for off in range(0, sz, 8):
            t = self.type_at(o.dty, off)
            if t and t[1] == fld and (off == 0 or True):
                out.append(off)
        return out[:1]

    def referenced(self, st, oid):
        for o in st.objs.values():
            for c in o.cells.values():
                if isinstance(c[1], Ptr) and c[1].oid == oid:
                    return True
        for fr in self.frames:
            for v in fr.values():
                if isinstance(v, Ptr) and v.oid == oid:
                    return True
        return False

    # ------------------------------------------------------------ operands
    def val(self, st, env, op, ty=None):
        k = op[0]
        if k == 'r':
            return env.get(op[1], UNDEF)
        if k == 'i':
            if ty is not None and ty.k == 'int' and ty.w == 1:
                return CTRUE if op[1] else CFALSE
            return Lin(op[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.glob(st, op[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return ZERO
        if k == 'gep':
            b = self.val(st, env, op[2])
            return self.gep(st, b, op[1], [(IR.INT(64), x) for x in op[3]],
                            env)
        if k in ('cast', 'ptrtoint', 'inttoptr', 'bitcast'):
            v = self.val(st, env, op[-1] if isinstance(op[-1], tuple)
                         else op[1])
            if isinstance(v, Lin):
                return NULL if v == ZERO else Ptr(0, v)
            return v
        raise AnalysisBroken('operand %r' % (op,))

    def gep(self, st, b, sty, idx, env):
        if not isinstance(b, Ptr):
            return b if b is UNDEF else NULL
        off = b.off
        hint = b.hint
        ty = sty
        first = True
        if sty.k == 'ptr' and len(idx) == 1:
            hint = self.ptr_elem(st, b)
        for it, o in idx:
            v = self.val(st, env, o)
            if first:
                first = False
                if isinstance(v, Lin):
                    w = it.w if it.k == 'int' else 64
                    if not v.const:
                        v = self.to_s(st, v, w)
                    off = off.add(v.mul(ty.size()))
                    if ty.k == 'struct' and len(idx) > 1:
                        hint = None
                else:
                    off = off.add(self.fresh('idx', smin(64), smax(64)))
                continue
            if ty.k == 'struct':
                if not (isinstance(v, Lin) and v.const):
                    raise AnalysisBroken('struct index')
                i = v.c
                off = off.addc(ty.offs()[i])
                hint = self.hint_field(ty.name, i) if ty.name else None
                ty = ty.fields[i]
            else:
                ty = ty.el
                if isinstance(v, Lin):
                    if not v.const:
                        v = self.to_s(st, v, it.w)
                    off = off.add(v.mul(ty.size()))
                else:
                    off = off.add(self.fresh('idx', smin(64), smax(64)))
                hint = self.elem_hint(hint)
        return Ptr(b.oid, off, hint)

    def ptr_elem(self, st, b):
        """hint of an element of an array of pointers"""
        if b.hint and b.hint[1] and b.hint[1][1].endswith('[]'):
            return b.hint
        o = st.objs.get(b.oid)
        di = None
        key = (None, '[]')
        if o is not None:
            if o.dty is not None and o.dty.get('tag') == \
                    'DW_TAG_pointer_type':
                di = o.dty
            par = o.g.get('parent')
            if par and par[1]:
                key = (par[1][0], par[1][1] + '[]')
        return (di, key)

    def in_array(self, o, off):
        """is the offset inside an array of structures within the object?"""
        if o.dty is None or not o.dty.get('name'):
            return False
        k = (o.dty['name'], off)
        r = self._inarr.get(k)
        if r is None:
            r = False
            for mo, sz, nm, mn in self.m.members(
                    self.m.struct_di(o.dty['name'])):
                t = self.m.strip(mn)
                if mo <= off < mo + sz and t is not None and \
                        t.get('tag') == 'DW_TAG_array_type':
                    r = True
            self._inarr[k] = r
        return r

    _inarr = {}

    def is_elem(self, hint):
        return bool(hint and hint[1] and (
            hint[1][1].endswith('[]') or hint[1] in self.cfg['absorb']))

    # ------------------------------------------------------------ deref
    def deref(self, st, p, size, rw, ins):
        """check an access of `size` (Lin) bytes; Path ends on failure"""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.report(st, 'uninit-pointer',
                            'use of an uninitialised pointer')
            raise Path()
        if p.oid == 0:
            self.mon_viol(st, 'null', 'dereference of %s' % (
                'a null pointer' if p.off == ZERO else
                'the invalid pointer %r' % p.off))
            raise Path()
        o = st.objs.get(p.oid)
        if o is None:
            self.mon_viol(st, 'dangling', 'access to %s after its lifetime'
                          % ONAMES[p.oid])
            raise Path()
        if o.nul != 'nn':
            if o.nul == 'null':
                self.mon_viol(st, 'null', 'dereference of %s, which is null '
                              'here' % ONAMES[p.oid])
                raise Path()
            if not self.nn_rel(st, o):
                self.mon_viol(st, 'null', '%s may be null here' %
                              ONAMES[p.oid])
            st.wr(p.oid).nul = 'nn'
            o = st.objs[p.oid]
        if o.status == 'freed':
            self.mon_viol(st, 'use-after-free',
                          'access to %s after it was released' %
                          ONAMES[p.oid])
            raise Path()
        if self.bounds_on and o.size is not None:
            self.mon.bounds_check(self, st, o, p, size, rw, ins)
        return o

    def nn_rel(self, st, o):
        """does a type invariant make the pointer non-null here?"""
        par = o.g.get('parent')
        if not par or par[1] not in self.cfg.get('nnrel', {}):
            return False
        po = st.objs.get(par[0])
        if po is None:
            return False
        f = self.cfg['nnrel'][par[1]](self, st, po)
        return f is not None and st.num.decide(f) is True

    def mon_viol(self, st, rule, msg):
        if rule in self.mon.rules:
            self.report(st, rule, msg)

    # ------------------------------------------------------------ execution
    def get_info(self, fn):
        i = self.info.get(fn.name)
        if i is None:
            i = self.info[fn.name] = FnInfo(fn)
        return i

    frames = []

    def call(self, fname, args, st, ins):
        """call of a named function: list of (ret, state)"""
        self.stats['calls'] += 1
        md = self.models.get(fname)
        if md is not None:
            try:
                return md(self, st, args, ins)
            except Path:
                return []
        fn = self.m.funcs.get(fname)
        if fn is None or fn.decl:
            if fname.startswith('llvm.'):
                return self.intrinsic(fname, args, st, ins)
            raise AnalysisBroken('no model for external function %s (%s)' %
                                 (fname, self.loc(ins)))
        hook = self.mon.on_call
        if hook is not None:
            r = hook(self, st, fname, args, ins)
            if r is not None:
                return r
        if self.pure(fn) and not all(isinstance(a, Lin) and a.const
                                     for a in args):
            return [(self.pure_result(fn, args), st)]
        if fname in self.rec_fns():
            try:
                return self.recursive(fn, args, st, ins)
            except Path:
                return []
        return self.run(fn, args, st, ins)

    def run(self, fn, args, st, ins):
        info = self.get_info(fn)
        octx = self.ctx
        oins = self.curins
        cid = self.ctxid.setdefault((octx, id(ins), fn.name),
                                    len(self.ctxid) + 1)
        self.ctx = cid
        self.stack.append((fn.name, ins))
        self.stats['fns'].add(fn.name)
        if len(self.stack) > 60:
            raise AnalysisBroken('call depth')
        env = {}
        dis = None
        try:
            dis = self.m.fn_sig(fn.name)[1]
        except Exception:
            dis = None
        for i, ((ty, nm), a) in enumerate(zip(fn.params, args)):
            if isinstance(a, Ptr):
                if dis and i < len(dis):
                    pt = self.m.pointee(dis[i])
                    if a.oid and pt is not None and a.oid in st.objs:
                        o = st.objs[a.oid]
                        if o.dty is None and a.off == ZERO and \
                                pt.get('name') != 'void':
                            st.wr(a.oid).dty = pt
            env[nm] = a
        res = []
        self.frames.append(env)
        try:
            res = self.blocks(fn, info, env, st)
        except AnalysisBroken as x:
            if not hasattr(x, 'where'):
                x.where = self.where()
            raise
        finally:
            self.frames.pop()
            self.stack.pop()
            self.ctx = octx
            self.curins = oins
        return self.merge_returns(fn, info, cid, res)

    def merge_returns(self, fn, info, cid, res):
        out = []
        # a returned undecided boolean is split so that callers see a constant
        for r, s in res:
            d = self.defn(r) if isinstance(r, Lin) else None
            if d and d[0] == 'bool':
                c = d[1]
                s2 = s.copy()
                for x in self.assume(s, c, True):
                    out.append((ONE, x))
                for x in self.assume(s2, c, False):
                    out.append((ZERO, x))
            elif d and d[0] == 'load' and False:
                pass
            else:
                out.append((r, s))
        for r, s in out:
            # locals die
            dead = [k for k, o in s.objs.items()
                    if o.kind == 'stack' and o.g.get('ctx') == cid]
            for k in dead:
                del s.objs[k]
        if len(out) <= 1:
            return out
        items = [({'ret': r}, s) for r, s in out]
        for r, s in items:
            self.gc(r, s, ['ret'], True)
        items = self.merge_set(items, ['ret'], consts=2)
        return [(e['ret'], s) for e, s in items]

    def blocks(self, fn, info, env, st):
        ret = []
        inbox = {info.entry: [(None, env, st)]}
        self.elements(fn, info, info.wto, inbox, ret, None)
        return ret

    def elements(self, fn, info, els, inbox, ret, head):
        for el in els:
            if isinstance(el, tuple):
                h, sub = el
                inc = inbox.pop(h, None)
                if inc:
                    self.loop(fn, info, h, sub, inc, inbox, ret)
            else:
                inc = inbox.pop(el, None)
                if inc:
                    self.block(fn, info, el, inc, inbox, ret)

    def enter(self, fn, info, b, inc):
        """evaluate phis for incoming edges; prune environments"""
        blk = fn.blocks[b]
        out = []
        live = info.live_at[b]
        for pred, env, st in inc:
            if blk.phis:
                vals = {}
                for p in blk.phis:
                    for v, pr in p.x:
                        if pr == pred:
                            vals[p.dst] = self.val(st, env, v, p.ty)
                            break
                env = dict(env)
                env.update(vals)
            out.append(({k: env[k] for k in live if k in env}, st))
        return out

    def block(self, fn, info, b, inc, inbox, ret):
        items = self.enter(fn, info, b, inc)
        if len(items) > 1:
            items = self.merge_set(items, info.live_at[b], consts=2)
        self.exec_items(fn, info, b, items, inbox, ret)

    def exec_items(self, fn, info, b, items, inbox, ret):
        blk = fn.blocks[b]
        self.stats['blocks'].add((fn.name, b))
        for env, st in items:
            self.stats['states'] += 1
            work = [(0, env, st)]
            while work:
                i, env, st = work.pop()
                alive = True
                self.frames[-1] = env
                n = len(blk.insts)
                while i < n:
                    ins = blk.insts[i]
                    i += 1
                    self.curins = ins
                    self.stats['insts'] += 1
                    if ins.op == 'call':
                        rs = self.do_call(ins, env, st)
                        self.curins = ins
                        if not rs:
                            alive = False
                            break
                        if len(rs) == 1:
                            r, st = rs[0]
                            if ins.dst:
                                env[ins.dst] = r
                            continue
                        for r, s in rs:
                            e = dict(env)
                            if ins.dst:
                                e[ins.dst] = r
                            work.append((i, e, s))
                        alive = False
                        break
                    try:
                        self.step(ins, env, st)
                    except Path:
                        alive = False
                        break
                    except Infeasible:
                        alive = False
                        break
                if alive:
                    self.curins = blk.term
                    self.term(fn, blk, env, st, inbox, ret)

    def term(self, fn, blk, env, st, inbox, ret):
        t = blk.term
        b = blk.name
        if t.op == 'br':
            if len(t.x) == 1:
                inbox.setdefault(t.x[0], []).append((b, env, st))
                return
            c = self.val(st, env, t.args[0], IR.INT(1))
            if c is UNDEF:
                self.mon_viol(st, 'uninit', 'branch on an uninitialised '
                              'value')
            a, z = self.fork(st, c)
            both = bool(a) and bool(z)
            for s in a:
                if both:
                    s.trace = ((self.loc(t) , True), s.trace)
                inbox.setdefault(t.x[0], []).append((b, dict(env), s))
            for s in z:
                if both:
                    s.trace = ((self.loc(t), False), s.trace)
                inbox.setdefault(t.x[1], []).append((b, dict(env), s))
            return
        if t.op == 'switch':
            v = self.val(st, env, t.args[0])
            d, cases = t.x
            n = t.ty.w
            if not isinstance(v, Lin):
                v = self.fresh('sw', smin(n), umax(n))
            cur = [st]
            for cv, tgt in cases:
                nxt = []
                for s in cur:
                    c = self.icmp(s, 'eq', v, Lin(cv), t.ty)
                    a, z = self.fork(s, c)
                    for x in a:
                        x.trace = ((self.loc(t), 'case %d' % cv), x.trace)
                        inbox.setdefault(tgt, []).append((b, dict(env), x))
                    nxt += z
                cur = nxt
            for s in cur:
                inbox.setdefault(d, []).append((b, dict(env), s))
            return
        if t.op == 'ret':
            r = None
            if t.args:
                r = self.val(st, env, t.args[0], t.ty)
            ret.append((r, st))
            return
        if t.op == 'unreachable':
            return
        raise AnalysisBroken('terminator ' + t.op)

    def do_call(self, ins, env, st):
        cal = ins.x
        args = []
        for ty, o in ins.args:
            if ty.k == 'md':
                args.append(None)
            else:
                args.append(self.val(st, env, o, ty))
        if cal[0] == '@':
            name = cal[1:].strip('"')
        else:
            f = env.get(cal)
            if isinstance(f, FnPtr):
                name = f.name
            else:
                raise AnalysisBroken('indirect call at %s' % self.loc(ins))
        if name.startswith('llvm.dbg'):
            return [(None, st)]
        try:
            return self.call(name, args, st, ins)
        except Infeasible:
            return []

    def intrinsic(self, name, args, st, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.models['memcpy'](self, st, args, ins)
        if name.startswith('llvm.memset'):
            return self.models['memset'](self, st, args, ins)
        if name.startswith('llvm.expect'):
            return [(args[0], st)]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume'):
            return [(None, st)]
        raise AnalysisBroken('intrinsic ' + name)

    def step(self, ins, env, st):
        op = ins.op
        if op == 'load':
            p = self.val(st, env, ins.args[0])
            self.deref(st, p, Lin(ins.ty.size()), 'r', ins)
            v = self.load(st, p, ins.ty, ins)
            if self.mon.on_load is not None:
                self.mon.on_load(self, st, ins, p, v)
            if v is UNDEF:
                self.mon_viol(st, 'uninit', 'read of uninitialised memory '
                              '(%s)' % ONAMES[p.oid])
            if ins.ty.k == 'int' and ins.ty.w == 1:
                v = CTRUE if v == ONE else CFALSE if v == ZERO else \
                    Cond('unk', new_ver())
            env[ins.dst] = v
        elif op == 'store':
            v = self.val(st, env, ins.args[0], ins.ty)
            p = self.val(st, env, ins.args[1])
            self.deref(st, p, Lin(ins.ty.size()), 'w', ins)
            if isinstance(v, Cond):
                v = self.b2i(st, v)
            if v is UNDEF:
                v = self.fresh('undef', 0, umax(64)) \
                    if ins.ty.k == 'int' else v
            if self.mon.on_store is not None:
                self.mon.on_store(self, st, ins, p, v)
            h = self.ptr_type(st, p)
            if isinstance(v, Ptr) and v.oid and h and h[0] is not None:
                o = st.objs.get(v.oid)
                if o is not None and o.dty is None and v.off == ZERO:
                    d = self.m.pointee(h[0])
                    if d is not None and d.get('name') != 'void':
                        st.wr(v.oid).dty = d
            if ins.ty.k == 'ptr' and (self.is_elem(h) or not p.off.const):
                self.store_elem(st, p, v)
            else:
                self.store(st, p, v, ins.ty.size(), h)
        elif op == 'getelementptr':
            b = self.val(st, env, ins.args[0])
            env[ins.dst] = self.gep(st, b, ins.ty, ins.x, env)
        elif op == 'icmp':
            a = self.val(st, env, ins.args[0], ins.ty)
            b = self.val(st, env, ins.args[1], ins.ty)
            env[ins.dst] = self.icmp(st, ins.x, a, b, ins.ty)
        elif op == 'alloca':
            oid = oid_for(('st', self.ctx, id(ins)), '%s:%s' % (
                self.stack[-1][0], ins.dst[1:]))
            o = Obj(oid, 'stack', Lin(ins.ty.size()), None,
                    ((0, None, 'uninit', 0),))
            o.g['ctx'] = self.ctx
            if ins.ty.k == 'struct' and ins.ty.name:
                n = ins.ty.name.split('.', 1)[-1]
                o.dty = self.m.struct_di(n)
            o.tok = st.tok
            st.objs[oid] = o
            env[ins.dst] = Ptr(oid)
        elif op in CASTS:
            v = self.val(st, env, ins.args[0], ins.x)
            env[ins.dst] = self.cast(st, op, v, ins.x, ins.ty, ins)
        elif op == 'select':
            c = self.val(st, env, ins.args[0], IR.INT(1))
            a = self.val(st, env, ins.args[1], ins.ty)
            b = self.val(st, env, ins.args[2], ins.ty)
            d = st.num.decide(c) if isinstance(c, Cond) else None
            if d is True or a == b:
                env[ins.dst] = a
            elif d is False:
                env[ins.dst] = b
            elif isinstance(a, Cond) or isinstance(b, Cond):
                env[ins.dst] = Cond('unk', new_ver())
            elif isinstance(a, Lin) and isinstance(b, Lin):
                la, ha = st.num.bounds(a); lb, hb = st.num.bounds(b)
                s = new_sym('sel', None if None in (la, lb) else min(la, lb),
                            None if None in (ha, hb) else max(ha, hb))
                env[ins.dst] = sym_lin(s)
            else:
                env[ins.dst] = UNDEF
        elif op == 'freeze':
            env[ins.dst] = self.val(st, env, ins.args[0], ins.ty)
        elif op in ('fcmp',):
            env[ins.dst] = Cond('unk', new_ver())
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[ins.dst] = FLOAT
        else:
            a = self.val(st, env, ins.args[0], ins.ty)
            b = self.val(st, env, ins.args[1], ins.ty)
            env[ins.dst] = self.binop(st, ins, op, a, b, ins.ty.w)

    def cast(self, st, op, v, sty, dty, ins):
        if op == 'bitcast':
            return v
        if v is UNDEF:
            return v
        if op in ('zext', 'sext') and isinstance(v, Cond):
            r = self.b2i(st, v)
            return r if op == 'zext' else r.neg()
        if op == 'inttoptr':
            if isinstance(v, Lin):
                return NULL if v == ZERO else Ptr(0, v)
            return v
        if op == 'ptrtoint':
            return v
        if op in ('fptoui', 'fptosi'):
            return self.fresh('fp', 0, umax(dty.w))
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return FLOAT
        if isinstance(v, Ptr):
            if v.oid == 0:
                return v.off
            return self.fresh('ptrint', 0, umax(dty.w))
        if op == 'zext':
            return self.to_u(st, v, sty.w)
        if op == 'sext':
            return self.to_s(st, v, sty.w)
        if op == 'trunc':
            n = dty.w
            if isinstance(v, Cond):
                return v
            if n == 1:
                b = self.bits_and(st, v, ONE, sty.w)
                return self.icmp(st, 'ne', b, ZERO, sty)
            lo, hi = st.num.bounds(v)
            if lo is not None and hi is not None and (
                    (lo >= 0 and hi <= umax(n)) or
                    (lo >= smin(n) and hi <= smax(n))):
                return v
            if self.mon.on_trunc is not None:
                self.mon.on_trunc(self, st, ins, v, sty.w, n)
            if v.const:
                return Lin(v.c & umax(n))
            vu = self.to_u(st, v, sty.w)
            lo, hi = st.num.bounds(vu)
            if hi is not None and hi <= umax(n):
                return vu
            q = self.udivc(st, vu, 1 << n)
            return vu.sub(q.mul(1 << n))
        raise AnalysisBroken('cast ' + op)

    # ------------------------------------------------------------ merging
    def sig_obj(self, o, consts):
        s = o._sig
        if s is None or s[0] != consts:
            ps = []
            for k, c in o.cells.items():
                v = c[1]
                if isinstance(v, Ptr):
                    ps.append((k, v.oid))
                elif consts == 2 and isinstance(v, Lin) and v.const and \
                        -2 <= v.c <= 4 and o.kind in FRESH \
                        and c[0] >= 4:
                    ps.append((k, 'c', v.c))
            ps.sort(key=str)
            s = (consts, (o.status, o.nul if consts == 2 or o.nul == 'null'
                          or o.kind in FRESH else '', tuple(ps),
                          tuple(sorted((k, v) for k, v in o.g.items()
                                       if k in SIG_G))))
            o._sig = s
        return s[1]

    def pristine(self, o):
        return (o.kind in ('lazy', 'global') and not o.cells and
                o.status == 'live' and len(o.ovl) == 1 and not
                any(k in o.g for k in SIG_G) and
                o.nul == o.g.get('nul0', 'nn'))

    def plain(self, o, consts):
        """differs from its initial contents at most in integers"""
        return (o.status == 'live' and
                (o.nul == o.g.get('nul0', 'nn') or
                 (consts < 2 and o.nul != 'null')) and
                not any(k in o.g for k in SIG_G) and
                not any(isinstance(c[1], Ptr) and c[1].oid
                        for c in o.cells.values()))

    def signature(self, env, st, live, consts):
        es = []
        for k in live:
            v = env.get(k)
            if isinstance(v, Ptr):
                es.append(v.oid)
            elif isinstance(v, Lin):
                if consts and v.const and -2 <= v.c <= 4:
                    es.append(('c', v.c))
                else:
                    es.append('n')
            elif isinstance(v, Cond):
                es.append(v if consts else 'b')
            elif isinstance(v, FnPtr):
                es.append(v)
            elif v is UNDEF:
                es.append('u')
            else:
                es.append(None)
        os = []
        for oid, o in st.objs.items():
            if o.kind == 'lazy' or o.kind == 'global':
                if self.pristine(o) or self.plain(o, consts):
                    continue
            elif o.status == 'freed':
                # only matters while somebody can still reach it
                if not o.g.get('ref', True):
                    continue
            os.append((oid, self.sig_obj(o, consts)))
        os.sort(key=lambda x: x[0])
        return (self.mon.key(st.mon), tuple(es), tuple(os))

    def merge_set(self, items, live, consts):
        """merge states with equal signatures"""
        groups = {}
        for env, st in items:
            self.gc(env, st, live)
            self.prune(env, st)
            k = self.signature(env, st, live, consts)
            groups.setdefault(k, []).append((env, st))
        if consts == 2 and len(groups) > 10:
            return self.merge_set(items, live, 1)
        if consts == 1 and len(groups) > 40:
            return self.merge_set(items, live, 0)
        if len(groups) > 3 * self.maxstates:
            raise AnalysisBroken('too many abstract states (%d) in %s' % (
                len(groups), self.stack[-1][0] if self.stack else '?'))
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = self.join(a, b, live)
            out.append(a)
        return out

    def gc(self, env, st, live, loop=False):
        """drop released or unmodified objects nobody refers to"""
        drop = None
        for oid, o in st.objs.items():
            if o.status == 'freed' or 'in' in o.g or (
                    o.kind == 'lazy' and self.orphan(st, o)) or (
                    loop and o.kind == 'lazy' and self.stale_gen(st, o)) or (
                    o.kind in ('lazy',) and (self.pristine(o) or (
                        loop and self.elem_desc(st, o)))):
                if drop is None:
                    drop = []
                drop.append(oid)
        if not drop:
            return
        refs = set()
        for v in env.values():
            if isinstance(v, Ptr):
                refs.add(v.oid)
        for fr in self.frames:
            for v in fr.values():
                if isinstance(v, Ptr):
                    refs.add(v.oid)
        for o in st.objs.values():
            for c in o.cells.values():
                if isinstance(c[1], Ptr):
                    refs.add(c[1].oid)
        dels = []
        for d in drop:
            if d not in st.objs:
                continue
            if d not in refs and not self.mon.keep(st, d):
                o = st.objs[d]
                if o.status == 'freed' and o.kind == 'lazy' and not (
                        loop and self.elem_desc(st, o)) and not \
                        self.orphan(st, o):
                    continue        # its parent may hand it out again
                if o.kind == 'lazy' and 'root' in o.g:
                    continue
                dels.append(d)
        sub = []
        for d in dels:
            if 'in' in st.objs[d].g:
                sub += [c[1].oid for c in st.objs[d].cells.values()
                        if isinstance(c[1], Ptr) and c[1].oid]
            del st.objs[d]
        if sub:
            self.absorb(env, st, sub)

    def stale_gen(self, st, o):
        """was the field the object is named by forgotten since?"""
        k = MADE.get(o.oid)
        if k is None or not k[1].const:
            return False
        p = st.objs.get(k[0])
        if p is None or p.kind not in ('lazy', 'global'):
            return False
        if k[1].c in p.cells:
            return False
        c = k[1].c
        for (a, b, kind, data) in p.ovl:
            if c + 8 <= a or (b is not None and c >= b):
                continue
            if not (c >= a and (b is None or c + 8 <= b)):
                return False
            return kind == 'havoc' and (kind, data) != k[2]
        return False

    def blur(self, env, st):
        """a field left pointing to an unmodified element of an array (of an
        earlier iteration) may point to any"""
        el = {i for i, o in st.objs.items() if o.kind == 'lazy' and
              o.status == 'live' and o.nul != 'null' and
              not any(isinstance(c[1], Ptr) and c[1].oid
                      for c in o.cells.values()) and
              self.elem_desc(st, o)}
        if not el:
            return
        for fr in [env] + self.frames:
            for v in fr.values():
                if isinstance(v, Ptr):
                    el.discard(v.oid)
        hit = [(i, k) for i, o in st.objs.items()
               if o.kind in ('lazy', 'global')
               for k, c in o.cells.items()
               if isinstance(c[1], Ptr) and c[1].oid in el]
        for i, k in hit:
            self.havoc_range(st, i, k, k + 8)
        for d in {d for d in el}:
            if hit and d in st.objs and not any(
                    isinstance(c[1], Ptr) and c[1].oid == d
                    for o in st.objs.values() for c in o.cells.values()):
                del st.objs[d]

    def absorb(self, env, st, oids):
        """drop what only a dropped element of a container referred to"""
        refs = set()
        refs2 = set()
        for v in list(env.values()) + [v for fr in self.frames
                                       for v in fr.values()]:
            if isinstance(v, Ptr):
                refs.add(v.oid)
        for o in st.objs.values():
            for c in o.cells.values():
                if isinstance(c[1], Ptr):
                    refs2.add(c[1].oid)
        work = list(oids)
        while work:
            d = work.pop()
            o = st.objs.get(d)
            if o is None or d in refs2 or o.kind not in ('heap', 'map') or \
                    self.mon.keep(st, d):
                continue
            if d in refs:
                st.wr(d).g['in'] = 0
                continue
            work += [c[1].oid for c in o.cells.values()
                     if isinstance(c[1], Ptr) and c[1].oid]
            del st.objs[d]

    def prune(self, env, st):
        """forget facts about values which nothing refers to any more"""
        num = st.num
        if len(num.facts) < 8 and len(num.ne) < 8 and len(num.iv) < 60:
            return
        roots = set()

        def val(v):
            if isinstance(v, Lin):
                for s, _ in v.t:
                    roots.add(s)
            elif isinstance(v, Ptr):
                for s, _ in v.off.t:
                    roots.add(s)
            elif isinstance(v, Cond):
                cond(v)

        def cond(c):
            if c.k in ('ge', 'eq', 'ne'):
                val(c.a)
            elif c.k in ('and', 'or'):
                cond(c.a); cond(c.b)
            elif c.k in ('unk', 'unkn'):
                roots.add(self.unk_sym(c.a).id)
        for v in env.values():
            val(v)
        for fr in self.frames[:-1]:
            for v in fr.values():
                val(v)
        for o in st.objs.values():
            for c in o.cells.values():
                val(c[1])
            if o.size is not None:
                val(o.size)
            z = o.g.get('z')
            if z is not None:
                val(z)
        for v in self.mon.values(st):
            val(v)
        # the definitions of live symbols
        work = list(roots)
        while work:
            s = work.pop()
            y = SYMS[s]
            for f in y.facts:
                for x, _ in f.t:
                    if x not in roots:
                        roots.add(x); work.append(x)
            if y.d and y.d[0] == 'bool':
                before = set(roots)
                cond(y.d[1])
                work.extend(roots - before)
        memo = {}

        def live(s, depth=0):
            if s in roots:
                return True
            r = memo.get(s)
            if r is None:
                d = SYMS[s].d
                r = False
                if d is None or depth > 6:
                    r = False
                elif d[0] == 'load':
                    o = st.objs.get(d[1])
                    r = o is not None and o.status == 'live'
                elif d[0] in ('strlen',):
                    r = d[1] in st.objs
                elif d[0] in ('fd', 'st_size', 'unk', 'recint'):
                    r = False
                elif d[0] == 'bool':
                    r = False
                else:
                    # a derived term may be computed again
                    ls = [x for x in d if isinstance(x, Lin)]
                    r = bool(ls) and all(live(x, depth + 1) for l in ls
                                         for x, _ in l.t)
                memo[s] = r
            return r
        dead = set()
        keep = []
        loose = []
        for f in num.facts:
            ds = [s for s, _ in f.t if not live(s)]
            if ds:
                loose.append((f, ds))
                dead.update(ds)
            else:
                keep.append(f)
        ch = False
        if loose:
            ch = True
            # eliminate the dead symbols, where that is cheap
            fs = [f for f, _ in loose]
            for s in sorted(dead):
                pos = [f for f in fs if f.coef(s) > 0]
                neg = [f for f in fs if f.coef(s) < 0]
                fs = [f for f in fs if not f.coef(s)]
                if len(pos) * len(neg) > 12:
                    continue
                for a in pos:
                    for b in neg:
                        x, y = a.coef(s), -b.coef(s)
                        f = a.mul(y).add(b.mul(x)).norm()
                        if f.t and len(f.t) <= 4 and f not in fs:
                            l = num.bounds(f)[0]
                            if l is None or l < 0:
                                fs.append(f)
            have = set(keep)
            for f in fs:
                if f not in have and all(live(s) for s, _ in f.t):
                    have.add(f)
                    keep.append(f)
            num.facts = tuple(keep)
        if num.ne:
            ne = frozenset(f for f in num.ne if all(live(s) for s, _ in f.t))
            if len(ne) != len(num.ne):
                num.ne = ne
                ch = True
        if len(num.iv) > 24:
            used = set()
            for f in num.facts:
                used.update(s for s, _ in f.t)
            n = {s: v for s, v in num.iv.items() if s in used or live(s)}
            if len(n) != len(num.iv):
                num.iv = n
                ch = True
        if ch:
            num._dirty()

    def orphan(self, st, o):
        par = o.g.get('parent')
        if par is None:
            return False
        po = st.objs.get(par[0])
        return po is None or po.status == 'freed'

    def elem_desc(self, st, o):
        """is the object (reached through) an element of an array?"""
        for _ in range(20):
            if o is None:
                return False
            if 'elem' in o.g:
                return True
            par = o.g.get('parent')
            if par is None:
                return False
            o = st.objs.get(par[0])
        return False

    def int_default(self, st, oid, off, size, hint):
        o = st.objs.get(oid)
        if o is None:
            return None
        ov = self.overlapping(o, off, off + size)
        if ov:
            r = self.compose(st, o, off, size, ov)
            return r
        if hint is None:
            hint = self.type_at(o.dty, off) if o.dty is not None else None
        return self.default(st, o, Lin(off), size, IR.INT(size * 8), hint)

    def diff(self, A, B, live):
        """locations at which two states of equal signature differ:
        yields (loc, a, b); values Lin or None (unknown)"""
        ea, sa = A; eb, sb = B
        out = []
        for k in live:
            va = ea.get(k); vb = eb.get(k)
            if va is vb or va == vb:
                continue
            if isinstance(va, Ptr) and isinstance(vb, Ptr) and \
                    va.oid == vb.oid:
                out.append((('eo', k), va.off, vb.off))
            elif isinstance(va, Lin) and isinstance(vb, Lin):
                out.append((('e', k), va, vb))
            else:
                out.append((('x', k), None, None))
        for oid in set(sa.objs) | set(sb.objs):
            oa = sa.objs.get(oid); ob = sb.objs.get(oid)
            if oa is ob:
                continue
            if oa is None or ob is None:
                if oa is None:
                    sa.objs[oid] = self.fresh_copy(ob)
                    oa = sa.objs[oid]
                else:
                    sb.objs[oid] = self.fresh_copy(oa)
                    ob = sb.objs[oid]
                if not oa.cells and not ob.cells and oa.ovl == ob.ovl:
                    continue
            if oa.size != ob.size and oa.size is not None and \
                    ob.size is not None:
                out.append((('s', oid), oa.size, ob.size))
            if oa.cells != ob.cells:
                keys = set(oa.cells) | set(ob.cells)
                for k in keys:
                    ca = oa.cells.get(k); cb = ob.cells.get(k)
                    if ca == cb:
                        continue
                    sz = (ca or cb)[0]
                    hint = (ca or cb)[2]
                    if ca is not None and cb is not None and ca[0] != cb[0]:
                        out.append((('d', oid, k, max(ca[0], cb[0])),
                                    None, None))
                        continue
                    va = ca[1] if ca else None
                    vb = cb[1] if cb else None
                    if isinstance(va, Ptr) or isinstance(vb, Ptr):
                        if isinstance(va, Ptr) and isinstance(vb, Ptr) and \
                                va.oid == vb.oid:
                            if va.off != vb.off:
                                out.append((('co', oid, k, sz), va.off,
                                            vb.off))
                            continue
                        out.append((('d', oid, k, sz), None, None))
                        continue
                    if ca is None:
                        va = self.int_default(sa, oid, k, sz, hint)
                    if cb is None:
                        vb = self.int_default(sb, oid, k, sz, hint)
                    if isinstance(va, Lin) and isinstance(vb, Lin):
                        if va != vb or ca is None or cb is None:
                            self.lochint[(oid, k)] = hint
                            out.append((('c', oid, k, sz), va, vb))
                    else:
                        out.append((('d', oid, k, sz), None, None))
            if oa.ovl != ob.ovl:
                out.append((('v', oid), oa.ovl, ob.ovl))
            if oa.g != ob.g:
                out.append((('g', oid), None, None))
            if oa.nul != ob.nul:
                out.append((('n', oid), None, None))
        return out

    def fresh_copy(self, o):
        """the unmodified version of a lazily materialised object"""
        if o.kind == 'lazy' or o.kind == 'global':
            n = Obj(o.oid, o.kind, o.size, o.dty, o.ovl[-1:], o.nul, o.prov,
                    o.site)
            n.g = {k: v for k, v in o.g.items() if k not in SIG_G}
            if o.kind == 'global' and o.ovl[-1][2] == 'zero':
                n.cells = dict(o.cells)
            return n
        return o.copy()

    def join(self, A, B, live):
        self.stats['merges'] += 1
        ea, sa = A; eb, sb = B
        d = self.diff(A, B, live)
        na, nb = sa.num, sb.num
        R = Num({}, (), frozenset())
        env = {k: ea[k] for k in live if k in ea}
        st = sa.copy()
        basis = []       # (sym, a, b)
        sub_a = {}; sub_b = {}

        def truth(v, n):
            if v == ONE or v == ZERO:
                return v
            d = self.defn(v)
            if d and d[0] == 'bool' and d[1].k in ('ge', 'eq', 'ne'):
                t = n.decide(d[1])
                if t is not None:
                    return ONE if t else ZERO
            return None

        def rel(a, b):
            """value standing for a in A and b in B"""
            if a == b:
                return a
            # truth values which both sides know
            ka, kb = truth(a, na), truth(b, nb)
            if ka is not None and ka == kb:
                return ka
            for p, q, k in ((a, ka, kb), (b, kb, ka)):
                if q is None and k is not None:
                    d = self.defn(p)
                    m = nb if p is a else na
                    if d and d[0] == 'bool' and m.decide(d[1]) is (k == ONE):
                        return p
            df = b.sub(a)
            for s, x, y in basis:
                dx = y.sub(x)
                k = ratio(df, dx)
                if k is not None:
                    return a.add(sym_lin(s).sub(x).mul(k))
            la, ha = na.bounds(a); lb, hb = nb.bounds(b)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            s = new_sym('j%d' % len(SYMS), lo, hi)
            basis.append((s, a, b))
            sub_a[s.id] = a; sub_b[s.id] = b
            return sym_lin(s)
        # widest differences first give the simplest relations
        for loc, a, b in d:
            k = loc[0]
            if k == 'e':
                env[loc[1]] = rel(a, b)
            elif k == 'eo':
                p = ea[loc[1]]
                env[loc[1]] = Ptr(p.oid, rel(a, b), p.hint)
            elif k == 'x':
                env[loc[1]] = self.join_x(ea.get(loc[1]), eb.get(loc[1]),
                                          na, nb)
            elif k == 'c':
                o = st.wr(loc[1])
                o.cells[loc[2]] = (loc[3], rel(a, b),
                                   self.lochint.get(loc[1:3]))
                o.wver = new_ver()
            elif k == 'co':
                o = st.wr(loc[1])
                p = o.cells[loc[2]]
                o.cells[loc[2]] = (loc[3], Ptr(p[1].oid, rel(a, b),
                                               p[1].hint), p[2])
            elif k == 's':
                st.wr(loc[1]).size = rel(a, b)
            elif k == 'd':
                self.havoc_range(st, loc[1], loc[2], loc[2] + loc[3])
            elif k == 'v':
                self.join_ovl(st, loc[1], a, b)
            elif k == 'n':
                st.wr(loc[1]).nul = 'maybe'
            elif k == 'g':
                o = st.wr(loc[1])
                o.g = self.mon.join_g(o.g, sb.objs[loc[1]].g)
        # intervals
        iv = {}
        for s in set(na.iv) | set(nb.iv):
            la, ha = na.sb(s); lb, hb = nb.sb(s)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            y = SYMS[s]
            if (lo, hi) != (y.lo, y.hi):
                iv[s] = (lo, hi)
        R.iv = iv
        facts = []
        seen = set()
        cap = self.mon.factcap

        def keep(f):
            f = f.norm()
            if f in seen or not f.t or len(facts) >= cap:
                return
            seen.add(f)
            l = R.bounds(f)[0]
            if l is not None and l >= 0:
                return
            if na.entails(f.subst(sub_a)) and nb.entails(f.subst(sub_b)):
                facts.append(f)
        if na.facts is nb.facts:
            facts = list(na.facts)
            seen.update(facts)
        else:
            for f in na.facts:
                keep(f)
            for f in nb.facts:
                keep(f)
        for s, a, b in basis:
            v = sym_lin(s)
            for x in (a, b):
                if x.t:
                    keep(v.sub(x)); keep(x.sub(v))
            # each side's own facts rewritten onto the joined value
            for num, side in ((na, a), (nb, b)):
                if len(side.t) == 1 and abs(side.t[0][1]) == 1:
                    y = side.t[0][0]
                    k = side.t[0][1]
                    # y = k*(v - c)
                    r = v.addc(-side.c).mul(k)
                    for f in num.facts:
                        if f.coef(y):
                            keep(f.subst({y: r}))
        R.facts = tuple(facts[:cap])
        R.ne = na.ne & nb.ne
        st.num = R
        st.mon = self.mon.join(sa.mon, sb.mon)
        st.trace = sa.trace
        return (env, st)

    def join_x(self, a, b, na=None, nb=None):
        if isinstance(a, Cond) and isinstance(b, Cond):
            for x, y, n in ((a, b, na), (b, a, nb)):
                # decided on one side, a comparison on the other
                if n is not None and x.k == 'const' and y.k in (
                        'ge', 'eq', 'ne') and \
                        n.decide(y) is bool(x.a):
                    return y
            return Cond('unk', new_ver())
        return UNDEF

    def join_ovl(self, st, oid, a, b):
        o = st.wr(oid)
        o.wver = new_ver()
        # common suffix stays, the rest becomes unknown
        i = 0
        while i < len(a) and i < len(b) and a[-1 - i] == b[-1 - i]:
            i += 1
        suf = a[len(a) - i:]
        rest = a[:len(a) - i] + b[:len(b) - i]
        if not rest:
            o.ovl = a
            return
        lo = min(x[0] for x in rest)
        hi = None
        if all(x[1] is not None for x in rest):
            hi = max(x[1] for x in rest)
        o.ovl = ((lo, hi, 'havoc', new_ver()),) + suf

    # ------------------------------------------------------------ loops
    def loop(self, fn, info, h, sub, inc, inbox, ret):
        self.stats['loops'] += 1
        blocks = info.loop_blocks[h]
        live = info.live_at[h]
        items = self.enter(fn, info, h, inc)
        if len(items) > 1:
            items = self.merge_set(items, live, consts=0)
        heads = []
        for it in items:
            heads.append(Head(self, it, live, info))
        rounds = 0
        saved = self.out
        while True:
            rounds += 1
            if rounds > 40:
                raise AnalysisBroken('loop at %s in %s did not stabilise' % (
                    self.loc(fn.blocks[h].term), fn.name))
            changed = False
            for H in list(heads):
                if H.stable:
                    continue
                self.out = []
                lin = {}; lret = []
                item = H.state()
                self.exec_items(fn, info, h, [item], lin, lret)
                self.elements(fn, info, sub, lin, lret, h)
                back = lin.pop(h, [])
                H.exits = lin; H.rets = lret; H.out = self.out
                H.stable = True
                bitems = self.enter(fn, info, h, back)
                if len(bitems) > 1:
                    bitems = self.merge_set(bitems, live, consts=0)
                for b in bitems:
                    tgt = None
                    self.gc(b[0], b[1], live, True)
                    self.blur(b[0], b[1])
                    self.prune(b[0], b[1])
                    sg = self.signature(b[0], b[1], live, 0)
                    for X in heads:
                        if X.sig == sg:
                            tgt = X
                            break
                    if tgt is None:
                        if len(heads) > 24:
                            raise AnalysisBroken(
                                'loop at %s in %s: too many shapes' % (
                                    self.loc(fn.blocks[h].term), fn.name))
                        heads.append(Head(self, b, live, info))
                        changed = True
                    else:
                        if not tgt.include(b, rounds):
                            tgt.stable = False
                            changed = True
            if not changed and all(H.stable for H in heads):
                break
        self.out = saved
        for H in heads:
            self.out.extend(H.out)
            ret.extend(H.rets)
            for b, l in H.exits.items():
                inbox.setdefault(b, []).extend(l)

    # ------------------------------------------------------------ pure code
    def pure(self, fn):
        """integers to integer, branching, without memory or calls"""
        r = self._pure.get(fn.name)
        if r is None:
            r = fn.ret is not None and fn.ret.k == 'int' and \
                len(fn.blocks) > 6 and \
                all(t.k == 'int' for t, _ in fn.params)
            for b in fn.blocks.values():
                for i in b.insts:
                    if i.op in ('load', 'store', 'call', 'alloca'):
                        r = False
            self._pure[fn.name] = r
        return r

    def pure_result(self, fn, args):
        n = fn.ret.w
        key = ('pure', fn.name) + tuple(
            a if isinstance(a, Lin) else new_ver() for a in args)
        return sym_lin(term(key, smin(n), smax(n), fn.name + '()'))

    # ------------------------------------------------------------ recursion
    def rec_fns(self):
        """functions which may (transitively) call themselves"""
        if self._rec is None:
            g = {}
            for f in self.m.funcs.values():
                if f.decl:
                    continue
                s = g[f.name] = set()
                if f.name in self.models:
                    continue
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op == 'call' and i.x[0] == '@':
                            s.add(i.x[1:])
            self._rec = set()
            for f in g:
                seen = set(); work = list(g[f])
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work.extend(g.get(x, ()))
                if f in seen:
                    self._rec.add(f)
        return self._rec

    def rec_struct(self, di):
        """is the type a structure which can point to itself?"""
        if di is None or di.get('tag') != 'DW_TAG_structure_type':
            return False
        nm = di.get('name')
        r = self._rs.get(nm)
        if r is None:
            r = False
            seen = set()

            def visit(t, depth):
                nonlocal r
                if t is None or depth > 6 or r:
                    return
                tag = t.get('tag')
                if tag == 'DW_TAG_pointer_type':
                    p = self.m.pointee(t)
                    if p is not None and p.get('name') == nm and nm:
                        r = True
                    return
                if tag == 'DW_TAG_array_type':
                    visit(self.m.strip(self.m.node(t.get('baseType'))),
                          depth + 1)
                    return
                if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                    if id(t) in seen:
                        return
                    seen.add(id(t))
                    for off, sz, n, mn in self.m.members(t):
                        visit(self.m.strip(mn), depth + 1)
            visit(di, 0)
            self._rs[nm] = r
        return r

    def closure(self, st, oids):
        """objects reachable from the given ones"""
        kids = {}
        for k, o in st.objs.items():
            par = o.g.get('parent')
            if par:
                kids.setdefault(par[0], []).append(k)
        seen = set(); work = list(oids)
        while work:
            x = work.pop()
            if x in seen or x not in st.objs:
                continue
            seen.add(x)
            for c in st.objs[x].cells.values():
                if isinstance(c[1], Ptr) and c[1].oid:
                    work.append(c[1].oid)
            work.extend(kids.get(x, ()))
        return seen

    def recursive(self, fn, args, st, ins):
        dis = self.m.fn_sig(fn.name)[1]
        nodes = []
        kparts = []
        share = []
        for i, a in enumerate(args):
            if isinstance(a, Ptr):
                pt = self.m.pointee(dis[i]) if i < len(dis) else None
                if a.oid and self.rec_struct(pt):
                    self.deref(st, a, ONE, 'r', ins)
                    o = st.objs[a.oid]
                    if o.ovl and o.ovl[0][2] == 'uninit' and not o.cells:
                        self.mon_viol(st, 'uninit', '%s is passed to %s but '
                                      'was never initialised' %
                                      (self.name(o), fn.name))
                        return []
                    nodes.append(i)
                    kparts.append(('node', o.prov, o.kind == 'stack'))
                else:
                    if a.oid:
                        share.append(a.oid)
                    kparts.append(('p', a.oid, a.off))
            elif isinstance(a, Lin) and a.const and abs(a.c) <= 4:
                kparts.append(('c', a.c))
            elif isinstance(a, Lin):
                kparts.append('int')
            else:
                kparts.append('?')
        for k, o in st.objs.items():
            if o.kind == 'global':
                share.append(k)
        cl = self.closure(st, share)
        cl = {k for k in cl if not (st.objs[k].dty is not None and
                                    self.rec_struct(st.objs[k].dty) and
                                    st.objs[k].kind != 'global')}
        ks = []
        for k in sorted(cl):
            o = st.objs[k]
            if self.pristine(o):
                continue
            ks.append((k, o.status, o.nul, o.kind, frozenset(
                (x, c[0], c[1] if not isinstance(c[1], (Undef,)) else None)
                for x, c in o.cells.items()), o.ovl))
        key = (fn.name, tuple(kparts), tuple(ks), self.mon.key(st.mon))
        ent = self.rec.get(key)
        ints = {i: st.num.bounds(a) for i, a in enumerate(args)
                if isinstance(a, Lin) and kparts[i] == 'int'}
        if ent is None:
            # a coarser, already active entry of the same function is used
            # when the shared part keeps changing
            act = [k for k in self.rec_active if k[0] == fn.name and
                   k[1] == key[1] and k[3] == key[3]]
            if act:
                ent = self.rec[act[0]]
                ent['entries'].append((st, cl))
                self.rec_mod(ent, ent['base'], st, cl)
        if ent is None:
            ent = {'exits': {}, 'mod': {}, 'ints': ints, 'base': None,
                   'used': False, 'changed': False, 'entries': [],
                   'nint': 0, 'done': False, 'gs': {}}
            self.rec[key] = ent
            self.rec_compute(key, ent, fn, args, nodes, st, cl, ins)
        else:
            ent['used'] = True
            for i, (lo, hi) in ints.items():
                l0, h0 = ent['ints'][i]
                if (l0 is not None and (lo is None or lo < l0)) or \
                        (h0 is not None and (hi is None or hi > h0)):
                    if ent['done']:
                        # recompute with the wider range
                        ent['done'] = False
                        self.widen_int(ent, i, lo, hi)
                        self.rec_compute(key, ent, fn, args, nodes, st, cl,
                                         ins)
                    else:
                        self.widen_int(ent, i, lo, hi)
                        ent['changed'] = True
        return self.rec_apply(ent, fn, args, nodes, st, ins)

    def widen_int(self, ent, i, lo, hi):
        l0, h0 = ent['ints'][i]
        ent['nint'] += 1
        if l0 is None or lo is None or lo < l0:
            l0 = lo if ent['nint'] < 8 else smin(64)
        if h0 is None or hi is None or hi > h0:
            h0 = hi if ent['nint'] < 8 else umax(64)
        ent['ints'][i] = (l0, h0)

    def rec_compute(self, key, ent, fn, args, nodes, st, cl, ins):
        self.rec_active.append(key)
        saved = self.out
        try:
            for rnd in range(30):
                ent['used'] = False
                ent['changed'] = False
                C = State()
                C.num = Num()
                C.mon = st.mon
                C.trace = None
                for k in cl:
                    C.objs[k] = st.objs[k]
                ent['base'] = C.copy()
                for (oid, lo, hi) in ent['mod'].values():
                    if oid in C.objs:
                        self.havoc_range(C, oid, lo, hi, 'havoc',
                                         ('rec', fn.name, key[1], oid, lo))
                for oid, g in ent['gs'].items():
                    if oid in C.objs:
                        C.wr(oid).g.update(g)
                cargs = []
                for i, a in enumerate(args):
                    if i in nodes:
                        o = st.objs[a.oid]
                        oid = oid_for(('rec', fn.name, i, o.prov,
                                       o.kind == 'stack'),
                                      '%s:node' % fn.name)
                        pt = self.m.pointee(self.m.fn_sig(fn.name)[1][i])
                        n = Obj(oid, 'lazy', Lin(self.di_size(pt)), pt,
                                ((0, None, 'lazy', 0),), 'nn', o.prov)
                        n.g['root'] = 'rec'
                        if o.kind == 'stack':
                            n.g['nofree'] = True
                        C.objs[oid] = n
                        cargs.append(Ptr(oid))
                    elif i in ent['ints']:
                        lo, hi = ent['ints'][i]
                        s = term(('recint', fn.name, i, key[1]), None, None,
                                 'arg%d' % i)
                        C.num.iv[s.id] = (lo, hi)
                        cargs.append(sym_lin(s))
                    else:
                        cargs.append(a)
                self.out = []
                base = C.copy()
                res = self.run(fn, cargs, C, ins)
                nodeoids = [cargs[i].oid for i in nodes]
                for r, X in res:
                    if self.rec_exit(ent, fn, r, X, base, nodeoids):
                        ent['changed'] = True
                    if self.rec_mod(ent, base, X, set(X.objs)):
                        ent['changed'] = True
                if not ent['changed']:
                    break
            else:
                raise AnalysisBroken('recursion of %s did not stabilise' %
                                     fn.name)
        finally:
            saved.extend(self.out)
            self.out = saved
            self.rec_active.remove(key)
        ent['done'] = True

    def rec_mod(self, ent, base, X, oids):
        """note what of the shared objects X changed with respect to base"""
        ch = False
        for k in oids:
            o = X.objs.get(k)
            b = base.objs.get(k)
            if o is None or o.kind in FRESH or b is None or o is b:
                continue
            if o.dty is not None and self.rec_struct(o.dty) and \
                    o.kind != 'global':
                continue
            rng = []
            if o.ovl != b.ovl:
                i = 0
                while i < len(o.ovl) and i < len(b.ovl) and \
                        o.ovl[-1 - i] == b.ovl[-1 - i]:
                    i += 1
                for x in o.ovl[:len(o.ovl) - i]:
                    rng.append((x[0], x[1]))
            for c in set(o.cells) | set(b.cells):
                if o.cells.get(c) != b.cells.get(c):
                    sz = (o.cells.get(c) or b.cells.get(c))[0]
                    rng.append((c, c + sz))
            for lo, hi in rng:
                cov = False
                for (q, a, z) in ent['mod'].values():
                    if q == k and a <= lo and (z is None or (
                            hi is not None and hi <= z)):
                        cov = True
                if not cov:
                    ent['mod'][(k, lo)] = (k, lo, hi)
                    ch = True
            g = {x: v for x, v in o.g.items() if x in ('elems', 'drain') and
                 b.g.get(x) != v}
            if g:
                old = ent['gs'].get(k, {})
                n = dict(old); n.update(g)
                if n != old:
                    ent['gs'][k] = n
                    ch = True
        return ch

    def rec_exit(self, ent, fn, r, X, base, nodeoids):
        if self.mon.rec_exit is not None:
            self.mon.rec_exit(self, X, fn, r, nodeoids, base)
        cells = {}
        if isinstance(r, Ptr):
            o = X.objs.get(r.oid)
            if self.mon.rec_exit is not None and o is not None and \
                    o.status == 'freed':
                return False            # reported by the rule
            if r.oid == 0:
                rk = ('null',)
            elif r.oid in nodeoids:
                rk = ('arg', nodeoids.index(r.oid), r.off)
            elif o is not None and o.kind in FRESH:
                tc = None
                for k, c in o.cells.items():
                    if isinstance(c[1], Lin):
                        lo, hi = X.num.bounds(c[1])
                        cells[k] = (c[0], lo, hi)
                c0 = cells.get(0)
                rk = ('fresh', c0[1] if c0 and c0[1] == c0[2] else None,
                      r.off, self.di_key(o.dty))
            elif o is not None and self.moved_out(X, o, nodeoids):
                rk = ('fresh', None, r.off, self.di_key(o.dty))
                for off, sz, nm, mn in self.m.members(o.dty):
                    if o.dty.get('name') and (
                            o.g['parent'][1], (o.dty['name'], nm)) in \
                            self.cfg['via']:
                        v = self.load(X, Ptr(r.oid, Lin(off)),
                                      IR.INT(8 * sz))
                        cells[off] = (sz,) + X.num.bounds(v)
            else:
                rk = ('shared', r.oid, r.off)
        elif isinstance(r, Lin):
            if r.const:
                rk = ('c', r)
            else:
                rk = ('int',)
                cells[0] = (0,) + X.num.bounds(r)
        else:
            rk = ('void',)
        ns = []
        reach = self.closure(X, [r.oid]) if isinstance(r, Ptr) and r.oid \
            else set()
        for n in nodeoids:
            o = X.objs.get(n)
            if o is None:
                ns.append(('intact',))
            elif o.status == 'freed':
                ns.append(('freed',))
            elif n in reach and not (isinstance(r, Ptr) and r.oid == n):
                ns.append(('inret',))
            elif o.cells or len(o.ovl) > 1:
                rng = tuple(sorted((k, k + c[0])
                                   for k, c in o.cells.items()))
                rng += tuple((x[0], x[1]) for x in o.ovl[:-1])
                ns.append(('mod',))
                ent.setdefault('nmod', {}).setdefault(
                    nodeoids.index(n), set()).update(rng)
            else:
                ns.append(('intact',))
        k = (rk, tuple(ns), self.mon.key(X.mon))
        old = ent['exits'].get(k)
        if old is None:
            ent['exits'][k] = [dict(cells), X.mon]
            return True
        ch = False
        oc = old[0]
        for a in list(oc):
            if a not in cells:
                del oc[a]; ch = True
                continue
            sz, lo, hi = oc[a]
            _, l2, h2 = cells[a]
            nl = None if lo is None or l2 is None else min(lo, l2)
            nh = None if hi is None or h2 is None else max(hi, h2)
            if (nl, nh) != (lo, hi):
                old.append(0)
                if len(old) > 10:
                    nl = nh = None
                oc[a] = (sz, nl, nh); ch = True
        return ch

    def moved_out(self, X, o, nodeoids):
        """a part of an argument node which was released around it"""
        par = o.g.get('parent')
        if not par or o.status == 'freed' or o.dty is None or \
                not self.rec_struct(o.dty):
            return False
        po = X.objs.get(par[0])
        return po is None or po.status == 'freed'

    def di_key(self, di):
        return di.get('name') if di else None

    def rec_apply(self, ent, fn, args, nodes, st, ins):
        outs = []
        for (rk, ns, mk), (cells, mon, *_) in list(ent['exits'].items()):
            s = st.copy()
            s.mon = mon
            for (oid, lo, hi) in ent['mod'].values():
                if oid in s.objs:
                    self.havoc_range(s, oid, lo, hi)
            for oid, g in ent['gs'].items():
                if oid in s.objs:
                    s.wr(oid).g.update(g)
            r = None
            prov = None
            gone = []
            for j, i in enumerate(nodes):
                a = args[i]
                what = ns[j][0]
                if what == 'freed':
                    o = s.wr(a.oid)
                    prov = prov or o.prov
                    if o.g.get('elem') and o.g['elem'][0] in s.objs:
                        s.wr(o.g['elem'][0]).g['drain'] = True
                    if o.kind in ('stack', 'global') :
                        self.mon_viol(s, 'bad-free', '%s, which was not '
                                      'allocated, is released' %
                                      self.name(o))
                    o.status = 'freed'
                    for c in o.cells.values():
                        if isinstance(c[1], Ptr) and c[1].oid in s.objs and \
                                s.objs[c[1].oid].kind == 'heap' and \
                                s.objs[c[1].oid].status != 'freed' and \
                                self.rec_struct(s.objs[c[1].oid].dty or {}):
                            s.wr(c[1].oid).g['in'] = a.oid
                    gone.append(a.oid)
                elif what == 'inret':
                    prov = prov or s.objs[a.oid].prov
                    gone.append(a.oid)
                elif what == 'mod':
                    for lo, hi in ent.get('nmod', {}).get(j, ()):
                        o = s.objs[a.oid]
                        b = a.off.c if a.off.const else 0
                        if not a.off.const:
                            hi = None
                        self.havoc_range(s, a.oid, lo + b,
                                         None if hi is None else hi + b)
            if rk[0] == 'null':
                r = NULL
            elif rk[0] == 'arg':
                a = args[nodes[rk[1]]]
                r = Ptr(a.oid, a.off.add(rk[2]))
            elif rk[0] == 'fresh':
                di = self.m.struct_di(rk[3]) if rk[3] else None
                p = self.alloc(s, 'heap',
                               Lin(self.di_size(di)) if di else None,
                               (id(ins), 'rec'), di)
                o = s.wr(p.oid)
                o.ovl = ((0, None, 'havoc', new_ver()),)
                o.prov = prov
                o.g['recret'] = True
                for k, (sz, lo, hi) in cells.items():
                    v = Lin(lo) if lo is not None and lo == hi else \
                        sym_lin(new_sym('rec', lo, hi))
                    o.cells[k] = (sz, v, None)
                r = Ptr(p.oid, rk[2])
                for (j, i) in enumerate(nodes):
                    if ns[j][0] == 'inret':
                        s.wr(args[i].oid).g['in'] = p.oid
            elif rk[0] == 'shared':
                r = Ptr(rk[1], rk[2])
                if rk[1] not in s.objs:
                    r = NULL
                    raise AnalysisBroken('result %s of recursive %s' % (
                        ONAMES[rk[1]], fn.name))
            elif rk[0] == 'c':
                r = rk[1]
            elif rk[0] == 'int':
                _, lo, hi = cells[0]
                r = sym_lin(new_sym('ret', lo, hi))
            if self.mon.rec_applied is not None:
                self.mon.rec_applied(self, s, fn, args, nodes, ns, r, ins)
            outs.append((r, s))
        return outs


FRESH = ('heap', 'stack', 'map', 'dir')
SIG_G = ('own',)
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint',
         'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'}


def _gcd(a, b):
    from math import gcd
    return gcd(abs(a), abs(b))


def ratio(d2, d1):
    """integer k with d2 == k*d1, or None"""
    if not d1.t:
        if d2.t or d1.c == 0 or d2.c % d1.c:
            return None
        return d2.c // d1.c
    if len(d1.t) != len(d2.t):
        return None
    s, c1 = d1.t[0]
    c2 = d2.coef(s)
    if c2 == 0 or c2 % c1:
        return None
    k = c2 // c1
    return k if d1.mul(k) == d2 else None


class Head:
    """A loop header state under generalisation."""

    def __init__(self, eng, item, live, info):
        self.e = eng
        self.live = live
        self.env0, self.st0 = item[0], item[1].copy()
        eng.gc(self.env0, self.st0, live, True)
        eng.prune(self.env0, self.st0)
        self.sig = eng.signature(self.env0, self.st0, live, 0)
        self.var = {}        # loc -> ('b', sym) or ('r', basisloc, k)
        self.val0 = {}       # loc -> entry value
        self.hv = {}         # overlays / dropped cells
        self.xs = set()
        self.cand = None     # list of candidate facts
        self.tried = set()
        self.stable = False
        self.info = info
        self.exits = {}; self.rets = []; self.out = []
        self.rounds = 0
        self.dropped = set()
        self.cur = None
        self.order = []
        self.gs = {}
        self.nuls = set()

    def state(self):
        e = self.e
        env = dict(self.env0)
        st = self.st0.copy()
        for k in self.xs:
            env[k] = e.join_x(self.env0.get(k), Cond('unk', 0)) \
                if isinstance(self.env0.get(k), Cond) else UNDEF
        for (oid, lo, hi) in self.hv.values():
            e.havoc_range(st, oid, lo, hi)
        for oid, g in self.gs.items():
            st.wr(oid).g = dict(g)
        for oid in self.nuls:
            st.wr(oid).nul = 'maybe'
        for loc in self.order:
            v = self.value(loc)
            k = loc[0]
            if k == 'e':
                env[loc[1]] = v
            elif k == 'eo':
                p = self.env0[loc[1]]
                env[loc[1]] = Ptr(p.oid, v, p.hint)
            elif k == 'c':
                if ('d',) + loc[1:4] in self.hv or any(
                        x[0] == loc[1] and x[1] <= loc[2] and
                        (x[2] is None or x[2] > loc[2])
                        for x in self.hv.values()):
                    continue
                o = st.wr(loc[1])
                o.cells[loc[2]] = (loc[3], v, e.lochint.get(loc[1:3]))
                o.wver = new_ver()
            elif k == 'co':
                o = st.wr(loc[1])
                p = o.cells[loc[2]]
                o.cells[loc[2]] = (loc[3], Ptr(p[1].oid, v, p[1].hint), p[2])
            elif k == 's':
                st.wr(loc[1]).size = v
        if self.cand:
            for f in self.cand:
                try:
                    st.num.assume_ge(f)
                except Infeasible:
                    pass
        self.cur = (dict(env), st.copy())
        return (env, st)

    def value(self, loc):
        d = self.var[loc]
        if d[0] == 'b':
            return sym_lin(d[1])
        _, bl, k = d
        return self.val0[loc].add(
            sym_lin(self.var[bl][1]).sub(self.val0[bl]).mul(k))

    def include(self, b, rounds):
        """is the back-edge state covered?  Generalise if not."""
        e = self.e
        self.rounds += 1
        ok = True
        if self.cur is None:
            self.state()
        A = self.cur
        if self.hv:
            self.drop_regen(A, b)
        d = e.diff(A, b, self.live)
        for oid, o in A[1].objs.items():
            if oid not in self.st0.objs:
                self.st0.objs[oid] = o
        benv, bst = b
        bnum = bst.num
        m = {}           # header symbol -> value in b
        newl = []
        hvals = {}
        for loc, a, v in d:
            k = loc[0]
            if k == 'x':
                if loc[1] not in self.xs:
                    self.xs.add(loc[1]); ok = False
                continue
            if k == 'v':
                # compare overlays: header one must be a fresh havoc over
                # everything that differs
                if not self.ovl_ok(loc[1], a, v):
                    ok = False
                continue
            if k == 'd':
                key = loc
                if key not in self.hv:
                    self.hv[key] = (loc[1], loc[2], loc[2] + loc[3])
                    ok = False
                continue
            if k == 'n':
                if A[1].objs[loc[1]].nul != 'maybe':
                    self.nuls.add(loc[1])
                    ok = False
                continue
            if k == 'g':
                g = e.mon.join_g(A[1].objs[loc[1]].g, bst.objs[loc[1]].g)
                if g != A[1].objs[loc[1]].g:
                    self.gs[loc[1]] = g
                    ok = False
                continue
            hvals[loc] = (a, v)
        for loc, (a, v) in hvals.items():
            if loc in self.var:
                dd = self.var[loc]
                if dd[0] == 'b':
                    m[dd[1].id] = v
            else:
                newl.append((loc, a, v))
        # basis symbols which did not change keep their value
        for loc in self.order:
            dd = self.var[loc]
            if dd[0] == 'b' and dd[1].id not in m:
                m[dd[1].id] = sym_lin(dd[1])
        # derived locations must still follow their relation
        for loc in list(self.order):
            dd = self.var[loc]
            if dd[0] != 'r':
                continue
            want = self.value(loc).subst(m)
            if loc in hvals:
                got = hvals[loc][1]
            else:
                got = self.value(loc)
            if got != want:
                df = got.sub(want)
                if not (bnum.entails(df) and bnum.entails(df.neg())):
                    s = new_sym('h%d' % len(SYMS), None, None)
                    self.var[loc] = ('b', s)
                    m[s.id] = got
                    ok = False
                    self.mkcands(loc, s, b, m)
        for loc, a, v in newl:
            ok = False
            self.val0[loc] = self.entry_value(loc, a)
            a0 = self.val0[loc]
            df = v.sub(a)
            done = False
            for bl in self.order:
                bd = self.var[bl]
                if bd[0] != 'b':
                    continue
                cur_b = sym_lin(bd[1])
                if self.first:
                    pass
                nb = m.get(bd[1].id)
                if nb is None:
                    continue
                base = self.base_of(bl)
                k = ratio(df, nb.sub(base))
                if k is not None and k != 0:
                    self.var[loc] = ('r', bl, k)
                    self.order.append(loc)
                    done = True
                    break
            if not done:
                s = new_sym('h%d:%s' % (len(SYMS), self.lname(loc)),
                            None, None)
                self.var[loc] = ('b', s)
                self.order.append(loc)
                m[s.id] = v
                self.base[loc] = a
                self.mkcands(loc, s, b, m)
        if newl:
            # candidates from facts at the back edge
            pass
        # candidate facts must be preserved
        if self.cand:
            keep = []
            for f in self.cand:
                if bnum.entails(f.subst(m)):
                    keep.append(f)
                else:
                    ok = False
                    self.dropped.add(f)
            self.cand = keep
        # facts and intervals of the entry state
        st0 = self.st0
        iv = st0.num.iv
        for s, (lo, hi) in list(iv.items()):
            if s in m:
                continue
            l2, h2 = bnum.sb(s)
            nlo = lo if lo is None or (l2 is not None and l2 >= lo) else \
                (l2 if self.rounds < 3 else SYMS[s].lo)
            nhi = hi if hi is None or (h2 is not None and h2 <= hi) else \
                (h2 if self.rounds < 3 else SYMS[s].hi)
            if (nlo, nhi) != (lo, hi):
                if nlo is not None and SYMS[s].lo is not None and \
                        nlo < SYMS[s].lo:
                    nlo = SYMS[s].lo
                iv[s] = (nlo, nhi)
                st0.num._dirty()
                ok = False
        fs = []
        for f in st0.num.facts:
            if bnum.entails(f):
                fs.append(f)
            else:
                ok = False
        if len(fs) != len(st0.num.facts):
            st0.num.facts = tuple(fs)
            st0.num._dirty()
        if not st0.num.ne <= bnum.ne:
            ne = frozenset(f for f in st0.num.ne
                           if bnum.decide(Cond('ne', f)) is True)
            if ne != st0.num.ne:
                st0.num.ne = ne
                st0.num._dirty()
                ok = False
        mj = e.mon.join(st0.mon, bst.mon)
        if mj != st0.mon:
            st0.mon = mj
            ok = False
        return ok

    first = True

    def drop_regen(self, A, b):
        """objects only known through a field the loop forgets anyway, which
        nothing else refers to: whatever the field holds is met afresh"""
        env, st = b
        new = set()
        for oid, o in st.objs.items():
            k = MADE.get(oid)
            if o.kind == 'lazy' and o.status == 'live' and \
                    oid not in A[1].objs and k and k[1].const and \
                    k[2][0] == 'havoc' and any(
                        x[0] == k[0] and x[1] <= k[1].c and
                        (x[2] is None or x[2] >= k[1].c + 8)
                        for x in self.hv.values()):
                new.add(oid)
        if not new:
            return
        for v in env.values():
            if isinstance(v, Ptr):
                new.discard(v.oid)
        for oid, o in st.objs.items():
            for c in o.cells.values():
                if isinstance(c[1], Ptr):
                    new.discard(c[1].oid)
        for oid in new:
            del st.objs[oid]

    @property
    def base(self):
        if not hasattr(self, '_base'):
            self._base = {}
        return self._base

    def base_of(self, bl):
        return self.base.get(bl, self.val0[bl]) if self.rounds <= 1 else \
            sym_lin(self.var[bl][1])

    def lname(self, loc):
        if loc[0] in ('e', 'eo'):
            return loc[1].lstrip('%')
        return '%s+%s' % (ONAMES[loc[1]], loc[2] if len(loc) > 2 else '')

    def entry_value(self, loc, a):
        return a

    def mkcands(self, loc, s, b, m):
        e = self.e
        v = sym_lin(s)
        a0 = self.val0[loc]
        num0 = self.st0.num
        bnum = b[1].num
        bv = m[s.id]
        c = []
        lo, hi = num0.bounds(a0)
        lo2, hi2 = bnum.bounds(bv)
        ks = {0, 1, -1}
        if lo is not None: ks.add(lo)
        if hi is not None: ks.add(hi)
        if lo2 is not None: ks.add(lo2)
        if hi2 is not None: ks.add(hi2)
        for k in self.info.consts:
            if abs(k) < (1 << 40):
                ks.update((k, k - 1, k + 1))
        for k in sorted(ks):
            if lo is not None and lo >= k:
                c.append(v.addc(-k))
            if hi is not None and hi <= k:
                c.append(v.neg().addc(k))
        if a0.t or True:
            c.append(v.sub(a0)); c.append(a0.sub(v))
        # facts at the back edge which bound the new value: rewrite the
        # old header value as (new value - step)
        old = None
        dv = bv.sub(self.curval(loc))
        for f in bnum.facts:
            for y, k in bv.t:
                if f.coef(y) and abs(bv.coef(y)) == 1:
                    # y = bv.coef * (v - rest)
                    kk = bv.coef(y)
                    rest = bv.sub(Lin(0, ((y, kk),)))
                    r = v.sub(rest).mul(kk)
                    c.append(f.subst({y: r}))
            if old is None:
                pass
        # intervals of the symbols in the back-edge value
        for y, k in bv.t:
            l3, h3 = bnum.sb(y)
            rest = bv.sub(Lin(0, ((y, k),)))
            if abs(k) == 1:
                # y = k*(v-rest)
                r = v.sub(rest).mul(k)
                if l3 is not None:
                    c.append(r.addc(-l3))
                if h3 is not None:
                    c.append(r.neg().addc(h3))
        # relations with the other varying locations
        for ol in self.order:
            od = self.var[ol]
            if od[0] == 'b' and ol != loc:
                w = sym_lin(od[1]); w0 = self.val0[ol]
                c.append(v.sub(w)); c.append(w.sub(v))
                c.append(v.sub(a0).sub(w.sub(w0)))
                c.append(w.sub(w0).sub(v.sub(a0)))
        # facts of the entry state about the entry value
        if len(a0.t) == 1 and abs(a0.t[0][1]) == 1:
            y, k = a0.t[0]
            r = v.addc(-a0.c).mul(k)
            for f in list(num0.facts) + list(SYMS[y].facts):
                if f.coef(y):
                    c.append(f.subst({y: r}))
        m0 = {self.var[l][1].id: self.val0[l] for l in self.order
              if self.var[l][0] == 'b'}
        m0[s.id] = a0
        if self.cand is None:
            self.cand = []
        have = set(self.cand)
        for f in c:
            f = f.norm()
            if not f.t or f in have or f in self.dropped:
                continue
            if f.coef(s.id) == 0:
                continue
            have.add(f)
            if num0.entails(f.subst(m0)):
                self.cand.append(f)

    def curval(self, loc):
        return self.val0[loc]

    def ovl_ok(self, oid, a, v):
        """a: header overlays, v: overlays at the back edge"""
        i = 0
        while i < len(a) and i < len(v) and a[-1 - i] == v[-1 - i]:
            i += 1
        rest = v[:len(v) - i]
        ra = a[:len(a) - i]
        allr = rest + ra
        if not allr:
            return True
        lo = min(x[0] for x in allr)
        hi = None
        if all(x[1] is not None for x in allr):
            hi = max(x[1] for x in allr)
        cur = self.hv.get(('v', oid))
        if cur is not None:
            lo2, hi2 = cur[1], cur[2]
            if lo >= lo2 and (hi2 is None or (hi is not None and hi <= hi2)):
                return True
            lo = min(lo, lo2)
            hi = None if hi is None or hi2 is None else max(hi, hi2)
            if self.rounds > 3:
                lo, hi = 0, None
        self.hv[('v', oid)] = (oid, lo, hi)
        return False

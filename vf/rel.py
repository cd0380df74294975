"""Relational dataflow: affine equalities between numbers, ghost attributes of
objects, and a finite typestate, over a function with its helpers expanded.

Objects are named by access path or creation site.  Numbers (registers, cells
of objects, ghosts of a rule) are related by Karr's affine equalities and a
few inequalities; pointers, bits taken from a key and the facts of a rule are
the discrete part of the state.  States are joined only where the discrete
part is equal.
"""
import re
from fractions import Fraction as Fr
from .pxfer import Aff, add, scale, const, var, isconst, cval, join, same, \
    ONE, Flat
from .eng import AnalysisBroken

NORET = {'abort', 'exit', '_exit', '__assert_fail', 'urkel_abort',
         '__urkel_assert_fail', 'urkel_assert_fail'}
ALLOC = {'malloc', 'calloc', 'checked_malloc', 'urkel_malloc'}


def base(name):
    return re.sub(r'\.\d+$', '', name)


class RFlat(Flat):
    def __init__(self, m, name, policy, depth=8):
        self.policy = policy
        Flat.__init__(self, m, name, frozenset(), depth)

    def wanted(self, name, exp, inside):
        g = self.m.funcs.get(name)
        if g is None or not g.blocks or name == inside:
            return False
        return self.policy(base(name), g)


def mentions(x, obj):
    if isinstance(x, tuple):
        return any(mentions(y, obj) for y in x)
    return x == obj


class St:
    __slots__ = ('a', 'env', 'mem', 'bits', 'facts', 'keep')

    def __init__(self, a, env, mem, bits, facts, keep):
        self.a = a; self.env = env; self.mem = mem
        self.bits = bits; self.facts = facts; self.keep = keep

    def copy(self):
        return St(self.a.copy(), dict(self.env), dict(self.mem),
                  dict(self.bits), dict(self.facts), dict(self.keep))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.bits.items()), frozenset(self.facts.items()),
                frozenset(self.keep.items()))

    # -- numbers
    def cell(self, obj, off):
        return 'M:%s+%d' % (obj, off)

    def norm(self, f):
        return None if f is None else self.a.norm(f)

    def equal(self, f, g):
        return f is not None and g is not None and \
            not self.a.norm(add(f, g, -1))

    def known(self, f):
        """The integer a form is known to be, or None."""
        if f is None:
            return None
        f = self.a.norm(f)
        return int(cval(f)) if isconst(f) else None

    def ge(self, f):
        return f is not None and self.a.entails(f)

    # -- objects
    def vars_of(self, obj):
        p = 'M:%s+' % obj
        s = set()
        for v, r in self.a.eq.items():
            for w in [v] + list(r):
                if w.startswith(p) or (w[1:2] == ':' and w[2:] == obj) or \
                        w.endswith('@' + obj) or ('@%s+' % obj) in w:
                    s.add(w)
        for g in self.a.ge:
            for w in g:
                if w.startswith(p) or (w[1:2] == ':' and w[2:] == obj) or \
                        w.endswith('@' + obj) or ('@%s+' % obj) in w:
                    s.add(w)
        return s

    def forget_cells(self, obj, lo=None, hi=None):
        p = 'M:%s+' % obj
        for v in self.vars_of(obj):
            if v.startswith(p):
                o = int(v[len(p):])
                if lo is None or lo <= o < hi:
                    self.a.forget(v)
        for k in [k for k in self.mem if k[0] == obj and
                  (lo is None or (isinstance(k[1], int) and
                                  lo <= k[1] < hi))]:
            del self.mem[k]

    def reset(self, obj):
        """obj is created anew: nothing is known about it."""
        for v in self.vars_of(obj):
            self.a.forget(v)
        for k in [k for k, v in self.mem.items()
                  if mentions(k, obj) or mentions(v, obj)]:
            del self.mem[k]
        for k in [k for k, v in self.facts.items()
                  if mentions(k, obj) or mentions(v, obj)]:
            del self.facts[k]
        for k in [k for k, v in self.env.items() if mentions(v, obj)]:
            del self.env[k]
        for k in [k for k, v in self.bits.items() if mentions(v, obj)]:
            del self.bits[k]

    def bitval(self, b):
        """Value of a bit ('bit', ix, flip), if known."""
        e = self.bits.get(b[1])
        if e is None or e[1] is None:
            return None
        return e[1] ^ b[2]

    def setbit(self, b, v):
        e = self.bits.get(b[1])
        if e is None:
            return True
        v ^= b[2]
        if e[1] is not None:
            return e[1] == v
        self.bits[b[1]] = (e[0], v)
        return True


class Rel:
    LIMIT = 300000
    MAXKEYS = 4000

    def __init__(self, m, root, client, policy):
        self.m = m; self.root = root; self.c = client
        self.f = RFlat(m, root, policy)
        self.steps = 0
        self.sites = 0

    def run(self, init=None):
        f = self.f
        fn = self.m.funcs[self.root]
        S = St(Aff(), {}, {}, {}, {}, {})
        for ty, nm in fn.params:
            r = 'f' + nm
            if ty.k == 'ptr' and 'P:' + nm in self.c.cursors:
                S.env[r] = ('q', 'P:' + nm)
                S.a.add_eq(var(r))
            elif ty.k == 'ptr':
                S.env[r] = ('p', 'P:' + nm, 0)
            else:
                S.a.add_eq(add(var(r), var('P:' + nm), -1))
        self.c.start(self, S, fn)
        self.st = {f.entry: {S.key(): S}}
        work = [(f.entry, S.key())]
        pend = {(f.entry, S.key())}
        self.joins = {}
        order = {lab: i for i, lab in enumerate(f.blocks)}
        while work:
            lab, k = work.pop(0)
            pend.discard((lab, k))
            for tgt, T in self.block(lab, self.st[lab][k].copy()):
                kk = T.key()
                d = self.st.setdefault(tgt, {})
                if kk not in d:
                    d[kk] = T
                    if len(d) > self.MAXKEYS:
                        raise AnalysisBroken('too many states in %s'
                                             % self.root)
                else:
                    w = self.joins[tgt, kk] = \
                        self.joins.get((tgt, kk), 0) + 1
                    if w < 4 or not self.head(tgt):
                        n = join(d[kk].a, T.a, [], self.templates(tgt) +
                                 self.c.templates(self, tgt), self.weak(tgt))
                    else:
                        n = self.widen(d[kk].a, T.a)
                    if same(n, d[kk].a):
                        continue
                    old = d[kk]
                    d[kk] = St(n, old.env, old.mem, old.bits, old.facts,
                               old.keep)
                if (tgt, kk) not in pend:
                    pend.add((tgt, kk))
                    work.append((tgt, kk))
            if self.steps > self.LIMIT:
                raise AnalysisBroken('analysis of %s does not finish'
                                     % self.root)

    def widen(self, a, b):
        """Only inequalities of a which still hold are kept."""
        n = join(a, b, [], [])
        j = Aff(n.eq, [])
        for g in a.ge:
            if b.entails(g):
                j.add_ge(g)
        return j

    def weak(self, lab):
        w = self.c.weak
        if w is not True:
            return w
        w = {d for d, _ in self.f.blocks[lab][0]}
        return w or True

    def head(self, lab):
        """Is the block the target of a back edge?"""
        if not hasattr(self, '_heads'):
            self._heads = set()
            seen, on = set(), set()
            work = [(self.f.entry, iter(self.f.succ.get(self.f.entry, ())))]
            seen.add(self.f.entry); on.add(self.f.entry)
            while work:
                b, it = work[-1]
                for y in it:
                    if y in on:
                        self._heads.add(y)
                    elif y not in seen:
                        seen.add(y); on.add(y)
                        work.append((y, iter(self.f.succ.get(y, ()))))
                        break
                else:
                    on.discard(b)
                    work.pop()
        return lab in self._heads

    def loops(self, lab):
        """Can the block be reached from itself?"""
        if not hasattr(self, '_loop'):
            self._loop = {}
        if lab not in self._loop:
            succ = self.f.succ
            seen, w = set(), [lab]
            while w:
                for y in succ.get(w.pop(), ()):
                    if y not in seen:
                        seen.add(y); w.append(y)
            self._loop[lab] = lab in seen
        return self._loop[lab]

    def templates(self, tgt):
        """Differences of the numbers compared somewhere."""
        if not hasattr(self, '_cmp'):
            self._cmp = set()
            self._cmp1 = set()
            for lab, (phis, insts, term, src) in self.f.blocks.items():
                for ins, pre, sub in insts:
                    if ins.op == 'icmp' and ins.x not in ('eq', 'ne'):
                        o = [self.f.op(x, pre, sub) for x in ins.args]
                        self._cmp1.add(tuple(x[1] for x in o
                                             if x[0] == 'v'))
                        if o[0][0] == o[1][0] == 'v':
                            self._cmp.add((o[0][1], o[1][1]))
        live = self.f.live[tgt]
        out = [var(x) for p in self._cmp1 for x in p if x in live]
        for x, y in self._cmp:
            if x in live and y in live:
                out.append(add(var(x), var(y), -1))
                out.append(add(var(y), var(x), -1))
        return out

    # ---------------------------------------------------------- operands

    def num(self, S, o):
        if o[0] == 'i':
            return const(o[1])
        if o[0] in ('null', 'zero'):
            return {}
        if o[0] == 'v':
            e = S.env.get(o[1])
            if e is not None and e[0] == 'bit':
                v = S.bitval(e)
                return None if v is None else const(v)
            if e is not None:
                return None
            return var(o[1])
        return None

    def val(self, S, o):
        """The discrete value of an operand, or None."""
        if o[0] == 'v':
            return S.env.get(o[1])
        if o[0] == 'null':
            return ('null',)
        if o[0] == 'g':
            return ('p', 'G:' + o[1], 0)
        if o[0] == 'gep':
            b = self.val(S, o[2] if o[2][0] != 'r' else o[2])
            if b and b[0] == 'p' and isinstance(b[2], int):
                off = self.gep_off(o[1], o[3])
                if off is not None:
                    return ('p', b[1], b[2] + off)
        return None

    def gep_off(self, ty, idx):
        off = 0
        t = ty
        for i, x in enumerate(idx):
            if isinstance(x[0], tuple) or not isinstance(x[0], str):
                x = x[1]
            if x[0] != 'i':
                return None
            if i == 0:
                off += x[1] * t.size()
            elif t.k == 'struct':
                off += t.offs()[x[1]]; t = t.fields[x[1]]
            elif t.k == 'arr':
                t = t.el; off += x[1] * t.size()
            else:
                return None
        return off

    def ptr(self, S, o):
        v = self.val(S, o)
        return (v[1], v[2]) if v is not None and v[0] == 'p' else None

    def cur(self, S, o):
        """(object, form of the offset) of a cursor, or None."""
        v = self.val(S, o)
        if v is not None and v[0] == 'q':
            if o[0] == 'v':
                return v[1], var(o[1])
        return None

    def setcur(self, S, dst, obj, f):
        S.keep.pop(dst, None)
        S.env.pop(dst, None)
        S.a.assign(dst, None if f is None else S.a.norm(f))
        S.env[dst] = ('q', obj)

    def setval(self, S, dst, v):
        """Assign a discrete value (None: unknown) to a register."""
        S.keep.pop(dst, None)
        S.a.forget(dst)
        if v is None:
            S.env.pop(dst, None)
        else:
            S.env[dst] = v

    def setnum(self, S, dst, f):
        S.keep.pop(dst, None)
        S.env.pop(dst, None)
        S.a.assign(dst, None if f is None else S.a.norm(f))

    # ------------------------------------------------------------ control

    def go(self, lab, src, states):
        phis = self.f.blocks[lab][0]
        out = []
        for S in states:
            S = S.copy()
            vals = []
            for dst, inc in phis:
                o = [o for o, s in inc if s == src]
                o = o[0]
                d = self.val(S, o)
                fm = None
                if d is None or d == ('null',):
                    fm = self.num(S, o)
                elif d[0] == 'q':
                    fm = self.cur(S, o)[1]
                vals.append((dst, d, None if fm is None else S.a.norm(fm)))
            for i, (dst, d, fm) in enumerate(vals):
                if fm is not None:
                    S.a.add_eq(add(var('phi%d' % i), fm, -1))
            for dst, d, fm in vals:
                self.setval(S, dst, d)
                if d is not None and d[0] == 'q' and fm is not None:
                    self.c.phied(self, S, d[1], dst)
            for i, (dst, d, fm) in enumerate(vals):
                if fm is not None and (d is None or d[0] == 'q'):
                    S.a.add_eq(add(var(dst), var('phi%d' % i), -1))
            if self.c.split_phis and not self.loops(lab):
                for dst, d, fm in vals:
                    if fm is not None and not isconst(fm):
                        S.facts[('via', dst)] = src
            for i, (dst, d, fm) in enumerate(vals):
                S.a.forget('phi%d' % i)
                if d is None and fm is not None and isconst(fm) and \
                        abs(cval(fm)) <= (1 if self.loops(lab) else
                                          self.c.keep_ret):
                    S.keep[dst] = int(cval(fm))
            live = self.f.live[lab]
            for v in {v for v in list(S.a.eq) +
                      [x for r in S.a.eq.values() for x in r] +
                      [x for g in S.a.ge for x in g]
                      if v[0] == 'f' and v not in live}:
                S.a.forget(v)
            for v in [v for v in S.env if v not in live]:
                del S.env[v]
            for v in [v for v in S.keep if v not in live]:
                if not self.c.keep_dead:
                    del S.keep[v]
            self.c.edge(self, S, lab)
            self.collect(S)
            out.append((lab, S))
        return out

    def collect(self, S):
        """Forget objects nothing refers to."""
        if self.c.drop_bits:
            used = {e[1] for e in S.env.values() if e[0] == 'bit'}
            for ix in [ix for ix in S.bits if ix not in used]:
                del S.bits[ix]
                S.a.forget(ix)

    def block(self, lab, S):
        phis, insts, term, src = self.f.blocks[lab]
        states = [S]
        for ins, pre, sub in insts:
            nxt = []
            for s in states:
                self.steps += 1
                nxt += self.inst(ins, pre, sub, s)
            states = nxt
            if not states:
                return []
        if term[0] == 'jmp':
            return self.go(term[1], src, states)
        _, t, pre, sub, cont = term
        A = lambda o: self.f.op(o, pre, sub)
        out = []
        if t.op == 'br':
            if len(t.x) == 1:
                return self.go(pre + ':' + t.x[0], src, states)
            o = A(t.args[0])
            for s in states:
                for i in (0, 1):
                    b = s.copy()
                    if self.force(b, o, 1 - i):
                        out += self.go(pre + ':' + t.x[i], src, [b])
            return out
        if t.op == 'switch':
            o = A(t.args[0])
            dflt, cases = t.x
            for s in states:
                left = True
                for v, lb in cases:
                    b = s.copy()
                    if self.force(b, o, v):
                        out += self.go(pre + ':' + lb, src, [b])
                e = self.val(s, o)
                k = s.known(self.num(s, o)) if self.num(s, o) is not None \
                    else None
                vals = [v for v, _ in cases]
                if k is not None and k in vals:
                    left = False
                if e is not None and e[0] == 'bit' and \
                        {0, 1} <= set(vals):
                    left = False
                if left:
                    b = s.copy()
                    self.c.notin(self, b, o, vals)
                    out += self.go(pre + ':' + dflt, src, [b])
            return out
        if t.op == 'ret':
            o = A(t.args[0]) if t.args else None
            if cont is not None:
                lab2, dst = cont
                for s in states:
                    s = s.copy()
                    if dst is not None:
                        d = self.val(s, o)
                        if d is not None and d[0] == 'q':
                            self.setcur(s, dst, *self.cur(s, o))
                        elif d is not None:
                            self.setval(s, dst, d)
                        else:
                            fm = self.num(s, o)
                            self.setnum(s, dst, fm)
                            c = s.known(var(dst)) if fm is not None \
                                else None
                            if c is not None and abs(c) <= \
                                    self.c.keep_ret:
                                s.keep[dst] = c
                    out += self.go(lab2, src, [s])
                return out
            for s in states:
                self.c.ret(self, s, o, self.m.locstr(t.loc))
            return []
        if t.op == 'unreachable':
            return []
        raise AnalysisBroken('terminator ' + t.op)

    def force(self, S, o, v):
        """Assume operand o == v; False if impossible."""
        e = self.val(S, o)
        if e is not None and e[0] == 'bit':
            return v in (0, 1) and S.setbit(e, v)
        fm = self.num(S, o)
        if fm is None:
            return True
        if self.c.excluded(self, S, fm, v):
            return False
        return S.a.add_eq(add(fm, const(v), -1))

    # ------------------------------------------------------- instructions

    def inst(self, ins, pre, sub, S):
        op = ins.op
        A = lambda o: self.f.op(o, pre, sub)
        dst = pre + ins.dst if ins.dst else None
        if op == 'call':
            return self.call(ins, pre, sub, S, dst)
        if op == 'alloca':
            if dst not in S.env:
                S.env[dst] = ('p', 'A:' + dst, 0)
            return [S]
        if op == 'load':
            return self.load(ins, A(ins.args[0]), S, dst)
        if op == 'store':
            return self.store(ins, A(ins.args[0]), A(ins.args[1]), S)
        if op in ('add', 'sub'):
            x, y = self.num(S, A(ins.args[0])), self.num(S, A(ins.args[1]))
            if op == 'sub':
                cx, cy = self.cur(S, A(ins.args[0])), \
                    self.cur(S, A(ins.args[1]))
                if cx is not None and cy is not None and cx[0] == cy[0]:
                    self.setnum(S, dst, add(cx[1], cy[1], -1))
                    return [S]
            if op == 'sub':
                # 1 - bit
                e = self.val(S, A(ins.args[1]))
                if e and e[0] == 'bit' and x is not None and \
                        S.known(x) == 1:
                    self.setval(S, dst, ('bit', e[1], e[2] ^ 1))
                    return [S]
            if x is None or y is None:
                self.setval(S, dst, None)
            else:
                self.setnum(S, dst, add(x, y, 1 if op == 'add' else -1))
            return [S]
        if op in ('mul', 'shl'):
            x, y = self.num(S, A(ins.args[0])), self.num(S, A(ins.args[1]))
            r = None
            if x is not None and y is not None:
                x, y = S.a.norm(x), S.a.norm(y)
                if op == 'shl':
                    if isconst(y) and 0 <= cval(y) < 63:
                        r = scale(x, 1 << int(cval(y)))
                elif isconst(x):
                    r = scale(y, cval(x))
                elif isconst(y):
                    r = scale(x, cval(y))
            self.setnum(S, dst, r)
            return [S]
        if op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr',
                  'freeze', 'trunc'):
            o = A(ins.args[0])
            e = self.val(S, o)
            if e is not None and e[0] == 'q':
                self.setcur(S, dst, *self.cur(S, o))
                return [S]
            if e is not None and e[0] != 'null':
                self.setval(S, dst, e)
                return [S]
            x = self.num(S, o)
            if op == 'trunc' and x is not None and ins.ty.w < 32:
                k = S.known(x)
                top = (1 << ins.ty.w) - 1
                if k is not None:
                    x = const(k & top)
                elif not (S.ge(x) and S.ge(add(const(top), x, -1))):
                    x = None
            if op == 'zext' and x is not None and \
                    (S.known(x) or 0) < 0:
                x = None
            self.setnum(S, dst, x)
            if x is not None and S.known(x) in (0, 1):
                S.keep[dst] = S.known(x)
            return [S]
        if op == 'getelementptr':
            b = self.val(S, A(ins.args[0]))
            idx = [A(o) for _, o in ins.x]
            if b is not None and b[0] == 'p':
                self.c.gep(self, S, b, ins)
            if b is not None and b[0] == 'q':
                obj, f = self.cur(S, A(ins.args[0]))
                y = self.num(S, idx[0]) if len(idx) == 1 else None
                if y is None:
                    self.setval(S, dst, None)
                else:
                    self.setcur(S, dst, obj, add(f, scale(y,
                                                          ins.ty.size())))
                    self.c.moved(self, S, obj, var(dst))
                return [S]
            if b is None or b[0] not in ('p', 'n'):
                x = self.num(S, A(ins.args[0]))
                if x is not None and len(idx) == 1:
                    y = self.num(S, idx[0])
                    self.setnum(S, dst, None if y is None else
                                add(x, scale(y, ins.ty.size())))
                else:
                    self.setval(S, dst, None)
                return [S]
            if not isinstance(b[2], int):
                self.setval(S, dst, None)
                return [S]
            off = 0; t = ins.ty; el = None
            for i, x in enumerate(idx):
                k = S.known(self.num(S, x)) if self.num(S, x) is not None \
                    else None
                if i > 0:
                    if t.k == 'struct':
                        off += t.offs()[k]; t = t.fields[k]
                        continue
                    t = t.el
                if k is not None:
                    off += k * t.size()
                elif el is None:
                    fx = self.num(S, x)
                    if fx is None:
                        self.setval(S, dst, None)
                        return [S]
                    v = 'ix@' + dst
                    S.a.assign(v, S.a.norm(fx))
                    el = (t.size(), v)
                else:
                    self.setval(S, dst, None)
                    return [S]
            if el is None:
                self.setval(S, dst, ('p', b[1], b[2] + off))
            else:
                self.setval(S, dst, ('p', b[1], (b[2] + off,) + el))
            return [S]
        if op in ('and', 'or', 'xor'):
            ox, oy = A(ins.args[0]), A(ins.args[1])
            ex, ey = self.val(S, ox), self.val(S, oy)
            x, y = self.num(S, ox), self.num(S, oy)
            for e, f in ((ex, y), (ey, x)):
                if e and e[0] == 'bit' and f is not None and \
                        S.known(f) is not None:
                    k = S.known(f)
                    if op == 'xor' and k in (0, 1):
                        self.setval(S, dst, ('bit', e[1], e[2] ^ k))
                        return [S]
                    if op == 'and' and k & 1:
                        self.setval(S, dst, e)
                        return [S]
            i = S.known(x) if x is not None else None
            j = S.known(y) if y is not None else None
            if i is not None and j is not None:
                r = {'and': i & j, 'or': i | j, 'xor': i ^ j}[op]
                self.setnum(S, dst, const(r))
                S.keep[dst] = r
                if r not in (0, 1, -1):
                    S.keep.pop(dst, None)
                return [S]
            if op == 'and' and (i is None) != (j is None):
                r = self.c.mask(self, S, y if j is None else x,
                                i if j is None else j, dst)
                if r is not None:
                    return r
            r = self.c.arith(self, S, ins, x, y)
            self.setnum(S, dst, r)
            for k in (i, j):
                if op == 'and' and r is None and k is not None and k >= 0:
                    S.a.add_ge(var(dst))
                    S.a.add_ge(add(const(k), var(dst), -1))
            return [S]
        if op == 'select':
            c, x, y = A(ins.args[0]), A(ins.args[1]), A(ins.args[2])
            out = []
            for v, o in ((1, x), (0, y)):
                b = S.copy()
                if not self.force(b, c, v):
                    continue
                e = self.val(b, o)
                if e is not None and e[0] == 'q':
                    self.setcur(b, dst, *self.cur(b, o))
                elif e is not None:
                    self.setval(b, dst, e)
                else:
                    fm = self.num(b, o)
                    self.setnum(b, dst, fm)
                    if fm is not None and b.known(fm) in (-1, 0, 1):
                        b.keep[dst] = b.known(fm)
                out.append(b)
            return out
        if op == 'icmp':
            return self.icmp(ins, A, S, dst)
        if dst:
            r = self.c.arith(self, S, ins,
                             *[self.num(S, A(o)) for o in ins.args[:2]]) \
                if len(ins.args) == 2 else None
            self.setnum(S, dst, r)
        return [S]

    def icmp(self, ins, A, S, dst):
        pred = ins.x
        ox, oy = A(ins.args[0]), A(ins.args[1])
        ex, ey = self.val(S, ox), self.val(S, oy)
        out = []

        def res(b, v):
            b.env.pop(dst, None)
            b.a.assign(dst, const(v))
            b.keep[dst] = v
            out.append(b)
        yes, no = (1, 0) if pred == 'eq' else (0, 1)
        if pred in ('eq', 'ne'):
            for e, g in ((ex, ey), (ey, ex)):
                if e is not None and e[0] in ('p', 'q') and \
                        g == ('null',):
                    res(S, no)
                    return out
                if e is not None and e[0] == 'bit':
                    og = oy if e is ex else ox
                    f = self.num(S, og)
                    k = S.known(f) if f is not None else None
                    if g is not None and g[0] == 'bit':
                        # two bits compared
                        for v in (0, 1):
                            for w in (0, 1):
                                b = S.copy()
                                if b.setbit(e, v) and b.setbit(g, w):
                                    self.c.compared(self, b, e, g, v == w,
                                                    self.m.locstr(ins.loc))
                                    res(b, yes if v == w else no)
                        return out
                    if k is not None:
                        for v in (0, 1):
                            b = S.copy()
                            if b.setbit(e, v):
                                res(b, yes if v == k else no)
                        return out
            if ex is not None and ey is not None and ex[0] == ey[0] == 'p' \
                    and ex[2] == ey[2] == 0:
                if ex == ey:
                    res(S, yes)
                    return out
                if ex[1][:2] in ('H:', 'G:', 'A:') or \
                        ey[1][:2] in ('H:', 'G:', 'A:'):
                    res(S, no)
                    return out
            if ex == ('null',) and ey == ('null',):
                res(S, yes)
                return out
        x, y = self.num(S, ox), self.num(S, oy)
        cx, cy = self.cur(S, ox), self.cur(S, oy)
        if cx is not None and cy is not None and cx[0] == cy[0]:
            x, y = cx[1], cy[1]
        if x is None or y is None:
            res(S.copy(), 0); res(S.copy(), 1)
            return out
        nx, ny = S.a.norm(x), S.a.norm(y)
        d = add(nx, ny, -1)
        if pred in ('eq', 'ne'):
            ok = not (S.a.entails(add(d, const(-1))) or
                      S.a.entails(add(scale(d, -1), const(-1))))
            b = S.copy()
            if ok and not (isconst(ny) and self.c.excluded(
                    self, S, nx, int(cval(ny)))) and b.a.add_eq(d):
                res(b, yes)
            if d:
                b = S.copy(); ok = True
                if not isconst(d):
                    if S.a.entails(d):
                        ok = b.a.add_ge(add(d, const(-1)))
                    elif S.a.entails(scale(d, -1)):
                        ok = b.a.add_ge(add(scale(d, -1), const(-1)))
                    elif isconst(ny):
                        self.c.differs(self, b, nx, int(cval(ny)))
                if ok:
                    res(b, no)
            return out
        if pred[0] == 'u' and any(isconst(f) and cval(f) < 0
                                  for f in (nx, ny)):
            res(S.copy(), 0); res(S.copy(), 1)
            return out
        neg = scale(d, -1)
        T = {'gt': add(d, const(-1)), 'ge': d,
             'lt': add(neg, const(-1)), 'le': neg}[pred[1:]]
        Fa = add(scale(T, -1), const(-1))
        # the smaller of two unsigned numbers is one without wrapping
        lo = ny if pred[1] == 'g' else nx
        hi = nx if pred[1] == 'g' else ny
        for g, v, z in ((T, 1, lo), (Fa, 0, hi)):
            b = S.copy()
            if b.a.add_ge(g) and (pred[0] != 'u' or isconst(z) or
                                  b.a.add_ge(z)) and \
                    self.c.feasible(self, b):
                res(b, v)
        return out

    # -------------------------------------------------------------- memory

    def load(self, ins, o, S, dst):
        q = self.cur(S, o)
        if q is not None:
            self.setval(S, dst, None)
            return self.c.load_cur(self, S, ins, q[0], q[1], dst)
        p = self.ptr(S, o)
        if p is None:
            r = self.c.load_unknown(self, S, ins, o, dst)
            if r is not None:
                return r
            self.setval(S, dst, None)
            return [S]
        obj, off = p
        if isinstance(off, int):
            el = self.c.array_at(obj, off)
            if el is not None:
                S.a.assign('ix@' + dst, const((off - el[0]) // el[1]))
                off = el + ('ix@' + dst,)
        if not isinstance(off, int):
            return self.c.load_elem(self, S, ins, obj, off, dst)
        if (obj, off) in S.mem:
            e = S.mem[(obj, off)]
            if e[0] == 'q':
                self.setcur(S, dst, e[1], var(S.cell(obj, off)))
            else:
                self.setval(S, dst, e)
            return [S]
        if ins.ty.k == 'ptr':
            return self.c.load_ptr(self, S, ins, obj, off, dst)
        r = self.c.load_int(self, S, ins, obj, off, dst)
        if r is not None:
            return r
        self.setnum(S, dst, var(S.cell(obj, off)))
        return [S]

    def fresh_ptr(self, S, obj, off, dst, kind='D:'):
        """A pointer nothing is known about, read from (obj, off)."""
        new = kind + dst
        if mentions(obj, new):
            new = kind + dst + "'"
        # facts about the object read from may be needed: the client sets
        # the attributes of `new' after this reset
        S.reset(new)
        S.mem[(obj, off)] = ('p', new, 0)
        self.setval(S, dst, ('p', new, 0))
        return new

    def store(self, ins, v, o, S):
        p = self.ptr(S, o)
        e = self.val(S, v)
        q = self.cur(S, o)
        if q is not None:
            self.c.store_cur(self, S, ins, v, q[0], q[1])
            return [S]
        if p is None:
            self.c.store_unknown(self, S, ins, v, o)
            return [S]
        obj, off = p
        if isinstance(off, int):
            el = self.c.array_at(obj, off)
            if el is not None:
                S.a.assign('ix@st', const((off - el[0]) // el[1]))
                off = el + ('ix@st',)
        if not isinstance(off, int):
            self.c.store_elem(self, S, ins, obj, off, v)
            return [S]
        self.c.stored(self, S, ins, obj, off, v)
        S.mem.pop((obj, off), None)
        if e is not None:
            S.a.forget(S.cell(obj, off))
            S.mem[(obj, off)] = e
            if e[0] == 'q':
                S.a.assign(S.cell(obj, off),
                           S.a.norm(self.cur(S, v)[1]))
        else:
            f = self.num(S, v)
            S.a.assign(S.cell(obj, off), None if f is None
                       else S.a.norm(f))
        return [S]

    def copy(self, S, d, s, n):
        """memcpy of n bytes between two objects."""
        tmp = {}
        for o in self.c.copy_cells(d, s, n):
            tmp[o] = S.a.norm(var(S.cell(s[0], s[1] + o)))
        mm = {k[1] - s[1]: v for k, v in S.mem.items() if k[0] == s[0] and
              isinstance(k[1], int) and s[1] <= k[1] < s[1] + n}
        for o, f in tmp.items():
            S.a.add_eq(add(var('cp%d' % o), f, -1))
        S.forget_cells(d[0], d[1], d[1] + n)
        for o in tmp:
            S.a.add_eq(add(var(S.cell(d[0], d[1] + o)), var('cp%d' % o),
                           -1))
        for o in tmp:
            S.a.forget('cp%d' % o)
        for o, v in mm.items():
            S.mem[(d[0], d[1] + o)] = v

    def call(self, ins, pre, sub, S, dst):
        name = base(ins.x[1:]) if ins.x[0] == '@' else None
        args = [self.f.op(o, pre, sub) for _, o in ins.args]
        if name and name.startswith('llvm.dbg'):
            return [S]
        self.sites += 1
        loc = self.m.locstr(ins.loc)
        if name is None:
            raise AnalysisBroken('indirect call at ' + loc)
        r = self.c.call(self, S, name, args, dst, loc, ins)
        if r is not None:
            return r
        if name in NORET or self.noreturn(ins.x[1:]):
            return []
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') \
                or name.startswith('llvm.memmove'):
            d, s = self.ptr(S, args[0]), self.ptr(S, args[1])
            n = self.num(S, args[2]); k = S.known(n) if n is not None \
                else None
            sv = self.val(S, args[0])
            self.c.copied(self, S, d, s, n, loc, args)
            if d is not None and isinstance(d[1], int):
                if s is not None and isinstance(s[1], int) and \
                        k is not None:
                    self.copy(S, d, s, k)
                else:
                    S.forget_cells(d[0], d[1], d[1] + (
                        k if k is not None else
                        self.c.extent(self, d[0], d[1])))
            if dst:
                self.setval(S, dst, sv)
            return [S]
        if name.startswith('llvm.memset') or name == 'memset':
            d = self.ptr(S, args[0])
            n = self.num(S, args[2]); k = S.known(n) if n is not None \
                else None
            if d is not None and isinstance(d[1], int):
                self.c.zeroed(self, S, d, k, self.num(S, args[1]), loc)
                S.forget_cells(d[0], d[1], d[1] + k if k is not None
                               else 1 << 60)
                if k is not None and self.num(S, args[1]) == {}:
                    offs = self.c.fields(self, d[0], d[1], k)
                    for o in offs:
                        S.a.add_eq(var(S.cell(d[0], d[1] + o)))
            if dst:
                self.setval(S, dst, self.val(S, args[0]))
            return [S]
        if name in ALLOC:
            new = 'H:' + dst
            S.reset(new)
            self.setval(S, dst, ('p', new, 0))
            return [S]
        for o in args:
            p = self.ptr(S, o)
            if p is not None and not self.c.pure(name):
                S.forget_cells(p[0])
        if dst:
            self.setval(S, dst, None)
        return [S]

    def noreturn(self, name):
        g = self.m.funcs.get(name)
        return bool(g and g.blocks) and not any(
            b.term.op == 'ret' for b in g.blocks.values())


class Client:
    """Default hooks."""
    keep_dead = False      # values 0/1 of dead registers stay distinct
    drop_bits = False      # bits no register holds are forgotten
    weak = False           # keep inequalities which hold up to a constant
    split_phis = False     # merged values stay apart by where they come from

    cursors = ()           # objects which pointers move through
    keep_ret = 1           # results up to this stay apart

    def compared(self, R, S, e, g, equal, loc): pass
    def feasible(self, R, S): return True
    def moved(self, R, S, obj, f): pass
    def phied(self, R, S, obj, dst): pass
    def array_at(self, obj, off): return None
    def store_cur(self, R, S, ins, v, obj, f): pass

    def load_cur(self, R, S, ins, obj, f, dst):
        return [S]

    def start(self, R, S, fn): pass
    def templates(self, R, tgt): return []
    def edge(self, R, S, lab): pass
    def notin(self, R, S, o, vals): pass
    def excluded(self, R, S, f, v): return False
    def differs(self, R, S, f, v): pass
    def arith(self, R, S, ins, x, y): return None
    def mask(self, R, S, x, k, dst): return None
    def gep(self, R, S, b, ins): pass

    def load_unknown(self, R, S, ins, o, dst): return None

    def load_elem(self, R, S, ins, obj, off, dst):
        R.setval(S, dst, None)
        return [S]

    def load_ptr(self, R, S, ins, obj, off, dst):
        R.fresh_ptr(S, obj, off, dst)
        return [S]

    def load_int(self, R, S, ins, obj, off, dst): return None
    def store_unknown(self, R, S, ins, v, o): pass
    def store_elem(self, R, S, ins, obj, off, v): pass
    def stored(self, R, S, ins, obj, off, v): pass
    def call(self, R, S, name, args, dst, loc, ins): return None
    def copied(self, R, S, d, s, n, loc, args): pass
    def zeroed(self, R, S, d, k, v, loc): pass
    def fields(self, R, obj, off, k):
        return range(0, k, 4) if k <= 64 else []

    def copy_cells(self, d, s, n):
        return range(0, min(n, 64), 4)

    def pure(self, name): return False
    def extent(self, R, obj, off): return 1 << 60
    def ret(self, R, S, o, loc): pass

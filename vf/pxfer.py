"""C21: short and interrupted transfers.

Affine-equality analysis (Karr) of every function which calls read / write /
pread / pwrite.  Ghost variables count the bytes transferred so far (T), the
last result (N) and the last request (CNT); every call has the outcomes some
bytes / end of file / interrupted / try again / error.
"""
from fractions import Fraction as Fr
from . import ir
from .eng import AnalysisBroken

XFER = {'read': (0, 1, 2, None), 'write': (0, 1, 2, None),
        'pread': (0, 1, 2, 3), 'pwrite': (0, 1, 2, 3),
        'pread64': (0, 1, 2, 3), 'pwrite64': (0, 1, 2, 3)}
OTHER = {'readv', 'writev', 'preadv', 'pwritev', 'fread', 'fwrite', 'sendfile',
         'copy_file_range', 'splice'}
EINTR, EAGAIN = 4, 11
ONE = '1'                                   # the constant column


def add(a, b, k=1):
    r = dict(a)
    for v, c in b.items():
        c = r.get(v, 0) + k * c
        if c:
            r[v] = c if type(c) is int or c.denominator != 1 else int(c)
        else:
            r.pop(v, None)
    return r


def scale(a, k):
    if not k:
        return {}
    if type(k) is not int and k.denominator == 1:
        k = int(k)
    r = {}
    for v, c in a.items():
        c *= k
        r[v] = c if type(c) is int or c.denominator != 1 else int(c)
    return r


def const(c):
    return {ONE: c} if c else {}


def var(v):
    return {v: 1}


def split(f):
    """The part without the constant (hashable), and the constant."""
    if ONE in f:
        return frozenset(x for x in f.items() if x[0] != ONE), f[ONE]
    return frozenset(f.items()), 0


def isconst(f):
    return not f or set(f) == {ONE}


def cval(f):
    return f.get(ONE, 0)


GHOST = ('T', 'N', 'CNT', 'E')


def order(v):
    """Variables with a higher order are eliminated first."""
    if v == ONE:
        return (0, v)
    if v[0] == 'P':
        return (1, v)
    if v in GHOST:
        return (2, v)
    return (3, v)


class Aff:
    """Equalities in solved form and a few inequalities (forms >= 0)."""
    __slots__ = ('eq', 'ge')

    def __init__(self, eq=None, ge=None):
        self.eq = eq or {}
        self.ge = ge or []

    def copy(self):
        return Aff(dict(self.eq), list(self.ge))

    def norm(self, f):
        eq = self.eq
        for v in f:
            if v in eq:
                break
        else:
            return f
        r = {}
        for v, c in f.items():
            if v in self.eq:
                r = add(r, self.eq[v], c)
            else:
                r = add(r, {v: c})
        return r

    def add_eq(self, f):
        """f = 0; False if impossible."""
        f = self.norm(f)
        if not f:
            return True
        if isconst(f):
            return False
        p = max((v for v in f if v != ONE), key=order)
        rhs = scale({v: c for v, c in f.items() if v != p}, Fr(-1) / f[p])
        for q in list(self.eq):
            if p in self.eq[q]:
                c = self.eq[q][p]
                self.eq[q] = add({v: k for v, k in self.eq[q].items()
                                  if v != p}, rhs, c)
        self.eq[p] = rhs
        return True

    def forget(self, v):
        self.ge = [self.norm(g) for g in self.ge]
        if v in self.eq:
            del self.eq[v]
        else:
            hit = [q for q in self.eq if v in self.eq[q]]
            if hit:
                q = max(hit, key=order)
                row = self.eq.pop(q)
                # q = row  ->  v = (q - rest) / c
                c = row[v]
                sol = scale(add({q: 1},
                                {x: k for x, k in row.items() if x != v},
                                -1), Fr(1) / c)
                for w in list(self.eq):
                    if v in self.eq[w]:
                        k = self.eq[w][v]
                        self.eq[w] = add({x: y for x, y in
                                          self.eq[w].items() if x != v},
                                         sol, k)
                ng = []
                for g in self.ge:
                    if v in g:
                        k = g[v]
                        g = add({x: y for x, y in g.items() if x != v},
                                sol, k)
                    ng.append(g)
                self.ge = ng
        self.ge = [g for g in self.ge if v not in g]

    def assign(self, v, f):
        if f is None:
            self.forget(v)
            return
        if f == {v: 1}:
            return
        if v in f:
            self.add_eq(add(var('tmp'), f, -1))
            self.forget(v)
            self.add_eq(add(var(v), var('tmp'), -1))
            self.forget('tmp')
        else:
            self.forget(v)
            self.add_eq(add(var(v), f, -1))

    def entails(self, f, extra=()):
        f = self.norm(f)
        if isconst(f):
            return cval(f) >= 0
        tab = {}
        gs = []
        for g in (self.ge + list(extra)) if extra else self.ge:
            g = self.norm(g)
            if not g:
                continue
            k, c = split(g)
            if not k:
                continue
            gs.append(g)
            if k not in tab or c < tab[k]:
                tab[k] = c
        k, c = split(f)
        if k in tab and c >= tab[k]:
            return True
        for g in gs:
            k, c = split(add(f, g, -1))
            if k in tab and c >= tab[k]:
                return True
        return False

    def low(self, f):
        """the greatest b such that f >= b is known, or None"""
        f = self.norm(f)
        k, c = split(f)
        if not k:
            return c
        best = None
        for g in self.ge:
            kk, d = split(self.norm(g))
            if kk == k and (best is None or c - d > best):
                best = c - d
        return best

    def add_ge(self, f, extra=()):
        f = self.norm(f)
        if isconst(f):
            return cval(f) >= 0
        neg = scale(f, -1)
        if self.entails(add(neg, const(-1)), extra):
            return False
        if self.entails(neg, extra):
            return self.add_eq(f)
        keep = []
        for g in self.ge:
            d = add(f, g, -1)
            if isconst(d):
                if cval(d) >= 0:
                    return True
                continue                # implied by the new one
            keep.append(g)
        self.ge = keep + [f]
        return True


def echelon(rows):
    out = []
    for r in rows:
        for p, row in out:
            if p in r:
                r = add(r, row, -r[p])
        if not r:
            continue
        p = max(r, key=order)
        r = scale(r, Fr(1) / r[p])
        out = [(q, add(w, r, -w[p]) if p in w else w) for q, w in out]
        out.append((p, r))
    return out


def join(a, b, extra, templates, weak=False):
    """The affine hull (Zassenhaus on the row spaces)."""
    if a.eq == b.eq:
        eq = dict(a.eq)
    else:
        # eliminate a's rows against b's: rows (x | x) and (y | 0)
        ra = [add(var(v), f, -1) for v, f in a.eq.items()]
        rb = [add(var(v), f, -1) for v, f in b.eq.items()]
        rows = []
        for x in ra:
            r = {('L', v): c for v, c in x.items()}
            r.update({('R', v): c for v, c in x.items()})
            rows.append(r)
        for x in rb:
            rows.append({('L', v): c for v, c in x.items()})
        out = []

        def ordz(t):
            return (1 if t[0] == 'L' else 0, order(t[1]))
        for r in rows:
            for p, row in out:
                if p in r:
                    r = add(r, row, -r[p])
            if not r:
                continue
            p = max(r, key=ordz)
            r = scale(r, Fr(1) / r[p])
            out = [(q, add(w, r, -w[p]) if p in w else w) for q, w in out]
            out.append((p, r))
        n = Aff()
        for p, r in out:
            if p[0] == 'R':
                n.add_eq({v[1]: c for v, c in r.items()})
        eq = n.eq
    j = Aff(eq, [])
    for x, y in ((a, b), (b, a)):
        for g in x.ge:
            if y.entails(g, extra):
                g = j.norm(g)
                if not isconst(g) and g not in j.ge:
                    j.ge.append(g)
    if weak:
        # what holds on both sides up to a constant
        for x, y in ((a, b), (b, a)):
            for g in x.ge:
                lo = y.low(g)
                if lo is not None and lo < 0:
                    lx = x.low(g)
                    if lx is not None:
                        g = j.norm(add(g, const(-min(lo, lx))))
                        if not isconst(g) and g not in j.ge:
                            j.ge.append(g)
        # inequalities through equalities which only one side has
        for x, y in ((a, b), (b, a)) if weak is not True else ():
            lost = [add(var(v), f, -1) for v, f in x.eq.items()
                    if weak == 2 or v in weak or
                    any(w in weak for w in f)]
            lost = [e for e in lost if j.norm(e)]
            if len(lost) > 12:
                continue
            for e in lost:
                for g in x.ge + [{}]:
                    for k in (1, -1):
                        h = add(g, e, k)
                        if weak != 2 and g and not any(v not in h for v in e
                                         if v != ONE):
                            continue        # nothing is eliminated
                        h = j.norm(h)
                        if not isconst(h) and h not in j.ge and \
                                y.entails(h, extra) and not j.entails(h):
                            j.ge.append(h)
    for g in templates:
        if a.entails(g, extra) and b.entails(g, extra):
            g = j.norm(g)
            if not isconst(g) and g not in j.ge:
                j.ge.append(g)
    return j


def same(a, b):
    return a.eq == b.eq and sorted(map(repr, a.ge)) == sorted(map(repr, b.ge))


# ------------------------------------------------------------------ inliner

class Flat:
    """A function with the callees that transfer data expanded in place."""

    def __init__(self, m, name, expand, depth=4):
        self.m = m
        self.root = name
        self.blocks = {}          # label -> (phis, insts, succ term)
        self.n = 0
        self.alloca = set()
        self.rets = 'ret'
        self.fns = set()
        f = m.funcs[name]
        self.params = [nm for ty, nm in f.params]
        self.entry = self.expand(f, 'f', {}, expand, depth, None)
        self.liveness()

    def liveness(self):
        use, dfn, succ = {}, {}, {}
        self.phiuse = {}
        self.counts = set()
        al = set()
        for lab, (phis, insts, term, src) in self.blocks.items():
            u, d = set(), set()
            for dst, inc in phis:
                d.add(dst)
                for o, s in inc:
                    if o[0] == 'v':
                        self.phiuse.setdefault((lab, s), set()).add(o[1])
            for ins, pre, sub in insts:
                ops = [o for _, o in ins.args] if ins.op == 'call' else \
                    list(ins.args)
                if ins.op == 'getelementptr':
                    ops += [o for _, o in ins.x]
                ops = [self.op(o, pre, sub) for o in ops]
                for o in ops:
                    if o[0] == 'v' and o[1] not in d:
                        u.add(o[1])
                if ins.op == 'call' and ins.x[1:] in XFER:
                    c = ops[2]
                    if c[0] == 'v':
                        self.counts.add(c[1])
                if ins.op == 'alloca':
                    al.add(pre + ins.dst)
                if ins.dst:
                    d.add(pre + ins.dst)
            if term[0] == 'jmp':
                succ[lab] = [term[1]]
            else:
                _, t, pre, sub, cont = term
                for o in t.args:
                    o = self.op(o, pre, sub)
                    if o[0] == 'v' and o[1] not in d:
                        u.add(o[1])
                if t.op == 'br':
                    succ[lab] = [pre + ':' + x for x in t.x]
                elif t.op == 'switch':
                    succ[lab] = [pre + ':' + x for x in
                                 [t.x[0]] + [y for _, y in t.x[1]]]
                elif t.op == 'ret' and cont is not None:
                    succ[lab] = [cont[0]]
                    if cont[1]:
                        d.add(cont[1])
                else:
                    succ[lab] = []
            use[lab], dfn[lab] = u, d
        live = {lab: set() for lab in self.blocks}
        ch = True
        while ch:
            ch = False
            for lab in self.blocks:
                out = set()
                for t in succ[lab]:
                    out |= live[t]
                    out |= self.phiuse.get((t, self.blocks[lab][3]), set())
                n = use[lab] | (out - dfn[lab])
                n |= {p for p, _ in self.blocks[lab][0]}
                if n != live[lab]:
                    live[lab] = n; ch = True
        self.succ = succ
        self.live = {lab: v | al for lab, v in live.items()}

    def expand(self, f, pre, sub, exp, depth, cont):
        """cont: (label to continue at, register for the result) or None."""
        self.fns.add(f.name)
        for bn in f.order:
            b = f.blocks[bn]
            lab = pre + ':' + bn
            phis = [(pre + p.dst,
                     [(self.op(o, pre, sub), pre + ':' + src)
                      for o, src in p.x]) for p in b.phis]
            cur = lab; insts = []; first = phis
            for ins in b.insts:
                if ins.op == 'call' and isinstance(ins.x, str) and \
                        depth > 0 and \
                        self.wanted(ins.x[1:], exp, f.name):
                    self.n += 1
                    np = '%s.%d' % (pre, self.n)
                    g = self.m.funcs[ins.x[1:]]
                    ns = {}
                    for (_, pp), (ty, o) in zip(g.params, ins.args):
                        ns[pp] = self.op(o, pre, sub)
                    after = '%s:%s' % (np, 'after')
                    e = self.expand(g, np, ns, exp, depth - 1, (
                        after, pre + ins.dst if ins.dst else None))
                    self.blocks[cur] = (first, insts, ('jmp', e), lab)
                    cur, insts, first = after, [], []
                    continue
                insts.append((ins, pre, sub))
            self.blocks[cur] = (first, insts, ('term', b.term, pre, sub,
                                               cont), lab)
        ent = f.order[0]
        return pre + ':' + ent

    def wanted(self, name, exp, inside):
        g = self.m.funcs.get(name)
        if g is None or not g.blocks or name == inside:
            return False
        return name in exp or (g.internal and len(g.blocks) <= 40)

    def op(self, o, pre, sub):
        if isinstance(o, tuple) and o and o[0] == 'r':
            if o[1] in sub:
                return sub[o[1]]
            return ('v', pre + o[1])
        return o


class Karr:
    LIMIT = 400000

    def __init__(self, flat, L0, P, POS, FD):
        self.f = flat; self.m = flat.m
        self.L0, self.P, self.POS, self.FD = L0, P, POS, FD
        self.bad = {}
        self.sites = set()
        self.steps = 0
        self.always = [add(var(L0), var('T'), -1)]
        self.addrs = set()
        self.errp = set()
        self.obl = set()

    def report(self, loc, what):
        self.bad.setdefault((loc, what), 1)

    def form(self, o):
        if o[0] == 'i':
            c = o[1]
            return const(c)
        if o[0] == 'null':
            return {}
        if o[0] == 'v':
            return var(o[1])
        if o[0] == 'P':
            return var(o[0] + ':' + o[1])
        return None

    def operand(self, o, pre, sub):
        o = self.f.op(o, pre, sub)
        if o[0] == 'v' and o[1].startswith('f%') and \
                o[1][1:] in self.f.params:
            return ('P', o[1][1:])
        return o

    def run(self):
        f = self.f
        A = Aff()
        A.add_eq(var('T'))
        # label -> {key: Aff}
        self.st = {f.entry: {('none', ()): A}}
        work = [f.entry]
        while work:
            lab = work.pop(0)
            for tgt, src, key, a in self.block(lab, dict(self.st[lab])):
                if self.merge(tgt, key, a) and tgt not in work:
                    work.append(tgt)
            if self.steps > self.LIMIT:
                raise AnalysisBroken('transfer analysis of %s does not '
                                     'finish' % f.root)
        return self.bad

    def merge(self, tgt, key, a):
        d = self.st.setdefault(tgt, {})
        if len(d) > 60:
            key = (key[0], ())
        if key not in d:
            d[key] = a
            return True
        extra = self.always
        tm = [add(self.always[0], var(p), -1)
              for p, _ in self.f.blocks[tgt][0]]
        tm += [add(self.always[0], var(v), -1)
               for v in self.addrs | (self.f.counts & self.f.live[tgt])]
        n = join(d[key], a, extra, tm)
        if same(n, d[key]):
            return False
        d[key] = n
        return True

    def go(self, lab, src, states):
        """Take the edge src -> lab (phis), and key the states."""
        phis = self.f.blocks[lab][0]
        out = []
        for last, keep, a in states:
            a = a.copy()
            vals = []
            for dst, inc in phis:
                o = [o for o, s in inc if s == src]
                if not o:
                    raise AnalysisBroken('phi without edge')
                o = o[0]
                if o[0] == 'v' and o[1].startswith('f%') and \
                        o[1][1:] in self.f.params:
                    o = ('P', o[1][1:])
                fm = self.form(o)
                vals.append((dst, None if fm is None else a.norm(fm)))
            tmp = []
            for i, (dst, fm) in enumerate(vals):
                if fm is None:
                    continue
                a.add_eq(add(var('phi%d' % i), fm, -1))
            for i, (dst, fm) in enumerate(vals):
                a.forget(dst)
            for i, (dst, fm) in enumerate(vals):
                if fm is None:
                    continue
                a.add_eq(add(var(dst), var('phi%d' % i), -1))
            for i, (dst, fm) in enumerate(vals):
                a.forget('phi%d' % i)
            live = self.f.live[lab]
            for v in [v for v in list(a.eq) + [x for r in a.eq.values()
                                               for x in r]
                      if v[0] == 'f' and v not in live]:
                a.forget(v)
            ks = {k: v for k, v in keep if k in live}
            for dst, fm in vals:
                ks.pop(dst, None)
                if fm is not None and isconst(fm) and \
                        cval(fm) in (-1, 0, 1):
                    ks[dst] = int(cval(fm))
            out.append((lab, src, (last, tuple(sorted(ks.items()))), a))
        return out

    def block(self, lab, init):
        phis, insts, term, src = self.f.blocks[lab]
        states = [(k[0], k[1], a.copy()) for k, a in init.items()]
        for ins, pre, sub in insts:
            nxt = []
            for s in states:
                self.steps += 1
                nxt += self.inst(ins, pre, sub, *s)
            states = nxt
            if not states:
                return []
        if term[0] == 'jmp':
            return self.go(term[1], src, states)
        _, t, pre, sub, cont = term
        if t.op == 'br':
            if len(t.x) == 1:
                return self.go(pre + ':' + t.x[0], src, states)
            o = self.operand(t.args[0], pre, sub)
            out = []
            for last, keep, a in states:
                fm = self.form(o)
                c = a.norm(fm) if fm is not None else None
                if c is not None and isconst(c):
                    i = 0 if cval(c) else 1
                    out += self.go(pre + ':' + t.x[i], src,
                                   [(last, keep, a)])
                else:
                    for i in (0, 1):
                        b = a.copy()
                        if fm is not None and not b.add_eq(
                                add(fm, const(1 - i), -1)):
                            continue
                        out += self.go(pre + ':' + t.x[i], src,
                                       [(last, keep, b)])
            return out
        if t.op == 'switch':
            o = self.operand(t.args[0], pre, sub)
            fm = self.form(o)
            out = []
            dflt, cases = t.x
            for last, keep, a in states:
                c = a.norm(fm) if fm is not None else None
                if c is not None and isconst(c):
                    tg = dflt
                    for v, lb in cases:
                        if v == cval(c):
                            tg = lb
                    out += self.go(pre + ':' + tg, src, [(last, keep, a)])
                    continue
                for v, lb in cases:
                    b = a.copy()
                    if fm is not None and not self.eq_ok(b, last, fm, v):
                        continue
                    out += self.go(pre + ':' + lb, src, [(last, keep, b)])
                out += self.go(pre + ':' + dflt, src, [(last, keep, a)])
            return out
        if t.op == 'ret':
            if cont is not None:
                lab2, dst = cont
                out = []
                o = self.operand(t.args[0], pre, sub) if t.args else None
                for last, keep, a in states:
                    a = a.copy()
                    if dst is not None:
                        fm = self.form(o) if o is not None else None
                        a.assign(dst, None if fm is None else a.norm(fm))
                    k = dict(keep)
                    if dst:
                        k.pop(dst, None)
                        c = a.norm(var(dst))
                        if isconst(c) and cval(c) in (-1, 0, 1):
                            k[dst] = int(cval(c))
                    out.append((lab2, src, (last, tuple(sorted(k.items()))),
                                a))
                return out
            o = self.operand(t.args[0], pre, sub) if t.args else None
            for last, keep, a in states:
                self.ret(t, last, a, o)
            return []
        if t.op == 'unreachable':
            return []
        raise AnalysisBroken('terminator ' + t.op)

    def eq_ok(self, b, last, fm, v):
        c = b.norm(fm)
        if c == var('E') and last == 'error' and v in (EINTR, EAGAIN, 0):
            return False
        return b.add_eq(add(fm, const(v), -1))

    def ret(self, t, last, a, o):
        loc = self.m.locstr(t.loc)
        self.obl.add(('return', loc))
        fm = self.form(o) if o is not None else None
        c = a.norm(fm) if fm is not None else None
        if c is None or not isconst(c):
            if c is not None and a.entails(add(c, const(-1))):
                c = const(1)
            else:
                self.report(loc, 'the result is not success or failure')
                return
        d = a.norm(self.always[0])
        if cval(c) != 0:
            if d:
                self.report(loc, 'success is returned although fewer bytes '
                            'than requested may have been transferred '
                            '(last call: %s)' % last)
        else:
            if last == 'interrupted':
                self.report(loc, 'failure is returned after an interrupted '
                            'call which was not retried')
            elif last in ('some bytes', 'none'):
                self.report(loc, 'failure is returned although no call '
                            'failed and the end was not reached')

    # ------------------------------------------------------- instructions

    def inst(self, ins, pre, sub, last, keep, a):
        op = ins.op
        A = lambda o: self.operand(o, pre, sub)
        F = lambda o: self.form(A(o))
        dst = pre + ins.dst if ins.dst else None
        ret = [(last, keep, a)]
        if dst:
            keep = tuple(x for x in keep if x[0] != dst)
            ret = [(last, keep, a)]

        def setv(fm):
            a.assign(dst, None if fm is None else a.norm(fm))
            return ret
        if op == 'call':
            return self.call(ins, pre, sub, last, keep, a, dst)
        if op == 'alloca':
            self.addrs.add(dst)
            a.forget(dst)
            return ret
        if op == 'load':
            p = A(ins.args[0])
            if p[0] == 'v' and p[1] in self.errp:
                return setv(var('E'))
            if p[0] == 'v' and p[1] in self.addrs:
                return setv(var(p[1]))
            return setv(None)
        if op == 'store':
            v, p = A(ins.args[0]), A(ins.args[1])
            if p[0] == 'v' and p[1] in self.addrs:
                fm = self.form(v)
                a.assign(p[1], None if fm is None else a.norm(fm))
            elif p[0] == 'v' and p[1] in self.errp:
                fm = self.form(v)
                a.assign('E', None if fm is None else a.norm(fm))
            return [(last, keep, a)]
        if op in ('add', 'sub'):
            x, y = F(ins.args[0]), F(ins.args[1])
            if x is None or y is None:
                return setv(None)
            return setv(add(x, y, 1 if op == 'add' else -1))
        if op == 'mul':
            x, y = F(ins.args[0]), F(ins.args[1])
            if x is not None and y is not None:
                x, y = a.norm(x), a.norm(y)
                if isconst(x):
                    return setv(scale(y, cval(x)))
                if isconst(y):
                    return setv(scale(x, cval(y)))
            return setv(None)
        if op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr',
                  'freeze'):
            x = F(ins.args[0])
            if op == 'zext' and x is not None:
                c = a.norm(x)
                if isconst(c) and cval(c) < 0:
                    return setv(None)
            return setv(x)
        if op == 'trunc':
            x = F(ins.args[0])
            if x is not None:
                c = a.norm(x)
                if isconst(c) or (ins.ty.w >= 32 and c == var('N')):
                    return setv(x)
            return setv(None)
        if op == 'getelementptr':
            x = F(ins.args[0])
            if x is None or len(ins.x) != 1:
                return setv(None)
            o = ins.x[0][1]
            y = F(o)
            if y is None:
                return setv(None)
            return setv(add(x, scale(y, ins.ty.size())))
        if op in ('and', 'or', 'xor'):
            x, y = F(ins.args[0]), F(ins.args[1])
            if x is not None and y is not None:
                x, y = a.norm(x), a.norm(y)
                if isconst(x) and isconst(y):
                    i, j = int(cval(x)), int(cval(y))
                    r = {'and': i & j, 'or': i | j, 'xor': i ^ j}[op]
                    return setv(const(r))
            return setv(None)
        if op == 'select':
            c = F(ins.args[0]); c = a.norm(c) if c is not None else None
            x, y = F(ins.args[1]), F(ins.args[2])
            if c is not None and isconst(c):
                return setv(x if cval(c) else y)
            b = a.copy()
            a.assign(dst, None if x is None else a.norm(x))
            b.assign(dst, None if y is None else b.norm(y))
            return [(last, keep, a), (last, keep, b)]
        if op == 'icmp':
            return self.icmp(ins, A, last, keep, a, dst)
        if dst:
            a.forget(dst)
        return ret

    def icmp(self, ins, A, last, keep, a, dst):
        pred = ins.x
        x, y = self.form(A(ins.args[0])), self.form(A(ins.args[1]))
        out = []

        def res(b, v):
            b.assign(dst, const(v))
            k = dict(keep); k[dst] = v
            out.append((last, tuple(sorted(k.items())), b))
        if x is None or y is None:
            res(a.copy(), 0); res(a.copy(), 1)
            return out
        nx, ny = a.norm(x), a.norm(y)
        d = add(nx, ny, -1)
        if pred in ('eq', 'ne'):
            yes, no = (1, 0) if pred == 'eq' else (0, 1)
            b = a.copy()
            ok = True
            for f, g in ((nx, ny), (ny, nx)):
                if f == var('E') and isconst(g) and last == 'error' and \
                        cval(g) in (EINTR, EAGAIN, 0):
                    ok = False
            # a value known positive is not zero, ...
            if ok and (a.entails(add(d, const(-1)), self.always) or
                       a.entails(add(scale(d, -1), const(-1)),
                                 self.always)):
                ok = False
            if ok and b.add_eq(d):
                res(b, yes)
            if d:
                b = a.copy(); ok = True
                if isconst(d):
                    ok = True
                elif a.entails(d, self.always):
                    ok = b.add_ge(add(d, const(-1)), self.always)
                elif a.entails(scale(d, -1), self.always):
                    ok = b.add_ge(add(scale(d, -1), const(-1)),
                                  self.always)
                if ok:
                    res(b, no)
            return out
        if pred[0] == 'u' and any(isconst(f) and cval(f) < 0
                                  for f in (nx, ny)):
            if isconst(nx) and isconst(ny):
                M = 1 << 64
                i, j = int(cval(nx)) % M, int(cval(ny)) % M
                v = {'gt': i > j, 'ge': i >= j, 'lt': i < j,
                     'le': i <= j}[pred[1:]]
                res(a.copy(), int(v))
            elif isconst(nx):       # -1 is larger than any size
                res(a.copy(), int(pred[1] == 'g'))
            else:
                res(a.copy(), int(pred[1] == 'l'))
            return out
        neg = scale(d, -1)
        T = {'gt': add(d, const(-1)), 'ge': d,
             'lt': add(neg, const(-1)), 'le': neg}[pred[1:]]
        Fa = add(scale(T, -1), const(-1))
        b = a.copy()
        if b.add_ge(T, self.always):
            res(b, 1)
        b = a.copy()
        if b.add_ge(Fa, self.always):
            res(b, 0)
        return out

    def call(self, ins, pre, sub, last, keep, a, dst):
        name = ins.x[1:] if ins.x[0] == '@' else None
        if name and name.startswith('llvm.dbg'):
            return [(last, keep, a)]
        if name == '__errno_location':
            self.errp.add(dst)
            return [(last, keep, a)]
        if name in XFER:
            return self.xfer(ins, pre, sub, last, keep, a, dst, name)
        if name in ('abort', 'exit', '_exit', '__assert_fail',
                    'urkel_abort', 'urkel_assert_fail', '__urkel_assert_fail'
                    ) or (name in self.m.funcs and
                          self.noreturn(name)):
            return []
        if not (name and (name.startswith('llvm.') or
                          name.startswith('pthread_'))):
            a.forget('E')
        for ty, o in ins.args:
            o = self.operand(o, pre, sub)
            if o[0] == 'v' and o[1] in self.addrs:
                a.forget(o[1])
        if dst:
            a.forget(dst)
        return [(last, keep, a)]

    def noreturn(self, name):
        g = self.m.funcs[name]
        return bool(g.blocks) and not any(b.term.op == 'ret'
                                          for b in g.blocks.values())

    def xfer(self, ins, pre, sub, last, keep, a, dst, name):
        loc = self.m.locstr(ins.loc)
        fd, buf, cnt, pos = XFER[name]
        self.sites.add((loc, name))
        ar = [self.form(self.operand(o, pre, sub)) for _, o in ins.args]

        def zero(f):
            return f is not None and not a.norm(f)
        self.obl.add(('descriptor', loc)); self.obl.add(('buffer', loc))
        self.obl.add(('count', loc)); self.obl.add(('continue', loc))
        if last in ('end of file', 'error'):
            self.report(loc, '%s is called again after %s' % (
                name, 'the end of the file' if last == 'end of file'
                else 'an error'))
        if ar[fd] is None or not zero(add(ar[fd], var(self.FD), -1)):
            self.report(loc, '%s is not called with the descriptor given'
                        % name)
        if ar[buf] is None or not zero(add(add(ar[buf], var(self.P), -1),
                                           var('T'), -1)):
            self.report(loc, 'the buffer passed to %s is not the start of '
                        'the buffer plus the bytes transferred so far'
                        % name)
        if pos is not None:
            self.obl.add(('offset', loc))
            if self.POS is None or ar[pos] is None or \
                    not zero(add(add(ar[pos], var(self.POS), -1),
                                 var('T'), -1)):
                self.report(loc, 'the offset passed to %s is not the start '
                            'position plus the bytes transferred so far'
                            % name)
        if ar[cnt] is None or not a.entails(
                add(self.always[0], ar[cnt], -1), self.always):
            self.report(loc, 'the count passed to %s may exceed the bytes '
                        'which remain' % name)
        out = []
        c = ar[cnt]
        c = a.norm(c) if c is not None else None
        a.forget('N'); a.forget('E')
        a.assign('CNT', c if c is None else a.norm(c))
        for kind, n, e in (('some bytes', None, None),
                           ('end of file', 0, None),
                           ('interrupted', -1, EINTR),
                           ('try again', -1, EAGAIN), ('error', -1, None)):
            b = a.copy()
            if n is not None:
                b.add_eq(add(var('N'), const(n), -1))
            if dst:
                b.assign(dst, b.norm(var('N')))
            if kind == 'some bytes':
                b.assign('T', add(var('T'), var('N')))
                b.add_ge(add(var('N'), const(-1)), ())
                b.add_ge(add(var('CNT'), var('N'), -1), ())
            if e is not None:
                b.add_eq(add(var('E'), const(e), -1))
            out.append((kind, keep, b))
        return out


# ---------------------------------------------------------------- the check

def blocks_of(f):
    return f.blocks.values()


def analyse(m, name, expand):
    fl = Flat(m, name, expand)
    f = m.funcs[name]
    ptrs, ints = [], []
    for ty, nm in f.params:
        (ptrs if ty.k == 'ptr' else ints).append((nm, ty))
    wide = [n for n, t in ints if t.w >= 64]
    thin = [n for n, t in ints if t.w == 32]
    best = None
    for P, _ in ptrs:
        for L0 in wide or [None]:
            if L0 is None:
                continue
            for POS in [x for x in wide if x != L0] + [None]:
                for FD in thin:
                    k = Karr(fl, 'P:' + L0, 'P:' + P,
                             POS and 'P:' + POS, 'P:' + FD)
                    bad = k.run()
                    if best is None or len(bad) < len(best[0]):
                        best = (bad, k)
                    if not bad:
                        return best
    return best


def c21(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        direct = {}
        callers = {}
        for fn, f in m.funcs.items():
            for b in blocks_of(f):
                for ins in b.insts:
                    if ins.op == 'call' and ins.x[0] == '@':
                        g = ins.x[1:]
                        if g in XFER:
                            direct.setdefault(fn, []).append(ins)
                        elif g in OTHER:
                            raise AnalysisBroken('%s is not modelled' % g)
                        else:
                            callers.setdefault(g, set()).add(fn)
        nsites = 0
        done = {}

        def check(fn, expand, depth):
            key = (fn, frozenset(expand))
            if key not in done:
                done[key] = None
                done[key] = analyse(m, fn, expand)
            r = done[key]
            if r is not None and not r[0]:
                return True, [(fn, r)]
            if depth == 0 or not callers.get(fn):
                return False, [(fn, r)]
            got = []
            for c in sorted(callers[fn]):
                nb = len(list(blocks_of(m.funcs[c])))
                if nb > 60 or c == fn:
                    return False, [(fn, r)]
                ok, rs = check(c, expand | {fn}, depth - 1)
                if not ok:
                    if r is None:
                        return False, rs
                    return False, [(fn, r)] if not rs or not rs[0][1] or \
                        len(rs[0][1][0]) >= len(r[0]) else rs
                got += rs
            return True, got
        for fn in sorted(direct):
            nsites += len(direct[fn])
            res.fns.add(fn)
            ok, rs = check(fn, frozenset(), 3)
            for root, r in rs:
                if r is None:
                    raise AnalysisBroken('%s transfers data and has no '
                                         'buffer and length' % fn)
                k = r[1]
                res.fns |= k.f.fns
                res.nblocks += len(k.f.blocks)
                res.nstates += k.steps
                for kind, loc in k.obl:
                    res.obl[(kind, root, loc)] = 1
                if not ok:
                    for (loc, what) in r[0]:
                        res.viol('transfer', root, loc, what, key=what)
        res.sites += nsites
        res.need('transfer call sites (%s)' % cfg, nsites, 2)
        res.note('functions which transfer data (%s)' % cfg,
                 sorted(direct))
    return res

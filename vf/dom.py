"""Numeric domain: linear expressions over symbols, intervals and linear facts.

An N-bit integer value is represented by a linear expression ("rep") which is
congruent to it modulo 2^N.  Symbols carry global bounds and, per abstract
state, refined bounds; a state also carries linear facts (expr >= 0).
"""
from math import gcd

INF = None


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self._h == o._h and
                             self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def const(self):
        return not self.t

    def add(self, o):
        if not o.t:
            if not o.c:
                return self
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def neg(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, x * k) for s, x in self.t))

    def addc(self, k):
        return Lin(self.c + k, self.t) if k else self

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def subst(self, m):
        """m: sym -> Lin"""
        for s, _ in self.t:
            if s in m:
                break
        else:
            return self
        r = Lin(self.c)
        for s, k in self.t:
            if s in m:
                r = r.add(m[s].mul(k))
            else:
                r = r.add(Lin(0, ((s, k),)))
        return r

    def syms(self):
        return [s for s, _ in self.t]

    def norm(self):
        """divide by the content, flooring the constant (>= 0 facts)"""
        if not self.t:
            return self
        g = 0
        for _, k in self.t:
            g = gcd(g, abs(k))
        if g <= 1:
            return self
        return Lin(self.c // g, tuple((s, k // g) for s, k in self.t))

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = []
        for s, k in self.t:
            n = SYMS[s].name
            out.append(('%+d*' % k if abs(k) != 1 else ('+' if k > 0 else '-'))
                       + n)
        r = ''.join(out)
        if r.startswith('+'):
            r = r[1:]
        if self.c:
            r += '%+d' % self.c
        return r


ZERO = Lin(0)
ONE = Lin(1)


class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'd', 'facts')

    def __init__(self, id, name, lo, hi, d):
        self.id = id; self.name = name; self.lo = lo; self.hi = hi
        self.d = d          # definition (op, args) or None
        self.facts = ()     # linear facts which hold by definition


SYMS = []
TERMS = {}


def new_sym(name, lo, hi, d=None):
    s = Sym(len(SYMS), name, lo, hi, d)
    SYMS.append(s)
    return s


def sym_lin(s):
    return Lin(0, ((s.id if isinstance(s, Sym) else s, 1),))


def term(key, lo, hi, name=None):
    """A symbol determined by `key` (hash-consed)."""
    s = TERMS.get(key)
    if s is None:
        s = new_sym(name or '%s#%d' % (key[0], len(SYMS)), lo, hi, key)
        TERMS[key] = s
    return s


def lin_key(l):
    return l


class Infeasible(Exception):
    pass


class Cond:
    """A condition: kind 'ge' (lin>=0), 'eq', 'ne', 'nul' (object is null),
    'and', 'or', 'unk', or a constant."""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.k, self.a, self.b) == \
            (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a, self.b))

    def __repr__(self):
        return '<%s %r%s>' % (self.k, self.a,
                              '' if self.b is None else ' %r' % (self.b,))


CTRUE = Cond('const', True)
CFALSE = Cond('const', False)


def cnot(c):
    if c.k == 'const':
        return CFALSE if c.a else CTRUE
    if c.k == 'ge':
        return Cond('ge', c.a.neg().addc(-1))
    if c.k == 'eq':
        return Cond('ne', c.a)
    if c.k == 'ne':
        return Cond('eq', c.a)
    if c.k == 'nul':
        return Cond('nnul', c.a)
    if c.k == 'nnul':
        return Cond('nul', c.a)
    if c.k == 'unk':
        return Cond('unkn', c.a)
    if c.k == 'unkn':
        return Cond('unk', c.a)
    if c.k == 'and':
        return Cond('or', cnot(c.a), cnot(c.b))
    if c.k == 'or':
        return Cond('and', cnot(c.a), cnot(c.b))
    raise AssertionError(c.k)


class Num:
    """Numeric part of an abstract state (copy-on-write friendly)."""
    __slots__ = ('iv', 'facts', 'ne', '_cache')

    def __init__(self, iv=None, facts=(), ne=frozenset()):
        self.iv = iv if iv is not None else {}
        self.facts = facts
        self.ne = ne
        self._cache = {}

    def copy(self):
        n = Num(dict(self.iv), self.facts, self.ne)
        n._cache = self._cache      # shared until a fact changes
        return n

    def _dirty(self):
        self._cache = {}

    # ---- intervals
    def sb(self, s):
        r = self.iv.get(s)
        if r is not None:
            return r
        y = SYMS[s]
        return (y.lo, y.hi)

    def bounds(self, l):
        lo = hi = l.c
        iv = self.iv
        for s, k in l.t:
            r = iv.get(s)
            if r is None:
                y = SYMS[s]
                a = y.lo; b = y.hi
            else:
                a, b = r
            if k < 0:
                a, b = b, a
            if lo is not None:
                lo = None if a is None else lo + a * k
            if hi is not None:
                hi = None if b is None else hi + b * k
            if lo is None and hi is None:
                return (None, None)
        return (lo, hi)

    # ---- entailment
    def _rel(self, s):
        """facts mentioning symbol s"""
        key = ('rel', s)
        r = self._cache.get(key)
        if r is None:
            ix = self._cache.get('ix')
            if ix is None:
                ix = self._cache['ix'] = {}
                for f in self.facts:
                    for x, k in f.t:
                        ix.setdefault(x, []).append((f, k))
            r = list(ix.get(s, ()))
            r.extend((f, f.coef(s)) for f in SYMS[s].facts)
            self._cache[key] = r
        return r

    def entails(self, g, depth=5):
        """Is g >= 0 in every concrete state?"""
        lo = self.bounds(g)[0]
        if lo is not None and lo >= 0:
            return True
        if not g.t:
            return g.c >= 0
        g = g.norm()
        c = self._cache
        key = ('ent', g)
        r = c.get(key)
        if r is None:
            r = self._ent(g, depth, set(), [150])
            c[key] = r
        return r

    def _ent(self, g, depth, seen, budget):
        lo = self.bounds(g)[0]
        if lo is not None and lo >= 0:
            return True
        if not g.t or depth == 0 or budget[0] <= 0:
            return False
        if (g in seen):
            return False
        seen.add(g)
        budget[0] -= 1
        for s, k in g.t:
            for f, fk in self._rel(s):
                if (fk > 0) != (k > 0):
                    continue
                # g = (g*fk' - f*k')/..  : eliminate s with positive weights
                a = abs(fk); b = abs(k)
                d = gcd(a, b)
                a //= d; b //= d
                if a > 64 and b > 1:
                    pass
                h = g.mul(a).sub(f.mul(b))
                # g*a = h + f*b ; h >= -(a-1) suffices (integrality)
                if a > 1:
                    h = h.addc(a - 1)
                if self._ent(h.norm(), depth - 1, seen, budget):
                    return True
        return False

    # ---- assume
    def assume_ge(self, f):
        """add f >= 0; raises Infeasible"""
        if not f.t:
            if f.c < 0:
                raise Infeasible()
            return
        f = f.norm()
        lo, hi = self.bounds(f)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            raise Infeasible()
        if len(f.t) == 1:
            self._refine(f)
            self._dirty()
            self._ne_check()
            return
        if f in self.facts:
            return
        if self.entails(f.neg().addc(-1)):
            raise Infeasible()
        self._dirty()
        self.facts = self.facts + (f,)
        self._refine(f)
        # propagate once through the facts which share a symbol
        ss = set(f.syms())
        for g in self.facts:
            for s, _ in g.t:
                if s in ss:
                    self._refine(g)
                    break
        self._ne_check()

    def _refine(self, f):
        """bounds propagation of f >= 0 on each of its symbols"""
        for s, k in f.t:
            rest = Lin(f.c, tuple(x for x in f.t if x[0] != s))
            hi = self.bounds(rest)[1]
            if hi is None:
                continue
            lo0, hi0 = self.sb(s)
            if k > 0:
                # k*s >= -rest >= -hi
                b = -(hi // k)          # ceil(-hi/k)
                if lo0 is None or b > lo0:
                    lo0 = b
                    self.iv[s] = (lo0, hi0)
            else:
                b = hi // (-k)
                if hi0 is None or b < hi0:
                    hi0 = b
                    self.iv[s] = (lo0, hi0)
            if lo0 is not None and hi0 is not None and lo0 > hi0:
                raise Infeasible()

    def assume_eq(self, f):
        if not f.t:
            if f.c:
                raise Infeasible()
            return
        if f in self.ne or f.neg() in self.ne:
            raise Infeasible()
        self.assume_ge(f)
        self.assume_ge(f.neg())

    def assume_ne(self, f):
        if not f.t:
            if not f.c:
                raise Infeasible()
            return
        lo, hi = self.bounds(f)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return
        if lo == 0 and hi == 0:
            raise Infeasible()
        if len(f.t) == 1 and abs(f.t[0][1]) == 1:
            s, k = f.t[0]
            v = -f.c * k
            a, b = self.sb(s)
            if a == v and b == v:
                raise Infeasible()
            if a == v:
                self.iv[s] = (a + 1, b); self._dirty()
                return
            if b == v:
                self.iv[s] = (a, b - 1); self._dirty()
                return
        if self.entails(f):
            self.assume_ge(f.addc(-1))
            return
        if self.entails(f.neg()):
            self.assume_ge(f.neg().addc(-1))
            return
        if f.t[0][1] < 0:
            f = f.neg()
        if len(self.ne) < 40:
            self.ne = self.ne | {f}

    def _ne_check(self):
        for f in self.ne:
            lo, hi = self.bounds(f)
            if lo is None or hi is None:
                continue
            if lo == 0 and hi == 0:
                raise Infeasible()
            if lo > 0 or hi < 0:
                self.ne = self.ne - {f}
            elif lo == 0 or hi == 0:
                self.ne = self.ne - {f}
                if lo == 0:
                    self.assume_ge(f.addc(-1))
                else:
                    self.assume_ge(f.neg().addc(-1))

    def decide(self, c):
        """True/False/None"""
        if c.k == 'const':
            return c.a
        if c.k == 'ge':
            lo, hi = self.bounds(c.a)
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if len(c.a.t) < 1:
                return c.a.c >= 0
            if self.entails(c.a):
                return True
            if self.entails(c.a.neg().addc(-1)):
                return False
            return None
        if c.k in ('eq', 'ne'):
            lo, hi = self.bounds(c.a)
            r = None
            if lo == 0 and hi == 0:
                r = True
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            elif c.a in self.ne or c.a.neg() in self.ne:
                r = False
            elif c.a.t and len(c.a.t) > 1:
                if self.entails(c.a.addc(-1)) or \
                        self.entails(c.a.neg().addc(-1)):
                    r = False
                elif self.entails(c.a) and self.entails(c.a.neg()):
                    r = True
            if r is None:
                return None
            return r if c.k == 'eq' else not r
        return None

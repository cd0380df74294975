"""C20: text fits its buffer.

Relational dataflow (rel.py) over every function which builds or reads text:
paths of the files of a database and hexadecimal output.  A character array is
an object with the position of its terminator as a ghost; reads up to the
terminator and writes inside the array are the obligations.  The bound on the
length of a stored prefix is what urkel_store_init_prefix is shown to leave
behind, and it is assumed, not more, where paths are built from it.
"""
import os
from fractions import Fraction as Fr
from .pxfer import add, scale, const, var, isconst, cval, ONE
from .rel import Rel, Client, base
from .pbnd import prove
from .eng import AnalysisBroken
from . import ir

# functions which take a path: which arguments
PATHS = {'urkel_fs_open': (0,), 'urkel_fs_open_lock': (0,),
         'urkel_fs_exists': (0,), 'urkel_fs_mkdir': (0,),
         'urkel_fs_rmdir': (0,), 'urkel_fs_unlink': (0,),
         'urkel_fs_rename': (0, 1), 'urkel_fs_stat': (0,),
         'urkel_fs_lstat': (0,), 'urkel_fs_truncate': (0,),
         'urkel_fs_scandir': (0,), 'urkel_fs_write_file': (0,),
         'urkel_fs_read_file': (0,), 'urkel_path_resolve': (0,),
         'urkel_store_find_meta': (3,), 'puts': (0,),
         'open': (0,), 'stat': (0,), 'unlink': (0,), 'mkdir': (0,),
         'access': (0,), 'rename': (0, 1), 'truncate': (0,),
         'opendir': (0,), 'rmdir': (0,), 'lstat': (0,)}
CALLS = {'strlen', 'strcmp', 'strcpy', 'strcat', 'sprintf', 'snprintf',
         'strncpy', 'strncat', 'urkel_path_resolve', 'strchr', 'strrchr',
         'stpcpy', 'strdup', 'getcwd'}
NORM = 'urkel_path_normalize'
INIT = 'urkel_store_init_prefix'
# the command line's own reading of its arguments, a helper of the tests, and
# the normalization of a path, which is taken for what it promises: that it
# does not lengthen it
SKIP = {'urkel_main', 'main', 'urkel_options_init', 'urkel_store__corrupt',
        'urkel__corrupt', NORM}
WITNESS = 250000
BLOCKS = 80
DEBUG = bool(os.environ.get('VF_DEBUG'))


class Any:
    def __contains__(self, k): return True
    def __len__(self): return 1 << 30


ANY = Any()
# functions of the C library which leave their arguments alone
READS = {'printf', 'fprintf', 'puts', 'fputs', 'perror', 'getenv', 'memcmp',
         'free', 'open', 'write', 'chmod', 'fwrite', 'strtoul', 'atoi'}


class PRel(Rel):
    def inst(self, ins, pre, sub, S):
        dst = pre + ins.dst if ins.dst else None
        c = self.c
        if ins.op == 'alloca' and ins.ty.k == 'arr' and \
                ins.ty.el.k == 'int' and ins.ty.el.w == 8:
            obj = 'A:' + dst
            S.reset(obj)
            self.setcur(S, dst, obj, {})
            S.a.forget('Z:' + obj)
            S.a.add_eq(add(var('Z:' + obj), const(ins.ty.size()), -1))
            return [S]
        if ins.op == 'getelementptr':
            A = lambda o: self.f.op(o, pre, sub)
            b = self.val(S, A(ins.args[0]))
            idx = [A(o) for _, o in ins.x]
            if b is not None and b[0] == 'q' and len(idx) == 2 and \
                    ins.ty.k == 'arr' and ins.ty.el.size() == 1:
                x, y = self.num(S, idx[0]), self.num(S, idx[1])
                obj, f = self.cur(S, A(ins.args[0]))
                if x is not None and S.known(x) == 0 and y is not None:
                    self.setcur(S, dst, obj, add(f, y))
                else:
                    self.setval(S, dst, None)
                return [S]
            if b is not None and b[0] == 'p' and isinstance(b[2], int) \
                    and ins.ty.k == 'struct' and len(idx) == 2:
                i = S.known(self.num(S, idx[1]))
                t = ins.ty.fields[i] if i is not None else None
                if t is not None and t.k == 'arr' and t.el.k == 'int' and \
                        t.el.w == 8 and S.known(self.num(S, idx[0])) == 0:
                    obj = 'F:%d:%s' % (b[2] + ins.ty.offs()[i], b[1])
                    c.field(self, S, obj, b[1], t.size())
                    if not S.facts.get(('is', obj)):
                        S.facts['is', obj] = 1
                        S.a.forget('Z:' + obj)
                        S.a.add_eq(add(var('Z:' + obj),
                                       const(t.size()), -1))
                    self.setcur(S, dst, obj, {})
                    return [S]
        return Rel.inst(self, ins, pre, sub, S)


    def widen(self, a, b):
        # bounds by lengths hold on, even where a sharper bound is lost
        n = Rel.widen(self, a, b)
        vs = {v for x, r in n.eq.items() for v in [x] + list(r)} | \
            {v for g in list(n.ge) + list(a.ge) for v in g}
        vs = [v for v in vs if v[0] == 'f']
        for v in vs + [None]:
            for g in [add(const(k), var(x), -1) for x, k in self.c.caps] \
                    if v is None else [var(v)] + [add(var('L:' + o), var(v), -1)
                                 for o in self.c.lens] + \
                    [add(const(k), var(v), -1)
                     for k in self.c.limits or () if k <= 64]:
                if not n.entails(g) and a.entails(g) and b.entails(g):
                    n.add_ge(g)
        return n

    def loops(self, lab):
        # with concrete lengths nothing is joined
        return self.c.conc is None and Rel.loops(self, lab)


class Text(Client):
    keep_ret = 2
    cursors = ()
    weak = True

    def __init__(self, m, res, fn, bound, conc=None):
        # lengths of strings and, second, of names in structures
        self.conc, self.conc2 = conc or (None, None)
        self.limits = None; self.caps = set()
        self.tpl = {}; self.lens = set(); self.hits = set()
        self.fails = set()
        self.m = m; self.res = res; self.fn = fn; self.bound = bound
        self.und = set()
        self.limit = None          # of a prefix left behind
        self.rets = 0
        self.count = 0
        f = m.funcs[fn]
        _, sig = m.fn_sig(fn)
        cs = set()
        for (t, nm), d in zip(f.params, sig):
            p = m.pointee(d) if t.k == 'ptr' else None
            if p is not None and p.get('name') == 'char':
                cs.add('P:' + nm)
        self.strings = cs
        self.cursors = cs

    # ----------------------------------------------------------- reporting

    def ob(self, kind, loc):
        self.count += 1
        k = (kind, self.fn, loc)
        self.res.obl[k] = 1

    def undecided(self, loc, msg):
        self.und.add('%s: %s at %s' % (self.fn, msg, loc))

    def input(self, v):
        return v == ONE or v[:2] in ('L:', 'Z:', 'P:') or v[:2] == 'M:'

    def need(self, S, g, rule, loc, msg):
        self.ob(rule, loc)
        if g is None:
            self.undecided(loc, msg)
            return False
        if prove(S, g):
            return True
        g = S.a.norm(g)
        if isconst(g) and 'guess' not in S.facts:
            self.hits.add((rule, loc, msg))
        self.fails.add((rule, loc, msg))
        return False

    # ------------------------------------------------------------- objects

    def size(self, S, obj):
        v = 'Z:' + obj
        if any(v == w or v in r for w, r in S.a.eq.items()) or \
                S.facts.get(('sz', obj)):
            return var(v)
        return None

    def len(self, S, obj):
        """(form, exact) of the position of the terminator"""
        e = S.facts.get(('nul', obj))
        if e is None:
            return None
        k = S.facts.get(('len', obj))
        return (var('L:' + obj) if k is None else const(k)), e == 2

    def setlen(self, S, obj, f, exact):
        if f is not None:
            f = S.a.norm(f)
        S.facts.pop(('len', obj), None)
        if f is None:
            S.a.forget('L:' + obj)
            S.facts.pop(('nul', obj), None)
            return
        S.a.assign('t@len', f)
        S.a.forget('L:' + obj)
        S.a.assign('L:' + obj, var('t@len'))
        S.a.forget('t@len')
        S.facts['nul', obj] = 2 if exact else 1
        self.lens.add(obj)

    def fresh(self, S, obj):
        """a string about which nothing is known"""
        S.reset(obj)
        self.fresh2(S, obj)

    def where(self, R, S, o):
        """(object, offset) of a text operand"""
        q = R.cur(S, o)
        if q is not None:
            return q
        p = R.ptr(S, o)
        if p is not None and isinstance(p[1], int):
            return p[0], const(p[1])
        return None

    def bytes(self, obj):
        if obj[:2] != 'G:':
            return None
        g = self.m.globals.get(obj[2:])
        if g is None or not g.get('const'):
            return None
        i = g.get('init')
        if i is None:
            return None
        if i[0] == 'bytes':
            return i[1]
        if i[0] == 'zero':
            return b'\0' * g['ty'].size()
        return None

    def strlen(self, S, w):
        """(length from there, exact)"""
        if w is None:
            return None
        b = self.bytes(w[0])
        if b is not None and isconst(w[1]):
            k = b.find(b'\0', int(cval(w[1])))
            return None if k < 0 else (const(k - int(cval(w[1]))), True)
        n = self.len(S, w[0])
        return None if n is None else (add(n[0], w[1], -1), n[1])

    def text(self, R, S, o, loc, what):
        """a terminated string is needed"""
        w = self.where(R, S, o)
        if w is None or w[0][:2] in ('D:', 'H:', 'P:') and \
                w[0] not in self.strings and \
                ('nul', w[0]) not in S.facts and self.size(S, w[0]) is None:
            return
        self.ob('text', loc)
        if self.strlen(S, w) is None:
            k = ('text', loc, what + ' is not terminated')
            self.fails.add(k)
            if S.facts.get(('set', w[0])) == 2 and 'guess' not in S.facts \
                    and self.conc is not None:
                self.hits.add(k)

    # --------------------------------------------------------------- hooks

    def start(self, R, S, fn):
        for obj in self.strings:
            self.fresh(S, obj)
            S.env['f' + obj[2:]] = ('q', obj)
        for t, nm in fn.params:
            if t.k == 'int' and self.conc is not None:
                S.a.add_eq(add(var('P:' + nm), const(self.conc), -1))
                S.keep['f' + nm] = self.conc
            elif t.k == 'int':
                S.a.add_ge(var('P:' + nm))

    def field(self, R, S, obj, owner, size):
        """a character array of a structure is named"""
        if ('nul', obj) in S.facts or ('was', obj) in S.facts:
            return
        S.facts['was', obj] = 1
        off = int(obj.split(':')[1])
        if self.bound is not None and off == self.bound[0]:
            # the prefix of an open store
            ln = var(S.cell(owner, self.bound[1]))
            if self.conc is not None:
                k = self.bound[2]
                S.reset(obj)
                S.facts['nul', obj] = 2
                S.facts['len', obj] = k
                S.a.forget('L:' + obj)
                S.a.add_eq(add(var('L:' + obj), const(k), -1))
                S.a.add_eq(add(ln, const(k), -1))
                return
            self.fresh(S, obj)
            S.a.add_eq(add(var('L:' + obj), ln, -1))
            S.a.add_ge(ln)
            S.a.add_ge(add(const(self.bound[2]), ln, -1))
        elif owner[:2] == 'D:':
            if self.conc is not None:
                S.reset(obj)
                self.fresh2(S, obj, min(self.conc2, size - 1))
                return
            self.fresh(S, obj)
            S.a.add_ge(add(add(const(size), var('L:' + obj), -1),
                           const(-1)))

    def feasible(self, R, S):
        # remember the bounds lengths are compared with
        for g in S.a.ge[-2:]:
            g = S.a.norm(g)
            vs = [v for v in g if v != ONE]
            if len(vs) == 1 and vs[0][:2] in ('L:', 'P:') and \
                    g[vs[0]] == -1 and 0 < g.get(ONE, 0) < 1 << 31:
                self.caps.add((vs[0], int(g[ONE])))
        return True

    def arith(self, R, S, ins, x, y):
        if x is None or y is None:
            return None
        x, y = S.a.norm(x), S.a.norm(y)
        if not isconst(y):
            return None
        k = int(cval(y))
        if ins.op == 'lshr':
            if not 0 <= k < 32:
                return None
            k = 1 << k
        if ins.op == 'urem' and k > 0 and not isconst(x):
            q = 'q@' + ins.dst
            S.a.forget(q)
            S.a.add_ge(var(q))
            S.a.add_ge(add(const(k - 1), var(q), -1))
            return var(q)
        if ins.op in ('udiv', 'urem', 'lshr', 'sdiv', 'srem') and k > 0:
            if isconst(x):
                v = int(cval(x))
                if v < 0:
                    return None
                return const(v % k if ins.op[1:] == 'rem' else v // k)
            if not S.ge(x) or ins.op[1:] == 'rem':
                return None
            q = 'q@' + ins.dst
            S.a.forget(q)
            S.a.add_ge(var(q))
            S.a.add_ge(add(x, scale(var(q), k), -1))
            S.a.add_ge(add(add(scale(var(q), k), x, -1), const(k - 1)))
            return var(q)
        return None

    def edge(self, R, S, lab):
        vs = {v for x, r in S.a.eq.items() for v in [x] + list(r)} | \
            {v for g in S.a.ge for v in g}
        for v in vs:
            if v[:3] == 'ix@' and not any(
                    v in str(e) for e in S.env.values()):
                S.a.forget(v)

    def pure(self, name):
        return True

    def templates(self, R, tgt):
        if self.conc is not None:
            return []
        if tgt not in self.tpl:
            live = sorted(R.f.live[tgt])
            ph = [d for d, _ in R.f.blocks[tgt][0]]
            out = [var(x) for x in live]
            # parameters against the constants numbers are compared with
            if self.limits is None:
                self.limits = {o[1] for _, (p, insts, t, s) in
                               R.f.blocks.items() for i, _, _ in insts
                               if i.op == 'icmp' for o in i.args
                               if o[0] == 'i' and 1 < o[1] < 1 << 31}
            out += [add(const(k + d), var('P:' + nm), -1)
                    for k in self.limits for d in (-1, 0)
                    for t, nm in self.m.funcs[self.fn].params
                    if t.k == 'int']
            for x in ph:
                for y in ph:
                    if x != y:
                        out.append(add(var(x), var(y), -1))
            self.tpl[tgt] = out, live
            one = {v for p in getattr(R, '_cmp1', ()) for v in p}
            out += [add(const(k), var(x), -1) for k in self.limits
                    for x in live if x in one and k <= 64]
            if not hasattr(R, '_cmp1'):
                del self.tpl[tgt]
                return out
        out, live = self.tpl[tgt]
        return out + [add(const(k), var(v), -1) for v, k in self.caps] + \
                     [add(var('L:' + o), var(x), -1)
                      for o in self.lens for x in live]

    def load_ptr(self, R, S, ins, obj, off, dst):
        new = 'D:' + dst
        for k in [k for k in S.facts if isinstance(k, tuple) and
                  isinstance(k[1], str) and k[1].endswith(':' + new)]:
            del S.facts[k]
        for v in {v for x, r in S.a.eq.items() for v in [x] + list(r)} | \
                {v for g in S.a.ge for v in g}:
            if v[:4] in ('L:F:', 'Z:F:') and v.endswith(':' + new):
                S.a.forget(v)
        if obj[:2] in ('G:',) or not isinstance(off, int):
            R.setval(S, dst, None)
            return [S]
        R.fresh_ptr(S, obj, off, dst)
        if obj[:2] not in ('A:', 'P:'):
            S.mem.pop((obj, off), None)
        return [S]

    def load_unknown(self, R, S, ins, o, dst):
        if ins.ty.k == 'ptr':
            new = 'D:' + dst
            self.load_ptr(R, S, ins, 'x', 0, dst)
            S.mem.pop(('x', 0), None)
            return [S]
        return None

    def load_elem(self, R, S, ins, obj, off, dst):
        return self.load_unknown(R, S, ins, None, dst) or \
            Client.load_elem(self, R, S, ins, obj, off, dst)

    def load_int(self, R, S, ins, obj, off, dst):
        b = self.bytes(obj)
        if b is not None and ins.ty.w == 8:
            if 0 <= off < len(b):
                v = b[off]
                self.ob('read', self.m.locstr(ins.loc))
                R.setnum(S, dst, const(v - 256 if v > 127 else v))
                S.keep[dst] = v
            else:
                self.res.viol('read', self.fn, self.m.locstr(ins.loc),
                              'a constant string is read behind its end',
                              key=('read', 'const'))
                return []
            return [S]
        return None

    def load_cur(self, R, S, ins, obj, f, dst):
        loc = self.m.locstr(ins.loc)
        n = self.len(S, obj)
        z = self.size(S, obj)
        f = S.a.norm(f)
        if n is None:
            if z is not None and ins.ty.k == 'int':
                w = max(1, ins.ty.size())
                self.need(S, add(add(z, f, -1), const(-w)), 'read', loc,
                          'a buffer is read behind its end')
            return [S]
        L, exact = n
        ok = self.need(S, add(L, f, -1), 'read', loc,
                       'text is read behind its terminator')
        self.need(S, f, 'read', loc, 'text is read before its start')
        if ins.ty.k != 'int' or ins.ty.w != 8:
            return [S]
        out = []
        d = S.a.norm(add(L, f, -1))
        # the terminator
        b = S.copy()
        good = b.a.add_eq(d) if exact else b.a.add_ge(d)
        if good:
            if not exact and self.conc is not None:
                b.facts['guess'] = 1
            R.setnum(b, dst, {})
            b.keep[dst] = 0
            if exact:
                k = b.known(L)
                if k is not None and 0 <= k <= 64:
                    b.facts['len', obj] = k
            out.append(b)
        b = S.copy()
        if b.a.add_ge(add(d, const(-1))):
            R.setnum(b, dst, None)
            b.a.add_ge(add(var(dst), const(-1)))
            b.keep.pop(dst, None)
            out.append(b)
        return out

    def write(self, R, S, obj, f, n, loc, what='text is written behind the '
              'end of its buffer'):
        z = self.size(S, obj)
        if z is None:
            if f is None or n is None:
                S.facts['set', obj] = 1
            if ('nul', obj) in S.facts:
                # at most over the string that is there
                z = add(self.len(S, obj)[0], const(1))
            else:
                return None
        if n is None or f is None:
            S.facts['set', obj] = 1
            return self.need(S, None, 'write', loc, what)
        r = self.need(S, add(add(z, f, -1), n, -1), 'write', loc, what)
        self.need(S, f, 'write', loc, 'text is written before the start of '
                  'its buffer')
        S.facts['set', obj] = 2 if isconst(S.a.norm(f)) and \
            isconst(S.a.norm(n)) and S.facts.get(('set', obj), 2) == 2 else 1
        return r

    def store_cur(self, R, S, ins, v, obj, f):
        loc = self.m.locstr(ins.loc)
        f = S.a.norm(f)
        w = ins.ty.size()
        self.write(R, S, obj, f, const(w), loc)
        n = self.len(S, obj)
        x = R.num(S, v)
        k = S.known(f) if self.conc is not None and w == 1 else None
        nz = S.facts.get(('nz', obj), frozenset())
        if k is not None and x is not None:
            if S.ge(add(x, const(-1))):
                nz |= {k}
            else:
                nz -= {k}
            S.facts['nz', obj] = nz
        if w == 1 and x is not None and S.known(x) == 0:
            # terminated there, at the latest
            if n is not None and S.ge(add(f, n[0], -1)):
                return
            self.setlen(S, obj, f, k is not None and
                        all(i in nz for i in range(int(k))))
            return
        if n is not None and k is not None and k in nz and not n[1]:
            e = S.known(n[0])
            if e is not None and all(i in nz for i in range(int(e))):
                S.facts['nul', obj] = 2
                return
        if False:
            pass
        elif n is not None:
            if S.ge(add(add(n[0], f, -1), const(-w))):
                S.facts['nul', obj] = 1
            elif S.ge(add(add(f, n[0], -1), const(-1))):
                pass
            else:
                self.setlen(S, obj, None, False)

    def stored(self, R, S, ins, obj, off, v):
        pass

    def fork(self, R, S, dst, vals):
        out = []
        for v in vals:
            b = S.copy()
            if dst:
                R.setnum(b, dst, const(v))
                b.keep[dst] = v
            out.append((v, b))
        return out

    def copyto(self, R, S, d, s, n, loc):
        """n bytes are copied"""
        wd, ws = self.where(R, S, d), self.where(R, S, s)
        n = None if n is None else S.a.norm(n)
        if ws is not None:
            ln = self.strlen(S, ws)
            zs = self.size(S, ws[0])
            if zs is not None:
                self.need(S, None if n is None else
                          add(add(zs, ws[1], -1), n, -1), 'read', loc,
                          'a buffer is read behind its end') \
                    if ln is None else None
            if ln is not None and (zs is None or not prove(
                    S, add(add(zs, ws[1], -1), n if n is not None else
                           const(1 << 40), -1))):
                self.need(S, None if n is None else
                          add(add(ln[0], const(1)), n, -1), 'read', loc,
                          'text is read behind its terminator')
        else:
            ln = None
        if wd is None:
            return
        if self.size(S, wd[0]) is None and ('nul', wd[0]) not in S.facts:
            return
        self.write(R, S, wd[0], wd[1], n, loc)
        if n is None:
            self.setlen(S, wd[0], None, False)
        elif ln is not None and S.equal(n, add(ln[0], const(1))):
            self.setlen(S, wd[0], add(wd[1], ln[0]), ln[1] and
                        not S.a.norm(wd[1]))
        elif ln is not None and S.ge(add(n, add(ln[0], const(1)), -1)):
            self.setlen(S, wd[0], add(wd[1], ln[0]), ln[1] and
                        not S.a.norm(wd[1]))
        else:
            old = self.len(S, wd[0])
            if old is not None and S.ge(add(add(old[0], wd[1], -1), n, -1)):
                S.facts['nul', wd[0]] = 1
            else:
                self.setlen(S, wd[0], None, False)

    def call(self, R, S, name, args, dst, loc, ins):
        if name.startswith('llvm.memcpy') or name.startswith(
                'llvm.memmove') or name in ('memcpy', 'memmove'):
            self.copyto(R, S, args[0], args[1], R.num(S, args[2]), loc)
            wd = R.cur(S, args[0])
            if wd is None:
                return None
            if dst:
                R.setcur(S, dst, *wd)
            return [S]
        if name.startswith('llvm.memset') or name == 'memset':
            wd = R.cur(S, args[0])
            if wd is None:
                return None
            self.write(R, S, wd[0], wd[1], R.num(S, args[2]), loc)
            self.setlen(S, wd[0], None, False)
            return [S]
        if name == 'strlen':
            w = self.where(R, S, args[0])
            self.text(R, S, args[0], loc, 'what is measured')
            ln = self.strlen(S, w)
            R.setnum(S, dst, None if ln is None or not ln[1] else ln[0])
            if ln is None or not ln[1]:
                S.a.add_ge(var(dst))
                if ln is not None:
                    S.a.add_ge(add(ln[0], var(dst), -1))
                    # from here on the length is exact
                    if isconst(S.a.norm(w[1])) and not S.a.norm(w[1]) and \
                            ('len', w[0]) not in S.facts:
                        S.facts['nul', w[0]] = 2
                        S.a.forget('L:' + w[0])
                        S.a.add_eq(add(var('L:' + w[0]), var(dst), -1))
            return [S]
        if name in ('strcmp', 'strncmp'):
            out = []
            for v in (0, 1):
                b = S.copy()
                R.setnum(b, dst, {} if not v else None)
                if not v:
                    b.keep[dst] = 0
                else:
                    b.a.add_ge(add(var(dst), const(-1)))
                if name == 'strcmp' and not v:
                    ok = True
                    x, y = (self.where(R, b, args[i]) for i in (0, 1))
                    lx, ly = self.strlen(b, x), self.strlen(b, y)
                    if lx and ly and lx[1] and ly[1]:
                        ok = b.a.add_eq(add(lx[0], ly[0], -1))
                        for w, l in ((x, lx), (y, ly)):
                            k = b.known(l[0])
                            if k is not None and w[0][:2] != 'G:' and \
                                    not b.a.norm(w[1]):
                                b.facts['len', w[0]] = k
                    if not ok:
                        continue
                out.append(b)
            return out
        if name in ('malloc', 'checked_malloc', 'urkel_malloc'):
            n = R.num(S, args[0])
            obj = 'H:' + dst
            S.reset(obj)
            # a structure or text?
            if self.isstruct(R, dst):
                R.setval(S, dst, ('p', obj, 0))
                b = S.copy()
                R.setval(b, dst, ('null',))
                return [S, b] if name == 'malloc' else [S]
            if n is not None:
                S.a.assign('t@z', S.a.norm(n))
                S.a.assign('Z:' + obj, var('t@z'))
                S.a.forget('t@z')
                S.facts['sz', obj] = 1
            b = S.copy()
            R.setcur(S, dst, obj, {})
            if name == 'malloc':
                R.setval(b, dst, ('null',))
                return [S, b]
            return [S]
        if name == 'realloc':
            w = self.where(R, S, args[0])
            ln = self.strlen(S, w)
            n = R.num(S, args[1])
            obj = 'H:' + dst
            if self.isstruct(R, dst):
                S.reset(obj)
                R.setval(S, dst, ('p', obj, 0))
                b = S.copy()
                R.setval(b, dst, ('null',))
                return [S, b]
            n = None if n is None else S.a.norm(n)
            if ln is not None:
                self.need(S, None if n is None else
                          add(n, add(ln[0], const(1)), -1), 'write', loc,
                          'the end of a string is cut off')
            S.reset(obj)
            b = S.copy()
            R.setcur(S, dst, obj, {})
            if n is not None:
                S.a.assign('Z:' + obj, n)
                S.facts['sz', obj] = 1
            if ln is not None:
                self.setlen(S, obj, ln[0], False)
            R.setval(b, dst, ('null',))
            return [S, b]
        if name in ('getcwd', 'urkel_ps_cwd'):
            w = self.where(R, S, args[0])
            n = R.num(S, args[1])
            if w is not None:
                self.write(R, S, w[0], w[1], n, loc)
            out = []
            for v, b in self.fork(R, S, dst, (0, 1)):
                if w is not None:
                    if v and n is not None:
                        self.fresh2(b, w[0])
                        b.a.add_ge(add(add(b.a.norm(n), var('L:' + w[0]),
                                           -1), const(-1)))
                    else:
                        self.setlen(b, w[0], None, False)
                if name == 'getcwd':
                    R.setval(b, dst, ('null',) if not v else
                             ('q', w[0]) if w is not None else None)
                out.append(b)
            return out
        if name == 'urkel_path_resolve':
            obj = 'R:' + dst
            S.reset(obj)
            b = S.copy()
            self.fresh(S, obj)
            R.setcur(S, dst, obj, {})
            R.setval(b, dst, ('null',))
            return [S, b]
        if name == NORM:
            # shortens the text in place (an own root)
            w = self.where(R, S, args[0])
            self.text(R, S, args[0], loc, 'what is normalized')
            ln = self.strlen(S, w)
            R.setnum(S, dst, None)
            S.a.add_ge(var(dst))
            if ln is not None:
                S.a.add_ge(add(ln[0], var(dst), -1))
                if not S.a.norm(w[1]):
                    self.setlen(S, w[0], var(dst), False)
                else:
                    S.facts['nul', w[0]] = 1
            return [S]
        if name == 'free':
            return [S]
        if name in ('strcpy', 'stpcpy', 'strcat', 'strncat', 'sprintf',
                    'snprintf', 'strncpy', 'gets', 'vsprintf'):
            wd, ws = self.where(R, S, args[0]), None
            if name in ('strcpy', 'stpcpy', 'strcat'):
                ws = self.where(R, S, args[1])
                ln = self.strlen(S, ws)
                at = wd and wd[1]
                if name == 'strcat' and wd is not None:
                    l0 = self.len(S, wd[0])
                    at = None if l0 is None else l0[0]
                if wd is not None and self.size(S, wd[0]) is not None:
                    ok = ln is not None and at is not None
                    self.write(R, S, wd[0], at, add(ln[0], const(1))
                               if ok else None, loc)
                    self.setlen(S, wd[0], add(at, ln[0]) if ok else None,
                                False)
                if dst:
                    R.setval(S, dst, None)
                return [S]
            n = None
            if name in ('snprintf', 'strncpy') and wd is not None and \
                    self.size(S, wd[0]) is not None:
                n = R.num(S, args[1 if name == 'snprintf' else 2])
                self.write(R, S, wd[0], wd[1], n, loc)
                if name == 'snprintf' and n is not None:
                    self.setlen(S, wd[0], add(add(wd[1], n), const(-1)),
                                False)
                else:
                    self.setlen(S, wd[0], None, False)
            elif wd is not None:
                self.undecided(loc, name)
                self.setlen(S, wd[0], None, False)
            R.setnum(S, dst, None) if dst else None
            return [S]
        if name in PATHS:
            for i in PATHS[name]:
                if i < len(args):
                    self.text(R, S, args[i], loc, 'a path')
            if name.startswith('urkel_fs_scandir'):
                for o in args[1:]:
                    p = R.ptr(S, o)
                    if p is not None:
                        S.forget_cells(p[0])
            if dst:
                R.setval(S, dst, None)
            return [S]
        # buffers handed to other functions may be filled
        for o in args:
            q = R.cur(S, o)
            if q is not None and q[0][:2] in ('A:', 'H:') and \
                    self.written(name, args.index(o)):
                self.setlen(S, q[0], None, False)
            p = R.ptr(S, o)
            if p is not None and p[0][:2] == 'A:':
                S.forget_cells(p[0])
        return None

    def fresh2(self, S, obj, k=None):
        S.facts.pop(('len', obj), None)
        S.a.forget('L:' + obj)
        S.facts['nul', obj] = 2
        self.lens.add(obj)
        if self.conc is not None:
            k = self.conc if k is None else k
            S.a.add_eq(add(var('L:' + obj), const(k), -1))
            S.facts['len', obj] = k
        else:
            S.a.add_ge(var('L:' + obj))

    def isstruct(self, R, dst):
        """is the memory used as a structure?"""
        if not hasattr(self, '_structs'):
            self._structs = set()
            up = {}
            for lab, (phis, insts, term, src) in R.f.blocks.items():
                for d, inc in phis:
                    for o, _ in inc:
                        if o[0] == 'v':
                            up.setdefault(d, set()).add(o[1])
                for ins, pre, sub in insts:
                    if ins.op == 'getelementptr' and ins.ty.k in (
                            'struct', 'ptr'):
                        o = R.f.op(ins.args[0], pre, sub)
                        if o[0] == 'v':
                            self._structs.add(o[1])
            work = list(self._structs)
            while work:
                for x in up.get(work.pop(), ()):
                    if x not in self._structs:
                        self._structs.add(x)
                        work.append(x)
        return dst in self._structs

    def written(self, name, i):
        g = self.m.funcs.get(name)
        if g is None or not g.blocks:
            return name not in READS
        _, sig = self.m.fn_sig(name)
        if i >= len(sig):
            return True
        t = self.m.node(self.m.strip(sig[i]).get('baseType')) \
            if self.m.strip(sig[i]) else None
        return not (t and t.get('tag') == 'DW_TAG_const_type')

    def ret(self, R, S, o, loc):
        self.rets += 1
        if self.fn == NORM:
            f = R.num(S, o)
            n = self.len(S, 'P:' + R.m.funcs[NORM].params[0][1])
            self.ob('result', loc)
            if n is None or f is None or not S.equal(f, n[0]) or \
                    not S.ge(f):
                self.undecided(loc, 'the length after normalization')
            return
        if self.fn != INIT:
            return
        f = R.num(S, o)
        if f is not None and S.known(f) == 0:
            return
        st = 'P:' + R.m.funcs[self.fn].params[0][1]
        off, ln = self.prefix
        obj = 'F:%d:%s' % (off, st)
        self.ob('prefix', loc)
        n = self.len(S, obj)
        c = var(S.cell(st, ln))
        if n is None or not S.ge(add(c, n[0], -1)) or \
                not S.ge(add(n[0], c, -1)):
            k = ('prefix', loc, 'the length recorded is not that of the '
                 'prefix')
            self.fails.add(k)
            self.limit = (1 << 62)
            if n is not None and n[1] and 'guess' not in S.facts:
                x, y = S.known(c), S.known(n[0])
                if x is not None and y is not None and x != y:
                    self.hits.add(k)
            return
        lo, hi = 0, 1 << 40
        if not prove(S, add(const(hi), c, -1)):
            self.limit = 1 << 62
            return
        while lo < hi:
            mid = (lo + hi) // 2
            if prove(S, add(const(mid), c, -1)):
                hi = mid
            else:
                lo = mid + 1
        self.limit = max(self.limit or 0, lo)


def textual(m, name):
    """has the function a parameter that is text?"""
    try:
        _, sig = m.fn_sig(name)
    except Exception:
        return False
    for d in sig:
        p = m.pointee(d)
        if p is not None and p.get('name') == 'char':
            return True
    return False


def leaf(g):
    return not any(i.op == 'call' and not i.x.startswith('@llvm.')
                   for b in g.blocks.values() for i in b.insts)


def out_text(m, name):
    """has the function a parameter that is text it writes?"""
    _, sig = m.fn_sig(name)
    for d in sig:
        p = m.pointee(d)
        if p is not None and p.get('name') == 'char':
            t = m.node(m.strip(d).get('baseType'))
            if t.get('tag') != 'DW_TAG_const_type':
                return True
    return False


def policy_for(m, root, inl):
    def policy(name, g):
        if name in PATHS or name == root or name in CALLS or \
                name in ('urkel_ps_cwd',):
            return False
        return g.name in inl
    return policy


def roots(m):
    """Functions which handle text, outermost first."""
    out = []
    inl = set()
    for name, g in m.funcs.items():
        if not g.blocks or base(name) in SKIP:
            continue
        hit = textual(m, name)
        for b in g.blocks.values():
            for ins in b.insts:
                if ins.op != 'call' or ins.x[0] != '@':
                    continue
                x = base(ins.x[1:])
                h = m.funcs.get(ins.x[1:])
                if x in CALLS:
                    hit = True
                elif h is not None and h.blocks and textual(m, ins.x[1:]):
                    hit = True
                    if x not in PATHS and len(h.blocks) <= BLOCKS and \
                            (h.internal or out_text(m, ins.x[1:]) or
                             leaf(h)):
                        inl.add(ins.x[1:])
        if hit:
            out.append(name)
    # a function expanded at each of its calls has no root of its own
    inl.discard(NORM)
    return [n for n in out if n not in inl], inl


def prefix_fields(m):
    """(offset of the prefix, offset of its length) in an open store"""
    from .pcodec import field
    a = field(m, 'urkel_store_s', 'prefix')
    b = field(m, 'urkel_store_s', 'prefix_len')
    return a[0], b[0]


def run(m, res, fn, bound, prefix, inl, conc=None, limit=15000):
    c = Text(m, res, fn, bound, conc)
    c.prefix = prefix
    R = PRel(m, fn, c, policy_for(m, fn, inl))
    R.LIMIT = limit
    if conc is not None:
        c.keep_ret = 1 << 30
        try:
            R.run()
        except AnalysisBroken:
            pass            # what was found on the way there counts
        return c, R
    R.run()
    return c, R


def witness(m, fn, bound, prefix, inl, fails, ctx):
    """Lengths for which an access is outside: {(rule, loc, msg): length}."""
    K = bound[2] if bound else 1013
    sizes = {K + d for d in range(-1, 3)}
    half = set()
    found = {}
    for f in fns_of(m, fn, inl):
        for b in m.funcs[f].blocks.values():
            for ins in b.insts:
                if ins.op == 'alloca' and ins.ty.k == 'arr' and \
                        1 < ins.ty.size() <= 4096 and ins.ty.el.size() == 1:
                    n = ins.ty.size()
                    sizes |= {n + d for d in range(-13, 2)}
                    half |= {n // 2 + d for d in (-1, 0, 1)}
                if ins.op == 'icmp':
                    sizes |= {o[1] // 2 + d for o in ins.args
                              if o[0] == 'i' and 64 < o[1] <= 8192
                              for d in (-1, 0, 1, 3)}
                    sizes |= {o[1] + d for o in ins.args if o[0] == 'i' and
                              1 < o[1] <= 4096 for d in (-1, 0, 1)}
    ns = sorted({0, 1, 2, 4, 8, 9, 10, 11, 255, 300} |
                {x for x in sizes if x >= 0})
    steps = 0
    for n in [(a, 10) for a in half] + [
            (a, k) for a in reversed(ns) for k in (255, 10)]:
        if steps > WITNESS:
            break
        try:
            c, R = run(m, ctx.result(), fn, bound, prefix, inl, n, 14000)
        except (AnalysisBroken, LookupError, TypeError, AttributeError):
            continue
        steps += R.steps
        for k in c.hits:
            if k in fails:
                found.setdefault(k, n[0])
        if len(found) == len(fails):
            break
    return found


def fns_of(m, fn, inl):
    out = {fn}
    work = [fn]
    while work:
        for b in m.funcs[work.pop()].blocks.values():
            for ins in b.insts:
                if ins.op == 'call' and ins.x[1:] in inl and \
                        ins.x[1:] not in out:
                    out.add(ins.x[1:])
                    work.append(ins.x[1:])
    return out


def one(ctx, m, res, fn, bound, prefix, inl):
    try:
        c, R = run(m, res, fn, bound, prefix, inl)
    except (AnalysisBroken, LookupError, TypeError, AttributeError) as x:
        if DEBUG:
            raise
        res.undecided.append('%s: %s' % (fn, x))
        # what goes wrong for some length is still reported
        for (rule, loc, msg), n in witness(m, fn, bound, prefix, inl, ANY,
                                           ctx).items():
            res.viol(rule, fn, loc, '%s (length %d)' % (msg, n),
                     key=(rule, msg))
        return None
    res.fns |= R.f.fns
    res.nblocks += len(R.f.blocks)
    res.nstates += R.steps
    res.sites += R.sites
    res.undecided += sorted(c.und)
    if c.fails:
        w = witness(m, fn, bound, prefix, inl, c.fails, ctx)
        for rule, loc, msg in sorted(c.fails):
            if (rule, loc, msg) in w:
                res.viol(rule, fn, loc, '%s (length %d)' % (
                    msg, w[rule, loc, msg]), key=(rule, msg))
            else:
                res.undecided.append('%s: %s at %s' % (fn, msg, loc))
    return c


def c20(ctx):
    res = ctx.result()
    n = 0
    for cfg in ctx.configs:
        m = ctx.mod(cfg, cli=True)
        try:
            prefix = prefix_fields(m)
        except (AnalysisBroken, LookupError, TypeError) as x:
            res.undecided.append('the prefix of a store: %s' % x)
            prefix = None
        bound = None
        rs, inl = roots(m)
        if prefix and INIT in m.funcs:
            c = one(ctx, m, res, INIT, None, prefix, inl - {INIT})
            if c is not None and c.limit is not None and c.limit < 1 << 40:
                bound = (prefix[0], prefix[1], c.limit)
                res.note('longest prefix accepted', c.limit)
        for fn in rs:
            if fn == INIT:
                continue
            one(ctx, m, res, fn, bound, prefix, inl)
    res.need('uses of text', len(res.obl), 20)
    return res

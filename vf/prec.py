"""C07: opening recovers the newest intact commit.

Relational dataflow (rel.py) over the search of one file and over the loop
over the files.  Ghosts: the size of the file and its multiple of the size of
a record, the part of the file held by the buffer, the position of the record
checked last, the file whose name was built last, the file searched last and
the outcome.
"""
from .pxfer import add, scale, const, var, isconst, cval
from .rel import Rel, Client, base
from .eng import AnalysisBroken
from .pcodec import field

IO = {'urkel_fs_open', 'urkel_fs_fstat', 'urkel_fs_pread',
      'urkel_fs_ftruncate', 'urkel_fs_close', 'urkel_meta_read',
      'urkel_fs_unlink', 'urkel_store_path_index', 'urkel_store_path',
      'urkel_fs_seek', 'urkel_fs_read', 'urkel_fs_fsync',
      'urkel_fs_fdatasync', 'urkel_store_find_meta', 'urkel_fs_stat',
      'urkel_fs_exists', 'urkel_fs_rename', 'urkel_checksum',
      'urkel_fs_write', 'urkel_fs_size'}
LAST, SIZE, Q, B, LEN = 'G:last', 'G:size', 'G:Q', 'G:B', 'G:len'
GHOSTS = {SIZE, Q}
FIND = 'urkel_store_find_meta'
RECOVER = 'urkel_store_recover_state'


class Search(Client):
    """the search of one file"""
    keep_ret = 1
    keep_dead = False

    def __init__(self, m, res, fn, M):
        self.m = m; self.res = res; self.fn = fn; self.M = M
        self.names = ['P:' + n for _, n in m.funcs[fn].params]
        self.cursors = set()
        self.found = 0
        self.und = set()
        self.bufs = set()

    # ----------------------------------------------------------- reporting

    def ob(self, kind, loc):
        k = (kind, self.fn, loc)
        self.res.obl[k] = self.res.obl.get(k, 0) + 1

    def bad(self, loc, rule, msg):
        self.res.viol(rule, self.fn, loc, msg, key=(rule, msg))

    def undecided(self, loc, msg):
        self.und.add('%s: %s at %s' % (self.fn, msg, loc))

    ghosts = GHOSTS

    def same(self, S, x, y, rule, loc, msg):
        self.ob(rule, loc)
        if x is None or y is None:
            self.undecided(loc, msg)
            return False
        d = S.a.norm(add(x, y, -1))
        if not d:
            return True
        if isconst(d) or self.inputs(S, d) or S.ge(add(d, const(-1))) or \
                S.ge(add(scale(d, -1), const(-1))):
            self.bad(loc, rule, msg)
        else:
            self.undecided(loc, msg)
        return False

    def inputs(self, S, d):
        """is it a form of the inputs alone?"""
        ok = self.ghosts | {'1'}
        if all(v in ok for v in d):
            return True
        a = S.a.copy()
        a.assign('g@t', a.norm(d))
        for v in sorted({w for x, r in a.eq.items() for w in [x] + list(r)} |
                        set(d)):
            if v not in ok and v != 'g@t':
                a.forget(v)
        ok |= {'g@t'}
        return any('g@t' in [x] + list(r) and all(v in ok for v in [x] +
                                                  list(r))
                   for x, r in a.eq.items())

    def atleast(self, S, x, rule, loc, msg):
        self.ob(rule, loc)
        if x is None:
            self.undecided(loc, msg)
            return
        x = S.a.norm(x)
        if S.ge(x):
            return
        if S.ge(add(scale(x, -1), const(-1))) or isconst(x) or all(
                v in self.ghosts for v in x if v != '1'):
            self.bad(loc, rule, msg)
        else:
            self.undecided(loc, msg)

    def fork(self, R, S, dst, vals):
        out = []
        for v in vals:
            b = S.copy()
            if dst:
                R.setnum(b, dst, const(v))
                b.keep[dst] = v
            out.append((v, b))
        return out

    # --------------------------------------------------------------- hooks

    def start(self, R, S, fn):
        if len(fn.params) != 5 or [t.k for t, _ in fn.params] != ['ptr'] * 5:
            raise AnalysisBroken('parameters of ' + self.fn)
        self.store, self.meta, self.off, self.path, self.slab = self.names
        S.env['f' + fn.params[4][1]] = ('q', self.slab)
        S.a.add_eq(var('f' + fn.params[4][1]))
        S.facts['read'] = 0
        for v in (SIZE, Q):
            S.a.add_ge(var(v))

    def templates(self, R, tgt):
        out = [add(var(LEN), var(x), -1) for x in R.f.live[tgt]]
        out += [var(x) for x in R.f.live[tgt]]
        return out

    def pure(self, name):
        return name in IO or name in ('free', 'memcmp')

    def arith(self, R, S, ins, x, y):
        if ins.op in ('urem', 'udiv', 'srem', 'sdiv') and \
                x is not None and y is not None:
            k = S.known(y)
            f = S.a.norm(x)
            if ins.op[0] == 's' and not S.ge(f):
                return None
            rem = ins.op[1:] == 'rem'
            if k == self.M and S.equal(f, var(SIZE)):
                return add(var(SIZE), scale(var(Q), self.M), -1) \
                    if rem else var(Q)
            if k and k > 0 and S.ge(f):
                v = 'G:%s%s' % (ins.op, ins.dst)
                w = v + 'q'
                S.a.forget(v); S.a.forget(w)
                S.a.add_ge(var(v))
                if rem:
                    S.a.add_ge(add(const(k - 1), var(v), -1))
                    # x = k * w + v
                    S.a.add_ge(add(f, var(v), -1))
                return var(v)
        if ins.op in ('lshr', 'and', 'or', 'mul', 'shl'):
            return None
        return None

    def call(self, R, S, name, args, dst, loc, ins):
        if name == 'urkel_fs_open':
            out = []
            for v, b in self.fork(R, S, dst, (-1, 5)):
                b.facts['open'] = int(v >= 0)
                if v >= 0:
                    b.keep.pop(dst, None)
                    R.setnum(b, dst, var('G:fd'))
                    b.a.add_ge(var('G:fd'))
                if R.ptr(S, args[0]) != (self.path, 0):
                    self.undecided(loc, 'which file is opened')
                out.append(b)
            return out
        if name == 'urkel_fs_fstat':
            p = R.ptr(S, args[1])
            o, sz = field(self.m, 'urkel_stat_s', 'st_size')
            out = []
            for v, b in self.fork(R, S, dst, (0, 1)):
                if p is not None and isinstance(p[1], int):
                    b.forget_cells(p[0])
                    b.facts['stat'] = v
                    if v:
                        b.a.assign(b.cell(p[0], p[1] + o), var(SIZE))
                        M = self.M
                        b.a.add_ge(add(var(SIZE), scale(var(Q), M), -1))
                        b.a.add_ge(add(add(scale(var(Q), M), var(SIZE), -1),
                                       const(M - 1)))
                        b.a.assign(LAST, scale(var(Q), M))
                    else:
                        b.facts['fail'] = 1
                out.append(b)
            return out
        if name == 'urkel_fs_pread':
            q = R.cur(S, args[1])
            n, pos = R.num(S, args[2]), R.num(S, args[3])
            out = []
            for v, b in self.fork(R, S, dst, (0, 1)):
                if not v:
                    b.facts['fail'] = 1
                    b.facts.pop('buf', None)
                elif q is not None and q[0] == self.slab and \
                        n is not None and pos is not None:
                    b.a.assign('g@n', b.a.norm(n))
                    b.a.assign('g@b', b.a.norm(add(pos, q[1], -1)))
                    b.a.assign(LEN, add(var('g@n'), b.a.norm(q[1])))
                    b.a.assign(B, var('g@b'))
                    b.a.forget('g@n'); b.a.forget('g@b')
                    b.facts['buf'] = 1
                else:
                    b.facts.pop('buf', None)
                out.append(b)
            return out
        if name == 'urkel_meta_read':
            q = R.cur(S, args[1])
            d = R.ptr(S, args[0])
            if S.facts.get('hit') == 1:
                self.bad(loc, 'last', 'the search goes on behind an intact '
                         'record')
            if q is None or 'buf' not in S.facts or 'stat' not in S.facts:
                self.undecided(loc, 'which part of the file is checked')
                p = None
            else:
                p = add(var(B), q[1])
                self.same(S, p, add(var(LAST), const(self.M), -1), 'scan',
                          loc, 'a record is checked which is not the one '
                          'before the record checked last')
                self.atleast(S, q[1], 'inside', loc, 'bytes before the '
                             'buffer are taken for a record')
                self.atleast(S, add(add(var(LEN), q[1], -1),
                                    const(self.M), -1), 'inside', loc,
                             'bytes which were not read are taken for a '
                             'record')
            out = []
            for v, b in self.fork(R, S, dst, (0, 1)):
                b.facts['hit'] = v
                b.facts['into'] = d == (self.meta, 0)
                if p is None:
                    b.a.forget(LAST)
                else:
                    b.a.assign('g@p', b.a.norm(p))
                    b.a.assign(LAST, var('g@p'))
                    b.a.forget('g@p')
                out.append(b)
            return out
        if name == 'urkel_fs_ftruncate':
            if S.facts.get('hit') != 1:
                self.ob('cut', loc)
                self.bad(loc, 'cut', 'a file is truncated before an intact '
                         'record was found in it')
            elif self.same(S, R.num(S, args[1]), add(var(LAST), const(
                    self.M)), 'cut', loc, 'a file is not truncated exactly '
                    'behind the record'):
                S.facts['cut'] = 1
            return [b for v, b in self.fork(R, S, dst, (0, 1))]
        if name == 'urkel_fs_unlink':
            self.bad(loc, 'remove', 'a file is removed while it is searched')
            return [b for v, b in self.fork(R, S, dst, (0, 1))]
        if name == 'urkel_fs_close':
            return [b for v, b in self.fork(R, S, dst, (0, 1))]
        if name == FIND or name == RECOVER:
            raise AnalysisBroken('call of ' + name)
        return None

    def ret(self, R, S, o, loc):
        f = R.num(S, o)
        k = S.known(f) if f is not None else None
        if k is None:
            self.undecided(loc, 'result')
            return
        self.ob('result', loc)
        if k < 0:
            return
        if S.facts.get('fail') or not S.facts.get('open'):
            self.bad(loc, 'result', 'a file which could not be read is '
                     'reported as searched')
            return
        if k == 0:
            if S.facts.get('hit') == 1:
                self.bad(loc, 'result', 'an intact record is not reported')
                return
            self.atleast(S, add(const(self.M - 1), var(LAST), -1), 'all',
                         loc, 'a file is reported to hold no record although '
                         'it was not searched to its start')
            return
        if S.facts.get('hit') != 1:
            self.bad(loc, 'result', 'a record is reported which is not '
                     'intact')
            return
        self.found += 1
        if not S.facts.get('into'):
            self.undecided(loc, 'where the record goes')
        self.same(S, var(S.cell(self.off, 0)), var(LAST), 'where', loc,
                  'the position reported is not the one of the record')
        if not S.facts.get('cut'):
            # nothing may be left behind the record
            self.same(S, var(SIZE), add(var(LAST), const(self.M)), 'cut',
                      loc, 'what follows the record is left in the file')


PATH, DONE, OFF, FIRST = 'G:path', 'G:done', 'G:off', 'G:first'


class Recover(Search):
    """the loop over the files"""
    ghosts = {PATH, DONE, OFF, FIRST, 'G:mi', 'G:mp'}

    def start(self, R, S, fn):
        if len(fn.params) != 4 or [t.k for t, _ in fn.params] != ['ptr'] * 4:
            raise AnalysisBroken('parameters of ' + self.fn)
        self.store, self.state, self.meta, self.index = self.names
        S.a.assign(FIRST, var(S.cell(self.index, 0)))
        S.a.add_ge(var(FIRST))
        S.facts['found'] = None
        n = self.m.struct_di('urkel_meta_s')
        self.msize = int(n['size']) // 8
        self.ix = field(self.m, 'urkel_meta_s', 'meta_ptr.index')[0]
        self.ps = field(self.m, 'urkel_meta_s', 'meta_ptr.pos')[0]
        self.off = None

    def templates(self, R, tgt):
        return []

    def call(self, R, S, name, args, dst, loc, ins):
        if name == 'urkel_store_path_index':
            p, x = R.ptr(S, args[1]), R.num(S, args[2])
            if p is None or x is None:
                self.undecided(loc, 'which name is built')
                S.facts.pop('path', None)
                S.a.forget(PATH)
            else:
                S.facts['path'] = p
                S.a.assign(PATH, S.a.norm(x))
            return [S]
        if name == 'urkel_store_path':
            S.facts.pop('path', None)
            return [S]
        if name == FIND:
            if len(args) != 5:
                raise AnalysisBroken('arguments of ' + FIND)
            d, o, p = (R.ptr(S, args[i]) for i in (1, 2, 3))
            if p is None or p != S.facts.get('path') or o is None or \
                    not isinstance(o[1], int):
                self.undecided(loc, 'which file is searched')
            elif S.facts['found'] is None:
                self.same(S, var(PATH), var(FIRST), 'order', loc,
                          'the search does not start with the last file')
            elif S.facts['found'] == 0:
                self.same(S, var(PATH), add(var(DONE), const(-1)), 'order',
                          loc, 'the search does not go on with the file '
                          'before')
                if not S.facts.get('gone'):
                    self.bad(loc, 'remove', 'a file without a record is left '
                             'behind the last one')
            else:
                self.bad(loc, 'order', 'the search goes on after a record '
                         'was found or a file was not readable')
            out = []
            for v, b in self.fork(R, S, dst, (-1, 0, 1)):
                b.facts['found'] = v
                b.facts.pop('gone', None)
                b.facts.pop('same', None)
                b.facts['meta'] = d
                b.a.assign(DONE, b.a.norm(var(PATH)))
                if o is not None and isinstance(o[1], int):
                    b.mem.pop(o, None)
                    b.a.forget(OFF)
                    b.a.assign(b.cell(*o), var(OFF))
                if d is not None:
                    b.forget_cells(d[0])
                    for g, x in (('G:mi', self.ix), ('G:mp', self.ps)):
                        b.a.forget(g)
                        if isinstance(d[1], int):
                            b.a.assign(b.cell(d[0], d[1] + x), var(g))
                out.append(b)
            return out
        if name == 'urkel_fs_unlink':
            self.ob('remove', loc)
            p = R.ptr(S, args[0])
            if S.facts['found'] != 0:
                self.bad(loc, 'remove', 'a file is removed which was not '
                         'completely searched or holds an intact record')
            elif p is None or p != S.facts.get('path'):
                self.undecided(loc, 'which file is removed')
            else:
                self.same(S, var(PATH), var(DONE), 'remove', loc,
                          'another file is removed than was searched')
            out = []
            for v, b in self.fork(R, S, dst, (0, 1)):
                if v:
                    b.facts['gone'] = 1
                else:
                    b.facts['fail'] = 1
                out.append(b)
            return out
        if name in ('urkel_fs_ftruncate', 'urkel_fs_rename',
                    'urkel_fs_write'):
            self.undecided(loc, name)
        if name == RECOVER:
            raise AnalysisBroken('recursion')
        return None

    def extent(self, R, obj, off):
        return 1 << 60

    def copy_cells(self, d, s, n):
        return range(0, min(n, 512), 4)

    def copied(self, R, S, d, s, n, loc, args):
        if d is not None and d[0] == self.state:
            S.facts['same'] = (
                d == (self.state, 0) and s is not None and
                s == S.facts.get('meta') and S.facts['found'] == 1 and
                n is not None and S.known(n) == self.msize)

    def stored(self, R, S, ins, obj, off, v):
        if obj == self.state and isinstance(off, int) and not (
                self.ix <= off < self.ix + 4 or self.ps <= off < self.ps + 8):
            S.facts['same'] = S.facts.get('same') and None

    def ret(self, R, S, o, loc):
        f = R.num(S, o)
        k = S.known(f) if f is not None else None
        if k is None:
            self.undecided(loc, 'result')
            return
        self.ob('result', loc)
        if k == 0:
            return
        c = lambda x, y=0: var(S.cell(x, y))
        if S.facts['found'] == -1 or S.facts.get('fail'):
            self.bad(loc, 'result', 'opening succeeds although a file could '
                     'not be read or removed')
            return
        if S.facts['found'] == 1:
            self.found += 1
            if S.facts.get('same') is False or 'same' not in S.facts:
                self.bad(loc, 'state', 'the state is not the record found')
            elif not S.facts['same']:
                self.undecided(loc, 'the state')
            self.same(S, c(self.index), var(DONE), 'state', loc, 'the last '
                      'file is not the one of the record')
            self.same(S, c(self.state, self.ix), var(DONE), 'state', loc,
                      'the file of the record is not remembered')
            self.same(S, c(self.state, self.ps), var(OFF), 'state', loc,
                      'the position of the record is not remembered')
            return
        if S.facts['found'] == 0:
            if not S.facts.get('gone'):
                self.bad(loc, 'remove', 'a file without a record is left '
                         'behind the last one')
            self.same(S, var(DONE), const(1), 'order', loc, 'not every file '
                      'is searched')
        else:
            # without any file
            self.atleast(S, scale(var(FIRST), -1), 'order', loc, 'no file is '
                         'searched')
        self.same(S, c(self.index), const(1), 'state', loc, 'a database '
                  'without a commit does not start with the first file')
        self.same(S, c(self.state, self.ix), const(0), 'state', loc,
                  'a database without a commit remembers one')


def policy(name, g):
    return name not in IO and len(g.blocks) <= (60 if g.internal else 16)


def c07(ctx):
    from .ppos import metasize
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        M = metasize(res, m)
        n = 0
        for fn, C in ((FIND, Search), (RECOVER, Recover)):
            g = m.funcs.get(fn)
            if not M or g is None or not g.blocks:
                res.undecided.append('%s: not there' % fn)
                continue
            try:
                cl = C(m, res, fn, M)
                R = Rel(m, fn, cl, policy)
                R.run()
            except (AnalysisBroken, LookupError, TypeError) as x:
                res.undecided.append('%s: %s' % (fn, x))
                continue
            res.fns |= R.f.fns
            res.nblocks += len(R.f.blocks)
            res.nstates += R.steps
            res.sites += R.sites
            res.undecided += sorted(cl.und)
            n += cl.found
        res.need('records found (%s)' % cfg, n, 0)
    return res

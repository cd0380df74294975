"""Properties about the database as a whole: publication, roots,
transactions."""
from .ts import *
from . import tslib, api
from .pfs import run_api, fails

COMMITS = ['urkel_insert', 'urkel_remove', 'urkel_tx_commit']


def rplaces(st, p):
    """places of a pointer, published objects by the place they hang from"""
    out = set()
    for root, path in places(p):
        n = 0
        while root[0] == 'H' and n < 6:
            at = st.mem.get((root, ('@',)))
            if at is None:
                break
            root, path = at[1][0], at[1][1] + ('*',) + path
            n += 1
        out.add((root, path))
    return out


def under(path, field):
    """does a path lead to (a part of) this field itself"""
    for i, s in enumerate(path):
        if s == field:
            return '*' not in path[i + 1:]
    return False


def behind(path, field):
    """does a path lead through the pointer in this field"""
    for i, s in enumerate(path):
        if s == field:
            return '*' in path[i + 1:]
    return False


# ------------------------------------------------------------------ C05
class PubMon(Monitor):
    """monitor state: (data appended and not written,
    has a write failed for good, was the commit record appended last,
    has the key been read since the last append, new file opened (2: and
    made current, 3: and the current one looked up) and old one not synced, written and not synced, what was published)"""
    def __init__(self, fsync):
        self.fsync = fsync
        self.models = {'open': new_open}

    def init(self, f):
        return (False, None, False, False, 0, False, frozenset())

    def leave(self, T, st, name, args, r, ins):
        """a transfer of nothing is a successful write, too"""
        buf, werr, meta, key, newf, uns, pub = st.mon
        if not buf or r is None or r[0] != 'i' or not nonzero(r) or \
                not T.reach.get(name, set()) & {'write', 'pwrite', 'writev'}:
            return
        for a in args:
            if a is not None and a[0] == 'p' and any(
                    behind(p, 'urkel_slab_s.data')
                    for _, p in rplaces(st, a)):
                st.mon = (False, werr, meta, key, newf, self.fsync, pub)

    def value(self, T, st, ins, p):
        """counters of the write buffer: small, and nothing is left over from
        an earlier failed commit"""
        if p[0] != 'p' or ins.ty.k != 'int':
            return None
        last = {q[-1] if q else '' for _, q in places(p)}
        if len(last) != 1:
            return None
        last = last.pop()
        if last == 'urkel_file_s.fd':
            return self.descriptor(T, st, ins, p)
        if not last.startswith('urkel_slab_s.'):
            return None
        if last == 'urkel_slab_s.start':
            return ZERO
        for r, q in places(p):
            if tracked(r, q):
                v = T.cell(st.mem, r, q, st.env)
                if v is not None and v[0] == 'i' and v[1] >= 0 and \
                        v[2] <= 1 << 48:
                    return None
        return R(0, 1 << 40)

    def descriptor(self, T, st, ins, p):
        """mark whether this is the file which was current at first"""
        t = set()
        for r, q in places(p):
            if r[0] == 'T' and 'urkel_store_s.current' in q:
                t.add('old')
                continue
            c = T.cell(st.mem, r, q, st.env) if tracked(r, q) else None
            t |= c is not None and tag_of(c) or {'other'}
        return tagged(T.load(st, p, ins.ty, ins), frozenset(t))

    def access(self, T, st, ins, p, rw, ty, val):
        if p[0] != 'p':
            return
        for root, path in rplaces(st, p):
            if not path:
                continue
            self.one(T, st, ins, root, path, rw, val)

    def one(self, T, st, ins, root, path, rw, val):
        buf, werr, meta, key, newf, uns, pub = st.mon
        if werr:
            key = True
        if rw == 'r':
            if newf == 1 and path[-1] == 'urkel_store_s.current':
                st.mon = (buf, werr, meta, key, 3, uns, pub)
                return
            if under(path, 'urkel_store_s.key') and not key:
                st.mon = (buf, werr, meta, True, newf, uns, pub)
            return
        if path[-1] == 'urkel_store_s.current' and newf in (1, 3):
            if val is not None and val[0] == 'p' and val[1][0] == 'G':
                # no file at all
                return
            st.mon = (buf, werr, meta, key, 2, uns, pub)
            return
        if behind(path, 'urkel_slab_s.data'):
            T.oblige('append to the write buffer', ins)
            if not werr:
                st.mon = (True, werr, key, False, newf, uns, pub)
            return
        what = None
        if under(path, 'urkel_store_s.state'):
            what = 'the state of the store'
        elif under(path, 'urkel_s.hash'):
            what = 'the current root hash'
        elif 'urkel_store_s.cache' in path and (
                behind(path, 'urkel_store_s.cache')):
            what = 'the cache of roots'
        if what is None:
            return
        T.oblige('publication', ins)
        if what != 'the cache of roots':
            st.mon = (buf, werr, meta, key, newf, uns, pub | {what})
        if buf:
            T.report('published-before-written', '%s is changed before the '
                     'records have been written' % what, ins, what)
        elif werr:
            T.report('published-after-failed-write', '%s is changed although '
                     'the write at %s has failed' % (what, werr), ins, what)
        elif what != 'the cache of roots' and not meta:
            T.report('published-without-commit-record', '%s is changed '
                     'although the commit record was not the last thing '
                     'written' % what, ins, what)
        elif self.fsync and uns:
            T.report('published-before-synced', '%s is changed before the '
                     'data has been synced' % what, ins, what)

    def sys(self, T, st, name, args, tag, v, ins):
        buf, werr, meta, key, newf, uns, pub = st.mon
        if name in ('write', 'pwrite', 'writev'):
            T.oblige('write', ins)
            if newf:
                T.report('file-switched-unsynced', 'data is written although '
                         'the previous file was not synced since a new file '
                         'was created', ins)
            if tag == 'ok':
                buf, uns = False, self.fsync
            elif tag != 'fail:EINTR':
                st.mon = (False, T.loc(ins), False, False, 0, False, pub)
                return
        elif name in ('fsync', 'fdatasync'):
            T.oblige('sync', ins)
            if tag == 'ok':
                t = tag_of(args[0]) or ()
                if 'old' in t or newf == 3 or (newf == 1 and t != NEW):
                    newf = 0
                uns = False
        elif name == 'open' and tag == 'ok':
            if is_c(args[1]) and args[1][1] & 0o100:
                newf = 1
        st.mon = (buf, werr, meta, key, newf, uns, pub)


NEW = frozenset({'new'})


def new_open(T, st, args, ins):
    """the result for files which may be created is marked"""
    r = table(T, st, tslib.FD, 'open', args, ins)
    if not (is_c(args[1]) and args[1][1] & 0o100):
        return r
    return [(tagged(v, NEW) if tag == 'ok' else v, tag, s)
            for v, tag, s in r]


def pub_run(ctx, cfg, each):
    m = ctx.mod(cfg)
    mon = PubMon(cfg == 'fsync')
    T = tslib.new(m, mon)
    T.always = T.always
    n = run_api(T, m, each, COMMITS)
    return m, mon, T, n


def c05(ctx):
    res = ctx.result()
    cfgs = list(ctx.configs)
    if 'fsync' not in cfgs:
        cfgs.append('fsync')
    ctx.configs = cfgs
    for cfg in cfgs:
        m, mon, T, n = pub_run(ctx, cfg, lambda *a: None)
        res.take(T)
        for k, least in (('append to the write buffer', 1),
                         ('publication', 2), ('write', 1), ('sync', 1)):
            res.need('%s (%s)' % (k, cfg),
                     len({x for x in T.obl if x[0] == k}), least)
    return res


def failed_commits(ctx, cfg, res):
    """part of C04: a failing commit has published nothing"""
    m = ctx.mod(cfg)

    def each(f, a, r, mem, mo):
        if fails(m, f, r):
            for w in sorted(mo[6]):
                res.viol('failed-commit-published', f, m.funcs[f].name,
                         '%s can fail after it has changed %s' % (f, w), [f],
                         w)
    m, mon, T, n = pub_run(ctx, cfg, each)
    res.take(T, reports=False)
    res.need('publications', len({x for x in T.obl if x[0] == 'publication'}),
             2)


# ------------------------------------------------------------------ C18
ROOTED = {'urkel_get': 'root', 'urkel_has': 'root', 'urkel_prove': 'root',
          'urkel_iterate': 'root', 'urkel_tx_create': 'hash'}
OWN = ['urkel_tx_get', 'urkel_tx_has', 'urkel_tx_insert', 'urkel_tx_remove',
       'urkel_tx_prove', 'urkel_iter_create', 'urkel_tx_root']
HASH = 32


class RootMon(Monitor):
    """monitor state: set of events: what was read (the hash given, the
    current root hash, the last committed root, the root of the
    transaction), which of them was found equal to a tree's hash, what was
    written"""
    def __init__(self):
        self.revert = None
        self.models = {'memcmp': self.memcmp, 'bcmp': self.memcmp}

    def init(self, f):
        return frozenset()

    def value(self, T, st, ins, p):
        if self.revert is None or p[0] != 'p' or ins.ty.k != 'int':
            return None
        last = {q[-1] if q else '' for _, q in places(p)}
        if last == {'urkel_s.revert'}:
            for r, q in places(p):
                if tracked(r, q) and T.cell(st.mem, r, q, st.env) is not None:
                    return None
            return C(self.revert)
        return None

    def kinds(self, st, p):
        out = set()
        if p is None or p[0] != 'p':
            return out
        for root, path in rplaces(st, p):
            if root[0] == 'A' and root[1] in ('root', 'hash') and \
                    '*' not in path:
                out.add('given')
            elif under(path, 'urkel_s.hash'):
                out.add('current')
            elif under(path, 'urkel_store_s.state'):
                out.add('committed')
            elif under(path, 'urkel_tx_s.root'):
                out.add('own')
            elif path[-1:] == ('urkel_node_s.hash',) or \
                    path[-2:] == ('urkel_node_s.hash', '[]'):
                out.add('node')
        return out

    def access(self, T, st, ins, p, rw, ty, val):
        ks = self.kinds(st, p)
        if rw == 'r':
            n = {'read ' + k for k in ks if k != 'node'}
        else:
            n = {'write ' + k for k in ks if k in ('current', 'committed',
                                                   'own')}
            if p[0] == 'p' and any(under(q, 'urkel_s.revert')
                                   for _, q in rplaces(st, p)):
                n.add('write revert' if val is not None and nonzero(val)
                      else 'clear revert')
        if n:
            T.oblige('access to a root', ins)
        if n - st.mon:
            st.mon = st.mon | n

    def before(self, T, st, name, args, ins):
        if name.startswith(('memcpy', 'memmove', 'llvm.memcpy',
                            'llvm.memmove')):
            d, s = self.kinds(st, args[0]), self.kinds(st, args[1])
            n = {'current from ' + k for k in s if 'current' in d}
            if n:
                st.mon = st.mon | n

    def memcmp(self, T, st, args, ins):
        if self.access is not None:
            for a in args[:2]:
                self.access(T, st, ins, a, 'r', None, None)
        ks = self.kinds(st, args[0]) | self.kinds(st, args[1])
        ks &= {'given', 'current'}
        if not ks:
            return [(TOP, 'ok', st)]
        T.oblige('comparison of a root hash', ins)
        s = st.copy()
        if args[2] == C(HASH):
            st.mon = st.mon | {'found ' + k for k in ks}
        return [(ZERO, 'ok', st), (NZ, 'ok', s)]

    def leave(self, T, st, name, args, r, ins):
        """a comparison by other means, or a look into the cache"""
        if r is None or r[0] != 'i':
            return
        ks = set()
        for a in args:
            if a is not None:
                ks |= self.kinds(st, a) & {'given', 'current'}
        if not ks:
            return
        np = sum(1 for a in args if a is not None and a[0] == 'p')
        reach = T.reach.get(name, set())
        if np == 2 and len(args) == 3 and args[2] == C(HASH) \
                and len(reach) == 1 and nonzero(r) is not True:
            s = st.copy()
            s.mon = st.mon | {'found ' + k for k in ks}
            return [(ZERO, s), (NZ, st)]
        elif nonzero(r) and 'kh_get_nodes' in reach and \
                'pread' not in reach and 'open' not in reach:
            st.mon = st.mon | {'found ' + k for k in ks}


def c18(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = RootMon()
        base = tslib.api_args(m)
        n = [0]

        def go(f, check, nul=None, revert=None):
            if f not in m.funcs:
                return
            mon.revert = revert
            T = tslib.new(m, mon)
            names = api.PARAMS[f].split()

            def argf(fname, i, ty):
                v = base(fname, i, ty)
                if nul is not None and names[i] in ('root', 'hash') and \
                        i and ty.k == 'ptr':
                    return ZERO if nul else PTR(('A', names[i]), (), 'nn')
                return v

            def each(f, a, r, mem, mo):
                n[0] += 1
                z = nonzero(r) if r is not None else True
                T.oblige('return of ' + f)
                for w, msg in check(z, mo):
                    res.viol(w, f, m.funcs[f].name, '%s %s' % (f, msg), [f],
                             msg)
            run_api(T, m, each, [f], argf)
            res.take(T)

        def given(z, mo):
            if z is not False and 'found given' not in mo:
                yield ('root-not-matched', 'can succeed without having '
                       'matched the root hash it was given')

        def injected(z, mo):
            if z is not False and 'found current' not in mo:
                yield ('root-not-matched', 'can succeed on another tree than '
                       'the injected root')

        def committed(z, mo):
            if z is not False and 'read committed' not in mo:
                yield ('committed-root-not-used', 'can succeed without '
                       'having used the last committed root')
            if z is not False and 'found current' in mo:
                yield ('committed-root-not-used', 'looks up a historical '
                       'root although none was asked for')

        def own(z, mo):
            if z is not False and 'read own' not in mo:
                yield ('own-root-not-used', 'can succeed without using the '
                       'root of its transaction')
            for k in ('read current', 'read committed'):
                if k in mo:
                    yield ('foreign-root-used', 'uses the %s root of the '
                           'database' % k[5:])

        def commit(z, mo):
            if z is not False and 'current from node' not in mo:
                yield ('commit-root', 'can succeed without setting the '
                       'root of the database to the hash of the tree')
            if z is not False and 'write committed' not in mo:
                yield ('commit-root', 'can succeed without changing the '
                       'committed state')

        def inject(z, mo):
            if z is not False and 'found given' not in mo:
                yield ('root-not-matched', 'can succeed without having '
                       'matched the root hash it was given')
            if z is not False and 'current from given' not in mo:
                yield ('inject', 'can succeed without making the given hash '
                       'the current root')
            if z is not False and 'write revert' not in mo:
                yield ('inject', 'can succeed without recording that a '
                       'root was injected')
            if z is False and mo & {'write current', 'write revert'}:
                yield ('inject', 'can fail after it has changed the current '
                       'root')

        def cleared(z, mo):
            if 'write own' in mo and 'found current' not in mo:
                yield ('root-not-matched', 'can return to another tree than '
                       'the injected root')

        def cleared0(z, mo):
            if 'write own' not in mo or 'read committed' not in mo:
                yield ('committed-root-not-used', 'does not return to the '
                       'last committed root')

        def txinject(z, mo):
            if z is not False and not {'found given', 'write own'} <= mo:
                yield ('root-not-matched', 'can succeed without having '
                       'matched the root hash it was given and moved to it')

        def root(z, mo):
            if 'read current' not in mo:
                yield ('root', 'does not yield the current root')

        for f in sorted(ROOTED):
            go(f, given, nul=False)
            go(f, injected, nul=True, revert=1)
            go(f, committed, nul=True, revert=0)
        for f in OWN:
            go(f, own)
        for f in COMMITS:
            go(f, commit)
        for f in ('urkel_insert', 'urkel_remove'):
            go(f, injected, revert=1)
            go(f, committed, revert=0)
        go('urkel_tx_clear', cleared, revert=1)
        go('urkel_tx_clear', cleared0, revert=0)
        go('urkel_inject', inject)
        go('urkel_tx_inject', txinject)
        go('urkel_root', root)
        res.need('returns (%s)' % cfg, n[0], 40)
        res.need('root comparisons (%s)' % cfg, len(
            {k for k in res.obl if k[0] == 'comparison of a root hash'}), 2)
    return res


# ------------------------------------------------------------------ C16
class TreeMon(Monitor):
    """monitor state: (was a node of the transaction's tree released without
    the reference to it being replaced, where; was the tree changed, where;
    was the root of the database changed)"""
    KIDS = ('urkel_internal_s.left', 'urkel_internal_s.right')

    def init(self, f):
        return (None, None, False)

    def intree(self, st, p):
        """may this be (part of) a node of the transaction's tree"""
        for root, path in rplaces(st, p):
            if root[0] == 'T' and root[1] == 'urkel_tx_s' and \
                    behind(path, 'urkel_tx_s.root'):
                return True
        return False

    def value(self, T, st, ins, p):
        """the children of a node are never empty (checked where they are
        stored)"""
        if p[0] != 'p' or ins.ty.k != 'int':
            return None
        for root, path in places(p):
            if path[-1:] != ('urkel_node_s.type',):
                return None
            if tracked(root, path) and \
                    T.cell(st.mem, root, path, st.env) is not None:
                return None
            if not self.inner(path) and (st.mon[2] or root[0] != 'H'):
                return ZERO if st.mon[2] and root[0] == 'H' and \
                    len(places(p)) == 1 else None
        return R(1, 3)

    def inner(self, path):
        return '~' in path or bool(set(path) & set(self.KIDS))

    def kind(self, v):
        if v is None or v[0] != 'p':
            return None
        return frozenset((r[0], self.inner(q)) for r, q in places(v))

    phi_kind = kind

    def ret_key(self, r):
        return (Monitor.ret_key(self, r), self.kind(r))

    def leave(self, T, st, name, args, r, ins):
        """keep apart whether a function has returned an empty node"""
        if st.mon[2] and r is not None and r[0] == 'p' and \
                not any(r[0] == 'H' and not self.inner(q)
                        for r, q in places(r)):
            st.mon = st.mon[:2] + (False,)

    def access(self, T, st, ins, p, rw, ty, val):
        if rw != 'w' or p[0] != 'p':
            return
        if val is not None and val[0] == 'p' and any(
                q[-1:] and q[-1] in self.KIDS for _, q in places(p)):
            T.oblige('store of a child', ins)
            for r, q in places(val):
                v = st.mem.get((r, q + ('urkel_node_s.type',)))
                if v == ZERO:
                    T.report('empty-child', 'an empty node becomes the child '
                             'of a node', ins, 'child')
        dang, chg, nul = st.mon
        if any(q[-1:] == ('urkel_node_s.type',) for _, q in places(p)):
            nul = val == ZERO
        for root, path in rplaces(st, p):
            if under(path, 'urkel_tx_s.root'):
                T.oblige('change of the root of a transaction', ins)
                dang = None
                chg = chg or T.loc(ins)
            elif path and (path[-1] in self.KIDS or
                           'urkel_internal_s.prefix' in path):
                if root[0] == 'T' and root[1] == 'urkel_tx_s' and \
                        behind(path, 'urkel_tx_s.root'):
                    T.oblige('change of a node of a transaction', ins)
                    chg = chg or T.loc(ins)
                if path[-1] in self.KIDS:
                    dang = None
        st.mon = (dang, chg, nul)

    def before(self, T, st, name, args, ins):
        if name != 'free' or args[0] is None or args[0][0] != 'p':
            return
        if self.intree(st, args[0]) and places(args[0])[0][1][-1:] == ('*',):
            T.oblige('release of a node of a transaction', ins)
            st.mon = (T.loc(T.stack[-2][1]) if len(T.stack) > 1 and
                      T.stack[-2][1] is not None else T.loc(ins),) + st.mon[1:]


def c16(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = TreeMon()
        T = tslib.new(m, mon)
        n = [0]

        def each(f, a, r, mem, mo):
            n[0] += 1
            dang, chg, nul = mo
            T.oblige('return of ' + f)
            if dang is not None:
                res.viol('dangling-node', f, m.funcs[f].name,
                         '%s can return with a reference to a node which it '
                         'released (%s)' % (f, dang), [f], dang)
            if f in ('urkel_tx_insert', 'urkel_tx_remove',
                     'urkel_tx_inject') and r is not None and \
                    nonzero(r) is False and chg is not None:
                res.viol('failure-changes-tree', f, m.funcs[f].name,
                         '%s can fail after it has changed the tree of the '
                         'transaction (%s)' % (f, chg), [f], chg)
        run_api(T, m, each, ['urkel_tx_insert', 'urkel_tx_remove',
                             'urkel_tx_clear', 'urkel_tx_inject',
                             'urkel_tx_commit'])
        res.take(T)
        res.need('returns (%s)' % cfg, n[0], 8)
        for k in ('change of the root of a transaction',
                  'release of a node of a transaction'):
            res.need('%s (%s)' % (k, cfg),
                     len({x for x in T.obl if x[0] == k}), 2)
    return res

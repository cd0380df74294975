"""Properties about failures and the file system, by property simulation."""
from .ts import *
from . import tslib, api
from .eng import AnalysisBroken


def run_api(T, m, each, names=None, argf=None):
    """simulate public functions; each(f, args, ret, mem, mon)"""
    n = 0
    for f in names or api.API:
        if f not in m.funcs:
            continue
        a, rets = T.api(f, argf or tslib.api_args(m))
        for r, mem, mo in rets:
            T.stack = [(f, None)]
            n += 1
            each(f, a, r, mem, mo)
    return n


def fails(m, f, r):
    """can this return value mean failure"""
    if r is None:
        return False
    return nonzero(r) is not True


def errno_root(m, T):
    """the variable which __urkel_get_errno() hands out"""
    f = '__urkel_get_errno'
    if f not in m.funcs:
        raise AnalysisBroken('no %s' % f)
    T.stack = [(f, None)]
    rs = T.run(f, [], {}, 'probe')
    for r, mem, mo in rs:
        if r is not None and r[0] == 'p' and r[1][0] == 'G':
            return r[1]
    raise AnalysisBroken('cannot tell the error variable')


# ------------------------------------------------------------------ C03
ENOTFOUND, ECORRUPTION, EINVAL, ENOUPDATE, EBADWRITE, EBADOPEN, EITEREND = \
    8, 9, 7, 10, 11, 12, 13

CODES = {
    'urkel_open': {EBADOPEN}, 'urkel_destroy': {EBADOPEN},
    'urkel_inject': {ENOTFOUND}, 'urkel_tx_inject': {ENOTFOUND},
    'urkel_get': {ENOTFOUND, ECORRUPTION},
    'urkel_has': {ENOTFOUND, ECORRUPTION},
    'urkel_tx_get': {ENOTFOUND, ECORRUPTION},
    'urkel_tx_has': {ENOTFOUND, ECORRUPTION},
    'urkel_insert': {EINVAL, ENOTFOUND, ECORRUPTION, EBADWRITE},
    'urkel_tx_insert': {EINVAL, ECORRUPTION},
    'urkel_remove': {ENOTFOUND, ECORRUPTION, EBADWRITE},
    'urkel_tx_remove': {ENOTFOUND, ECORRUPTION},
    'urkel_prove': {ENOTFOUND, ECORRUPTION},
    'urkel_tx_prove': {ECORRUPTION},
    'urkel_verify': {EINVAL, 1, 2, 3, 4, 5, 6},
    'urkel_iterate': {ENOTFOUND}, 'urkel_tx_create': {ENOTFOUND},
    'urkel_iter_next': {EITEREND, ECORRUPTION},
    'urkel_tx_commit': {EBADWRITE},
}

OUTS = {
    'urkel_get': ('size',), 'urkel_tx_get': ('size',),
    'urkel_prove': ('proof_raw', 'proof_len'),
    'urkel_tx_prove': ('proof_raw', 'proof_len'),
    'urkel_verify': ('exists', 'value_len'),
}

NAMES = {1: 'URKEL_EHASHMISMATCH', 2: 'URKEL_ESAMEKEY', 3: 'URKEL_ESAMEPATH',
         4: 'URKEL_ENEGDEPTH', 5: 'URKEL_EPATHMISMATCH', 6: 'URKEL_ETOODEEP',
         7: 'URKEL_EINVAL', 8: 'URKEL_ENOTFOUND', 9: 'URKEL_ECORRUPTION',
         10: 'URKEL_ENOUPDATE', 11: 'URKEL_EBADWRITE', 12: 'URKEL_EBADOPEN',
         13: 'URKEL_EITEREND'}


def ev_name(v):
    return '%s' % NAMES.get(v[0], v[0]) if v[0] == v[1] else \
        'a value in %d..%d' % v


class ErrMon(Monitor):
    """monitor state: (what the error variable was last set to in this call,
    has reading a file failed)"""
    def __init__(self):
        self.root = None

    def init(self, f):
        return (None, False)

    def access(self, T, st, ins, p, rw, ty, val):
        if rw != 'w' or p[0] != 'p' or self.root is None:
            return
        for root, path in places(p):
            if root == self.root:
                v = (-1, 99)
                if val is not None and val[0] == 'i' and val[1] > -99 and \
                        val[2] < 99:
                    v = (val[1], val[2])
                T.oblige('error code', ins)
                st.mon = (v, st.mon[1])

    def sys(self, T, st, name, args, tag, v, ins):
        if name in ('open', 'pread', 'read') and tag in ('fail', 'eof',
                                                          'fail:ENOENT',
                                                          'fail:EEXIST'):
            st.mon = (st.mon[0], True)


def c03(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = ErrMon()
        T = tslib.new(m, mon)
        mon.root = errno_root(m, T)
        n = [0]

        def each(f, a, r, mem, mo):
            if r is None or not fails(m, f, r):
                return
            n[0] += 1
            code, bad = mo
            T.oblige('failing return of ' + f)
            allow = CODES[f]
            if code is None:
                res.viol('error-code-not-set', f, m.funcs[f].name,
                         '%s can fail without setting an error code'
                         % f, [f])
            elif not all(c in allow for c in range(code[0], code[1] + 1)):
                res.viol('wrong-error-code', f, m.funcs[f].name,
                         '%s can fail with %s, which is not an error of this '
                         'operation' % (f, ev_name(code)), [f])
            elif bad and ECORRUPTION in allow and f not in (
                    'urkel_insert', 'urkel_remove', 'urkel_get', 'urkel_has',
                    'urkel_prove') and code != (ECORRUPTION, ECORRUPTION):
                res.viol('unreadable-not-reported', f, m.funcs[f].name,
                         '%s fails because data cannot be read but reports %s'
                         % (f, ev_name(code)), [f])
            names = api.PARAMS[f].split()
            for o in OUTS.get(f, ()):
                p = a[names.index(o)]
                v = T.cell(mem, p[1], p[2])
                T.oblige('output %s of %s' % (o, f))
                if v is None or nonzero(v) is not False:
                    res.viol('output-not-cleared', f, m.funcs[f].name,
                             '%s can fail without setting *%s to zero' % (
                                 f, o), [f], o)
        run_api(T, m, each)
        res.take(T)
        res.need('failing returns', n[0], 17)
        res.need('stores to the error code', len(
            [k for k in T.obl if k[0] == 'error code']), 20)
    return res


# ------------------------------------------------------------------ C04
CRITICAL = {'open', 'read', 'pread', 'write', 'pwrite', 'fstat', 'fsync',
            'fdatasync', 'mkdir', 'rename', 'opendir', 'readdir', 'creat',
            'openat', 'fopen', 'fread', 'fwrite', 'sync_file_range',
            'msync', 'posix_fallocate', 'readv', 'writev', 'preadv',
            'pwritev'}
RETRY = ('fail:EINTR', 'fail:EINVAL')


def const_path(T, v):
    """text of a constant string argument"""
    if v is None or v[0] != 'p' or v[1][0] != 'G':
        return None
    g = T.m.globals.get(v[1][1]) or T.m.globals.get(v[1][1][1:])
    if not g or not g.get('const'):
        return None
    i = g.get('init')
    return i


def system_file(T, v):
    """a file of the system, such as the random device"""
    s = const_path(T, v)
    if s is None:
        return False
    s = s[1] if isinstance(s, tuple) and len(s) > 1 else s
    if isinstance(s, bytes):
        return s.startswith(b'/')
    return isinstance(s, str) and s.lstrip('c"').startswith('/')


def sys_open(T, st, args, ins):
    """the result for files of the system is marked"""
    r = table(T, st, tslib.FD, 'open', args, ins)
    if not system_file(T, args[0]):
        return r
    return [(tagged(v, 'sys') if tag == 'ok' else v, tag, s)
            for v, tag, s in r]


class IoMon(Monitor):
    """monitor state: failures which nothing has made up for:
    {(operation, site, can a retry make up for it)}"""
    def init(self, f):
        return frozenset()

    def sys(self, T, st, name, args, tag, v, ins):
        if name not in CRITICAL:
            return
        if name in ('open', 'creat') and system_file(T, args[0]):
            return
        if name in ('read', 'fstat', 'pread') and tag_of(args[0]) == 'sys':
            return
        T.oblige('critical call', ins)
        if tag == 'ok':
            st.mon = frozenset(x for x in st.mon
                               if not (x[0] == name and x[2]))
        elif tag == 'eof' and name == 'readdir':
            pass
        else:
            st.mon = st.mon | {(name, T.loc(ins), tag in RETRY)}

    def __init__(self):
        self.aborts = {}
        self.models = {'open': sys_open}

    def stop(self, T, st, ins):
        d = self.aborts.setdefault((T.stack[-1][0], T.loc(ins)), {})
        d.setdefault(st.mon, T.where())

    def abort(self, T, st, ins):
        self.stop(T, st, ins)

    def enter(self, T, st, name, args, ins):
        if T.aborts(name):
            self.stop(T, st, ins)

    def verdict(self, T, res):
        """an abort is the consequence of a failure where it is reached
        after failures only"""
        for (fn, loc), d in sorted(self.aborts.items()):
            if frozenset() in d or T.aborts(fn):
                continue
            for x in sorted({x for s in d for x in s}):
                res.viol('abort-after-io-failure', fn, loc, 'the process is '
                         'aborted after %s at %s has failed' % x[:2],
                         sorted(d.items(), key=str)[0][1], x[:2])


def c04(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = IoMon()
        T = tslib.new(m, mon)
        n = [0]

        def each(f, a, r, mem, mo):
            ok = r is not None and nonzero(r) is not False
            n[0] += 1
            if ok:
                T.oblige('successful return of ' + f)
                for x in sorted(mo):
                    res.viol('io-failure-reported-as-success', f, x[1],
                             '%s can return success although %s failed and '
                             'nothing made up for it' % (f, x[0]),
                             [f, x[1]], f)
        run_api(T, m, each)
        res.take(T)
        res.need('returns', n[0], 25)
        mon.verdict(T, res)
        from . import pdb
        pdb.failed_commits(ctx, cfg, res)
        res.need('critical calls', len({k for k in T.obl
                                        if k[0] == 'critical call'}), 8)
    return res


# ------------------------------------------------------------------ C06
O_ACC, O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_APPEND = \
    3, 1, 2, 0o100, 0o1000, 0o2000
READERS = ['urkel_hash', 'urkel_root', 'urkel_inject', 'urkel_get',
           'urkel_has', 'urkel_prove', 'urkel_verify', 'urkel_iterate',
           'urkel_tx_create', 'urkel_tx_destroy', 'urkel_tx_clear',
           'urkel_tx_root', 'urkel_tx_inject', 'urkel_tx_get',
           'urkel_tx_has', 'urkel_tx_prove', 'urkel_iter_create',
           'urkel_iter_destroy', 'urkel_iter_next', 'urkel_free',
           'urkel_tx_insert', 'urkel_tx_remove']
UPDATERS = ['urkel_insert', 'urkel_remove', 'urkel_tx_commit']
MODIFY = {'write', 'pwrite', 'unlink', 'rename', 'truncate', 'ftruncate',
          'mkdir', 'rmdir', 'remove', 'link', 'symlink', 'chmod', 'writev',
          'pwritev', 'fwrite', 'creat', 'fopen', 'posix_fallocate',
          'fallocate', 'unlinkat', 'renameat', 'openat', 'sendfile',
          'copy_file_range', 'fchmod', 'mkstemp', 'msync', 'openat64'}


def flags_of(v):
    return v[1] if v is not None and is_c(v) else None


class ModMon(Monitor):
    """monitor state: (kind of operation, has a write failed,
    value loaded as the recorded size of a file)"""
    def __init__(self):
        self.kind = {}

    def init(self, f):
        return (f, 'r' if f in READERS else 'u', False)

    def value(self, T, st, ins, p):
        if p[0] == 'p' and ins.ty.k == 'int':
            last = {q[-1] if q else None for _, q in places(p)}
            if last == {'urkel_file_s.size'}:
                return tagged(R(0, 1 << 62), 'recorded-size')
        return None

    def sys(self, T, st, name, args, tag, v, ins):
        f, kind, failed = st.mon
        what = 'a read operation' if kind == 'r' else 'an update'
        if name == 'open':
            if system_file(T, args[0]):
                return
            fl = flags_of(args[1])
            T.oblige('open', ins)
            if fl is None:
                T.report('unknown-open-mode', 'cannot tell how %s opens a '
                         'file' % f, ins, f)
                return
            w = fl & O_ACC
            if kind == 'r' and (w or fl & (O_CREAT | O_TRUNC)):
                T.report('writable-open', '%s (%s) opens a file for writing '
                         'or creating (flags %#o)' % (f, what, fl), ins, f)
            elif kind == 'u' and (fl & O_TRUNC or (w and not
                                                   fl & O_APPEND)):
                T.report('not-append-only', '%s opens a file for writing '
                         'which is truncated or not opened for appending '
                         '(flags %#o)' % (f, fl), ins, f)
            return
        if name == 'mmap':
            prot, fl = flags_of(args[2]), flags_of(args[3])
            T.oblige('mmap', ins)
            if prot is None or fl is None or (prot & 2 and fl & 1):
                T.report('writable-mapping', '%s maps a file shared and '
                         'writable' % f, ins, f)
            return
        if name not in MODIFY:
            return
        T.oblige(name, ins)
        if kind == 'r':
            T.report('read-modifies', '%s (%s) calls %s' % (f, what, name),
                     ins, f)
            return
        if name == 'write':
            if tag != 'ok':
                st.mon = (f, kind, True)
            return
        if name == 'ftruncate':
            if failed and tag_of(args[1]) == 'recorded-size':
                return
            T.report('truncation', '%s truncates a file %s' % (
                f, 'to something else than its recorded size' if failed
                else 'although no write has failed'), ins, f)
            return
        T.report('not-append-only', '%s (%s) calls %s' % (f, what, name),
                 ins, f)


def c06(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = ModMon()
        T = tslib.new(m, mon)
        n = run_api(T, m, lambda *a: None, READERS + UPDATERS)
        res.take(T)
        res.need('open sites', len({k for k in T.obl if k[0] == 'open'}), 1)
        res.need('write sites', len({k for k in T.obl if k[0] == 'write'}),
                 1)
        res.need('truncations', len({k for k in T.obl
                                     if k[0] == 'ftruncate'}), 0)
        res.need('returns', n, 25)
    return res

"""The lock between processes."""
from .ts import *
from . import tslib, api
from .eng import AnalysisBroken
from .pfs import run_api, fails, system_file

L, D = frozenset({'L'}), frozenset({'D'})
F_SETLK, F_SETLKW = 6, 7
F_RDLCK, F_WRLCK, F_UNLCK = 0, 1, 2
ACCESS = {'read', 'pread', 'write', 'pwrite', 'readv', 'writev', 'unlink',
          'rename', 'truncate', 'ftruncate', 'opendir', 'readdir', 'remove',
          'mmap', 'link', 'symlink', 'creat', 'fopen', 'scandir', 'openat',
          'unlinkat', 'renameat', 'chmod', 'fchmod', 'fsync', 'fdatasync',
          'posix_fallocate', 'fallocate', 'opendir64', 'open64', 'lseek'}


def stat_cell(T, mem, p, field):
    for root, path in places(p):
        for s in ('stat', 'stat64'):
            q = path + ('%s.%s' % (s, field),)
            if tracked(root, q):
                return (root, q)
    return None


class LockMon(Monitor):
    """monitor state: (operation, none / open / held / released,
    is the locked file still the one of that name: un(known) / same /
    stale)"""
    def __init__(self):
        self.models = {'open': self.open, 'fstat': self.fstat,
                       'stat': self.stat, 'lstat': self.stat,
                       'flock': [('0', 'ok'), ('-1', 'fail:EINTR'),
                                 ('-1', 'fail')]}
        self.fields = set()

    def init(self, f):
        if f in ('urkel_open', 'urkel_destroy'):
            return (f, 'none', 'un')
        return (f, 'held', 'same')

    def ret_key(self, r):
        if r is not None and r[0] == 'i':
            return (Monitor.ret_key(self, r), tag_of(r))
        return Monitor.ret_key(self, r)

    # models which know whether the lock file was replaced
    def open(self, T, st, args, ins):
        f, ph, va = st.mon
        lock = ph == 'none' and not system_file(T, args[0])
        return [(tagged(v, L if lock else D) if tag == 'ok' else v, tag, s)
                for v, tag, s in table(T, st, tslib.FD, 'open', args, ins)]

    def put(self, T, st, p, field, v):
        k = stat_cell(T, st.mem, p, field)
        if k is not None:
            st.mem[k] = v

    def variants(self, st):
        f, ph, va = st.mon
        if ph != 'held' or va != 'un':
            return [(st, va)]
        s = st.copy()
        st.mon, s.mon = (f, ph, 'same'), (f, ph, 'stale')
        return [(st, 'same'), (s, 'stale')]

    def fstat(self, T, st, args, ins):
        bad = st.copy()
        out = []
        if 'L' not in (tag_of(args[0]) or ()):
            tslib.clobber(T, st, args[1])
            return [(ZERO, 'ok', st), (C(-1), 'fail', bad)]
        for s, va in [(st, None)]:
            tslib.clobber(T, s, args[1])
            self.put(T, s, args[1], 'st_ino', ONE)
            self.put(T, s, args[1], 'st_dev', ONE)
            if s.mon[1] == 'held':
                self.links(T, s, args, out)
            else:
                out.append((ZERO, 'ok', s))
        out.append((C(-1), 'fail', bad))
        return out

    def links(self, T, st, args, out):
        """a file which was removed has no links any more"""
        f, ph, va = st.mon
        if va == 'un':
            s = st.copy()
            s.mon = (f, ph, 'stale')
            self.put(T, s, args[1], 'st_nlink', ZERO)
            out.append((ZERO, 'ok', s))
            st.mon = (f, ph, 'same')
            self.put(T, st, args[1], 'st_nlink', ONE)
            # the name may have been taken over by another file
            out.append((ZERO, 'ok', st))
            return
        self.put(T, st, args[1], 'st_nlink', ONE if va == 'same' else ZERO)
        out.append((ZERO, 'ok', st))

    def stat(self, T, st, args, ins):
        out = []
        f0, ph0, va0 = st.mon
        for v, tag, s in table(T, st.copy(), tslib.ZN, 'stat', args, ins):
            if tag != 'ok':
                out.append((v, tag, s))
        for s, va in self.variants(st):
            tslib.clobber(T, s, args[1])
            if va[:5] == 'stale':
                for a, b in ((1, 2), (2, 1)):
                    x = s.copy()
                    x.mon = (f0, ph0, 'stale%d' % a)
                    self.put(T, x, args[1], 'st_dev', C(a))
                    self.put(T, x, args[1], 'st_ino', C(b))
                    out.append((ZERO, 'ok', x))
            else:
                if va == 'same':
                    self.put(T, s, args[1], 'st_dev', ONE)
                    self.put(T, s, args[1], 'st_ino', ONE)
                out.append((ZERO, 'ok', s))
        return out

    def value(self, T, st, ins, p):
        """in other operations the descriptor of the lock is in the store"""
        if p[0] != 'p' or ins.ty.k != 'int' or not self.fields:
            return None
        last = {q[-1] if q else None for _, q in places(p)}
        if last and last <= self.fields:
            for r, q in places(p):
                if tracked(r, q) and T.cell(st.mem, r, q, st.env) is not None:
                    return None
            return tagged(R(0, (1 << 31) - 1), L)
        return None

    def sys(self, T, st, name, args, tag, v, ins):
        f, ph, va = st.mon
        if name == 'open':
            if system_file(T, args[0]):
                return
            if ph == 'none':
                T.oblige('open of the lock file', ins)
                if tag == 'ok':
                    st.mon = (f, 'open', 'un')
                return
            self.access_(T, st, name, ins)
        elif name in ('fcntl', 'flock'):
            self.lock(T, st, name, args, tag, ins)
        elif name == 'close':
            if 'L' in (tag_of(args[0]) or ()) and ph in ('open', 'held'):
                T.oblige('release of the lock', ins)
                st.mon = (f, 'released' if ph == 'held' else 'none', 'un')
        elif name in ACCESS:
            if name == 'read' and 'D' not in (tag_of(args[0]) or ()) and \
                    'L' not in (tag_of(args[0]) or ()):
                pass
            self.access_(T, st, name, ins)

    def lock(self, T, st, name, args, tag, ins):
        f, ph, va = st.mon
        if name == 'fcntl':
            if not is_c(args[1]) or args[1][1] not in (F_SETLK, F_SETLKW):
                return
            t = None
            if len(args) > 2 and args[2][0] == 'p':
                for root, path in places(args[2]):
                    t = T.cell(st.mem, root, path + ('flock.l_type',), st.env)
            if t is None or not is_c(t):
                T.report('lock-mode-unknown', 'cannot tell which lock is '
                         'taken', ins)
                return
            t = t[1]
        else:
            if not is_c(args[1]):
                return
            t = {1: F_RDLCK, 2: F_WRLCK, 8: F_UNLCK}.get(args[1][1] & 11, 9)
        if t == F_UNLCK:
            if ph == 'held':
                T.oblige('release of the lock', ins)
                st.mon = (f, 'released', 'un')
            return
        T.oblige('acquisition of the lock', ins)
        if tag != 'ok' or ph != 'open':
            return
        if t != F_WRLCK:
            T.report('lock-not-exclusive', '%s takes a lock which several '
                     'processes can hold' % f, ins)
        elif 'L' not in (tag_of(args[0]) or ()):
            T.report('other-file-locked', '%s locks another file than the '
                     'one it opened first' % f, ins)
        st.mon = (f, 'held', 'un')

    def access_(self, T, st, name, ins):
        f, ph, va = st.mon
        T.oblige('access to a file or to the directory', ins)
        if ph in ('none', 'open'):
            T.report('access-before-lock', '%s: %s() is reached without the '
                     'lock having been acquired' % (f, name), ins, f)
        elif ph == 'released':
            T.report('access-after-release', '%s: %s() is reached after the '
                     'lock has been released' % (f, name), ins, f)
        elif va == 'un':
            T.report('lock-not-revalidated', '%s: %s() is reached although '
                     'nothing was done since locking to find out whether the '
                     'locked file still has its name (its previous owner '
                     'removes it)' % (f, name), ins, f)
        elif va[:5] == 'stale':
            T.report('lock-on-removed-file', '%s: %s() is reached although '
                     'the locked file was removed or replaced meanwhile'
                     % (f, name), ins, f)


def c08(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = LockMon()

        # where does the open database keep the descriptor?
        T = tslib.new(m, mon)
        held = [0]

        def find(f, a, r, mem, mo):
            if f != 'urkel_open' or r is None or nonzero(r) is False:
                return
            held[0] += 1
            for (root, path), v in mem.items():
                if v is not None and 'L' in (tag_of(v) or ()) and path:
                    mon.fields.add(path[-1])
        run_api(T, m, find, ['urkel_open'])
        res.need('successful returns of urkel_open (%s)' % cfg, held[0])
        if not mon.fields:
            res.viol('lock-not-kept', 'urkel_open', m.funcs['urkel_open'].name,
                     'the descriptor of the lock is not kept in the open '
                     'database', ['urkel_open'])
        T = tslib.new(m, mon)
        n = [0]

        def each(f, a, r, mem, mo):
            n[0] += 1
            f0, ph, va = mo
            T.oblige('return of ' + f)
            loc = m.funcs[f].name
            if f == 'urkel_open' and r is not None and \
                    nonzero(r) is not False:
                if ph != 'held' or va != 'same':
                    res.viol('open-without-lock', f, loc, 'urkel_open can '
                             'succeed without holding a valid lock (%s)' % ph,
                             [f], ph)
            elif f in ('urkel_open', 'urkel_destroy', 'urkel_close'):
                if ph == 'held':
                    res.viol('lock-kept', f, loc, '%s can return with the '
                             'lock still held' % f, [f])
            elif ph != 'held':
                res.viol('lock-released-early', f, loc, '%s can release the '
                         'lock while the database stays open' % f, [f])
        run_api(T, m, each)
        res.take(T)
        res.note('fields which keep the lock', sorted(mon.fields))
        for k, least in (('open of the lock file', 1),
                         ('acquisition of the lock', 1),
                         ('release of the lock', 1),
                         ('access to a file or to the directory', 10)):
            res.need('%s (%s)' % (k, cfg),
                     len({x for x in T.obl if x[0] == k}), least)
    return res

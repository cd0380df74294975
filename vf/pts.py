"""Properties decided by property simulation (ts.py)."""
from .ts import *
from . import tslib, api
from .tslib import LOCKS, UNLOCKS


def lock_class(T, st, v):
    """the lock an argument of a pthread function denotes"""
    out = set()
    if v[0] != 'p':
        return None
    for root, path in places(v):
        own = None
        for s in reversed(path):
            if s in ('*', '[]', '~', '~?'):
                continue
            if is_lock_struct(T, s.split('.')[0]):
                continue
            own = s
            break
        at = st.mem.get((root, ('@o',)))
        if own is None and at is not None and not is_lock_struct(
                T, at[1][1][-1].split('.')[0]):
            own = at[1][1][-1]
        if own is None and root[0] == 'H':
            for (r, q), x in st.mem.items():
                if x[0] == 'p' and any(r2 == root for r2, _ in places(x)):
                    for s in reversed(q):
                        if '.' in s and not is_lock_struct(
                                T, s.split('.')[0]):
                            own = s
                            break
            if own is None:
                own = '%s@%s' % (root[1], root[2])
        if own is None and root[0] == 'G':
            own = root[1]
        out.add(own or '?')
    return '|'.join(sorted(out)) if len(out) > 1 else out.pop()


def is_lock_struct(T, s):
    """structs which consist of nothing but a system lock"""
    c = T.__dict__.setdefault('_lockst', {})
    if s not in c:
        di = T.m.struct_di(s)
        ms = T.m.members(di) if di else []
        c[s] = s.startswith('pthread_') or s.startswith('__pthread') or (
            len(ms) == 1 and (T.m.di_name(T.m.node(ms[0][3].get('baseType')))
                              or '').startswith('pthread_')) or (
            len(ms) == 1 and is_pthread(T.m, ms[0][3]))
    return c[s]


def is_pthread(m, mem):
    n = m.node(mem.get('baseType'))
    while n is not None:
        if (n.get('name') or '').startswith('pthread_'):
            return True
        n = m.node(n.get('baseType'))
    return False


class LockMon(Monitor):
    """monitor state: frozenset of (lock, mode)"""
    def __init__(self):
        self.edges = {}
        self.sites = set()
        self.check = True

    def init(self, fname):
        return frozenset(self.held0.get(fname, ()))

    held0 = {}
    inherit = ()

    def sys(self, T, st, name, args, tag, v, ins):
        if name in LOCKS:
            lk = lock_class(T, st, args[0])
            mode = 'R' if name.endswith('rdlock') else 'W'
            self.sites.add((T.loc(T.stack[-2][1]) if len(T.stack) > 1 and
                            T.stack[-2][1] is not None else T.loc(ins), lk))
            T.oblige('acquire', ins)
            for l, md in st.mon:
                if l == lk:
                    T.report('lock-reacquired', '%s is acquired while it is '
                             'already held' % lk, T.stack[-2][1] if
                             len(T.stack) > 1 else ins, lk)
                if (l, md) not in self.inherit:
                    self.edges.setdefault((l, lk), (T.loc(ins), T.where()))
            st.mon = st.mon | {(lk, mode)}
        elif name in UNLOCKS:
            lk = lock_class(T, st, args[0])
            T.oblige('release', ins)
            h = {x for x in st.mon if x[0] == lk}
            if not h:
                T.report('lock-not-held', '%s is released without being held'
                         % lk, T.stack[-2][1] if len(T.stack) > 1 else ins,
                         lk)
            st.mon = st.mon - h
        elif name.endswith('_destroy') and name.startswith('pthread_'):
            lk = lock_class(T, st, args[0])
            if any(x[0] == lk for x in st.mon):
                T.report('lock-destroyed-while-held', '%s is destroyed while '
                         'it is held' % lk, ins, lk)


ITER = [('urkel_tx_s.lock', 'R'), ('urkel_s.lock', 'R')]


def iter_locks(m):
    """what an iterator keeps locked while it exists"""
    return frozenset(ITER)


def show(h):
    return ', '.join('%s(%s)' % x for x in sorted(h)) or 'nothing'


def c02(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = LockMon()
        held = iter_locks(m)
        mon.held0 = {f: held for f in ('urkel_iter_next',
                                       'urkel_iter_destroy')}
        T = tslib.new(m, mon)
        for f in api.API:
            if f not in m.funcs:
                continue
            mon.inherit = mon.held0.get(f, ())
            a, rets = T.api(f, tslib.api_args(m))
            for r, mem, mo in rets:
                want = frozenset()
                if f in ('urkel_iter_next',):
                    want = held
                if f in ('urkel_iterate', 'urkel_iter_create'):
                    z = nonzero(r)
                    if z is True or (z is None and mo):
                        want = held
                    elif z is None:
                        want = frozenset()
                T.oblige('exit of ' + f)
                if mo != want:
                    T.stack = [(f, None)]
                    d = mo - want
                    res.viol('locks-at-return', f, m.funcs[f].name,
                             '%s returns %s holding %s instead of %s' % (
                                 f, retdesc(r), show(mo), show(want)),
                             [f])
        res.take(T)
        # order
        g = {}
        for (a, b), w in mon.edges.items():
            if a != b:
                g.setdefault(a, set()).add(b)
        res.note('lock order (%s)' % cfg, sorted('%s -> %s' % e
                                                 for e in mon.edges))
        for (a, b), w in sorted(mon.edges.items()):
            if a == b:
                continue
            seen, work = set(), [b]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += g.get(x, ())
            if a in seen:
                res.viol('lock-order', w[1][-2].split(' ')[0]
                         if len(w[1]) > 1 else '?', w[0],
                         '%s is acquired while %s is held, elsewhere they '
                         'are acquired in the opposite order' % (b, a), w[1])
        res.need('lock acquisitions', len(mon.sites), 5)
    return res


def retdesc(r):
    z = nonzero(r) if r is not None else None
    if r is None:
        return ''
    return {True: '(success)', False: '(zero)', None: ''}[z]


# ------------------------------------------------------------------ C01
class RaceMon(LockMon):
    def __init__(self):
        LockMon.__init__(self)
        self.acc = {}
        self.unk = {}
        self.skip = None

    def access(self, T, st, ins, p, rw, ty, val):
        if p[0] != 'p':
            return
        for root, path in places(p):
            self.one(T, st, ins, root, path, rw)

    def one(self, T, st, ins, root, path, rw):
        n = 0
        while root[0] == 'H':
            at = st.mem.get((root, ('@',)))
            if at is None:
                return
            root, path = at[1][0], at[1][1] + ('*',) + path
            n += 1
            if n > 5:
                break
        if root[0] in 'SA':
            return
        if root[0] == 'G':
            g = T.m.globals.get(root[1]) or T.m.globals.get(root[1][1:])
            if root[1] == '@errno' or (g and (g.get('const') or
                                              g.get('tls'))):
                return
            cls = (root[1], 'global')
        elif root[0] == 'T':
            if root[1] == self.skip:
                return
            last = ''
            raw = False
            for s in reversed(path):
                if '.' in s:
                    last = s + ('*' if raw else '')
                    break
                if s in ('*',):
                    raw = True
            cls = (root[1] + ':' + region(path), last)
        else:
            last = [s for s in path if '.' in s]
            if not last and not path:
                self.unk[T.loc(ins)] = self.unk.get(T.loc(ins), 0) + 1
                return
            self.unk[T.loc(ins)] = self.unk.get(T.loc(ins), 0) + 1
            return
        d = self.acc.setdefault(cls, {})
        k = (rw, st.mon)
        if k not in d:
            d[k] = (T.stack[-1][0], T.loc(ins), T.where())
        T.oblige('access', ins)


def region(path):
    # the top-level member below which the memory lies
    for s in path:
        if '.' in s:
            return s.split('.')[1]
    return ''


DESTROYERS = {'urkel_close': 'urkel_s', 'urkel_tx_destroy': 'urkel_tx_s',
              'urkel_iter_destroy': 'urkel_iter_s'}
SETUP = {'urkel_open', 'urkel_close', 'urkel_destroy'}


def excludes(h1, h2):
    for l, m1 in h1:
        for l2, m2 in h2:
            if l == l2 and 'W' in (m1, m2):
                return True
    return False


def c01(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        held = iter_locks(m)
        mon = RaceMon()
        mon.held0 = {f: held for f in ('urkel_iter_next',
                                       'urkel_iter_destroy')}
        T = tslib.new(m, mon)
        for f in api.API:
            if f in m.funcs and f not in DESTROYERS and f not in SETUP:
                T.api(f, tslib.api_args(m))
        res.take(T, reports=False)
        for f, s in sorted(DESTROYERS.items()):
            if f in m.funcs and f not in SETUP:
                T2 = tslib.new(m, mon)
                mon.skip = s
                T2.api(f, tslib.api_args(m))
                mon.skip = None
                res.take(T2, reports=False)
        pairs = 0
        for cls, d in sorted(mon.acc.items()):
            done = set()
            for (rw, h), w in sorted(d.items(), key=str):
                if rw != 'w':
                    continue
                for (rw2, h2), w2 in sorted(d.items(), key=str):
                    pairs += 1
                    if excludes(h, h2):
                        continue
                    k = (w[1], w2[1])
                    if k in done:
                        continue
                    done.add(k)
                    res.viol('data-race', w[0], w[1],
                             '%s is written in %s (%s) holding %s and %s in '
                             '%s (%s) holding %s: no common exclusive lock'
                             % ('.'.join(cls[1].split('.')[:2]), w[0], w[1],
                                show(h), 'written' if rw2 == 'w' else 'read',
                                w2[0], w2[1], show(h2)), w[2] + ['--'] +
                             w2[2], key=(cls[1],))
        res.note('shared locations (%s)' % cfg, len(mon.acc))
        res.note('locations written (%s)' % cfg,
                 sorted({c[1] for c, d in mon.acc.items()
                         if any(k[0] == 'w' for k in d)}))
        res.note('access pairs (%s)' % cfg, pairs)
        res.note('accesses through unresolved pointers (%s)' % cfg,
                 sorted(mon.unk.items())[:40])
        res.need('shared locations', len(mon.acc), 20)
    return res

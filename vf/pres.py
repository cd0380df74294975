"""Descriptors, mappings and directory handles."""
from .ts import *
from . import tslib, api
from .eng import AnalysisBroken
from .pfs import run_api, fails

NEW = ('fd', 'new')
USES = {'read': 0, 'pread': 0, 'write': 0, 'pwrite': 0, 'fstat': 0,
        'ftruncate': 0, 'fsync': 0, 'fdatasync': 0, 'fcntl': 0, 'lseek': 0,
        'flock': 0, 'readv': 0, 'writev': 0, 'mmap': 4, 'readdir': 0,
        'rewinddir': 0, 'dirfd': 0, 'posix_fadvise': 0, 'madvise': 0,
        'msync': 0, 'fdopendir': 0}
KIND = {'close': 'descriptor', 'munmap': 'mapping', 'closedir': 'directory'}


def show(n):
    if n[0] == 'fd':
        return 'the descriptor opened at %s' % (n[1],)
    if n[0] == '@':
        return 'the handle in %s' % (n[2][-1] if n[2] else n[1],)
    return 'the handle made at %s' % (n[2],)


class ResMon(Monitor):
    """monitor state: (handles which are open and were opened in this call,
    handles which were closed, fields whose handle was closed)"""
    def __init__(self):
        self.models = {'open': self.open, 'malloc': self.heap,
                       'calloc': self.heap}
        self.fields = {}
        self.met = set()
        self.made = {}
        self.frozen = False

    def init(self, f):
        return (frozenset(), frozenset(), frozenset())

    def ret_key(self, r):
        if r is not None and r[0] == 'i':
            return (Monitor.ret_key(self, r), tag_of(r))
        return Monitor.ret_key(self, r)

    def heap(self, T, st, args, ins):
        site = ('H', T.stack[-1][0], T.loc(ins))
        if (site, ('#',)) in st.mem:
            # an older object of this place, about which nothing more is
            # known from here on
            kept = set()
            for (r, q), v in st.mem.items():
                if r == site:
                    kept |= self.names(v)
                    for n in self.names(v) & st.mon[0]:
                        self.keep(q, n)
            op, cl, pl = st.mon
            if kept & op:
                st.mon = (op - kept, cl, pl)
        return tslib.heap(T, st, args, ins)

    def open(self, T, st, args, ins):
        return [(tagged(v, frozenset([NEW])) if tag == 'ok' else v, tag, s)
                for v, tag, s in table(T, st, tslib.FD, 'open', args, ins)]

    def value(self, T, st, ins, p):
        """a descriptor which was opened by an earlier call"""
        if p[0] != 'p' or ins.ty.k != 'int' or ins.ty.w != 32:
            return None
        last = {q[-1] if q else None for _, q in places(p)}
        if not last <= set(self.fields):
            return None
        pl = places(p)
        for r, q in pl:
            if tracked(r, q) and T.cell(st.mem, r, q, st.env) is not None:
                return None
            if r[0] != 'T':
                return None
        v = tagged(R(-1, (1 << 31) - 1),
                   frozenset(('@', r, q) for r, q in pl))
        if len(pl) == 1 and tracked(*list(pl)[0]):
            st.mem[list(pl)[0]] = v
        return v

    # ---- which handle is it
    def names(self, v):
        if v is None:
            return frozenset()
        if v[0] == 'i':
            return tag_of(v) or frozenset()
        if v[0] != 'p':
            return frozenset()
        out = set()
        for r, q in places(v):
            if r[0] == 'H' and r in self.made and not q:
                out.add(r)
            elif r[0] in 'TH' and q[-1:] == ('*',) and \
                    q[-2:-1] and q[-2] in self.fields:
                out.add(('@', r, q[:-1]))
        return frozenset(out)

    def sys(self, T, st, name, args, tag, v, ins):
        op, cl, pl = st.mon
        if name in ('open', 'mmap', 'opendir', 'openat', 'dup', 'fopen') and \
                tag == 'ok':
            T.oblige('acquisition', ins)
            if name in ('mmap', 'opendir'):
                for r, q in places(v):
                    self.made[r] = 'mapping' if name == 'mmap' \
                        else 'directory'
            n = self.names(v)
            st.mon = (op | n, cl - n, pl)
        if name in KIND:
            ns = self.names(args[0])
            if not ns or (args[0][0] == 'i' and args[0][2] < 0):
                return
            T.oblige('release', ins)
            if len(ns) > 1:
                # one of several: keep what is certain
                for n in ns:
                    if n[0] == '@':
                        self.met.add((T.stack[0][0], n[2][-1]))
                        pl = pl | {n[1:]}
                st.mon = (op - ns, cl, pl)
                return
            n = next(iter(ns))
            if n[0] == '@':
                self.met.add((T.stack[0][0], n[2][-1]))
                if n[1:] in pl and self.exact(n):
                    T.report('closed-twice', '%s is closed a second time'
                             % show(n), ins, n)
                st.mon = (op, cl, pl | {n[1:]})
                return
            if n in cl:
                T.report('closed-twice', '%s is closed a second time'
                         % show(n), ins, n)
            st.mon = (op - ns, cl | ns, pl)
        elif name in USES and USES[name] < len(args):
            ns = self.names(args[USES[name]])
            T.oblige('use', ins)
            for n in ns:
                if (n in cl and n not in op) or (
                        n[0] == '@' and n[1:] in pl and self.exact(n)):
                    T.report('used-after-close', '%s is used by %s() after '
                             'it was closed' % (show(n), name), ins, n)

    def refined(self, T, st, old, new):
        """a field which is found to keep nothing, or an object"""
        if old[0] == 'p' and new[0] == 'p' and new[3] == 'nn' and \
                old[3] != 'nn':
            pl0 = places(old)
            if len(pl0) == 1:
                r, q = list(pl0)[0]
                if r[0] == 'T' and q[-1:] == ('*',) and '[]' in q and \
                        self.struct_of(T.m, r, q) in {
                            f.split('.')[0] for f in self.fields}:
                    op, cl, pl = st.mon
                    st.mon = (op, cl, pl | {('seen', r, q)})
        if old[0] == 'i' and tag_of(old) and new[2] < 0 or \
                old[0] == 'p' and (new == ZERO or is_null(new)):
            ns = {n[1:] for n in self.names(old) if n[0] == '@'}
            if ns:
                op, cl, pl = st.mon
                st.mon = (op, cl, pl | ns)

    def keep(self, path, n):
        if path and '.' in path[-1] and not self.frozen:
            self.fields[path[-1]] = 'descriptor' if n[0] == 'fd' else \
                self.made.get(n, 'mapping')

    def exact(self, n):
        return n[1][0] == 'T' and '[]' not in n[2] and '~' not in n[2]

    def access(self, T, st, ins, p, rw, ty, val):
        op, cl, pl = st.mon
        if p[0] != 'p':
            return
        if rw == 'w' and val is not None and val == ZERO and pl:
            for r, q in places(p):
                if ('seen', r, q + ('*',)) in pl:
                    T.oblige('removal of an object from the open database',
                             ins)
                    pl = pl - {('seen', r, q + ('*',))} | {
                        ('out', r, q + ('*',))}
                    st.mon = (op, cl, pl)
        if rw == 'w' and op and val is not None:
            ns = self.names(val) & op
            if val[0] == 'p' and not ns and all(
                    '[]' in q for r, q in places(p)):
                # the object is now kept in an array
                ns = set()
                for r, q in places(val):
                    for (r2, q2), v in st.mem.items():
                        if r2 == r and r[0] == 'H':
                            ns |= self.names(v) & op
                            for n in self.names(v) & op:
                                self.keep(q2, n)
                op = op - ns
                st.mon = (op, cl, pl)
            if ns and len(places(p)) > 1 or ns and all(r[0] == 'H' and st.mem.get((r, ('#',))) == C(2)
                          or r[0] == 'T' and not tracked(r, q)
                          for r, q in places(p)):
                op = op - ns
                st.mon = (op, cl, pl)
        for r, q in places(p):
            if r in cl and r not in op and r in self.made:
                T.report('used-after-close', '%s is used after it was '
                         'released' % show(r), ins, r)
            elif r[0] == 'T' and pl and rw == 'r':
                for i, s in enumerate(q):
                    if s == '*' and (r, q[:i]) in pl and '[]' not in q[:i]:
                        T.report('used-after-close', 'the mapping in %s is '
                                 'used after it was released'
                                 % (q[i - 1],), ins, q[:i])
            if rw == 'w' and q and q[-1] in self.fields and val is not None:
                self.overwrite(T, st, r, q, val, ins)

    def overwrite(self, T, st, r, q, val, ins):
        """a handle must not be lost by storing something else over it"""
        op, cl, pl = st.mon
        if r[0] != 'T' or not tracked(r, q):
            return
        T.oblige('assignment to a field which keeps a handle', ins)
        if (r, q) in pl:
            if self.names(val):
                # now the field has a new life
                st.mon = (op, cl, pl - {(r, q)})
            return
        v = T.cell(st.mem, r, q, st.env)
        if v is not None and (v[0] == 'i' and v[2] < 0 or is_null(v)):
            return
        if self.names(val) == {('@', r, q)}:
            return
        T.report('overwritten-while-open', 'the handle in %s is replaced '
                 'without having been released' % q[-1], ins, q[-1])

    def before(self, T, st, name, args, ins):
        if name != 'free' or not args or args[0][0] != 'p':
            return
        op, cl, pl = st.mon
        drop = set()
        for r, q in places(args[0]):
            if r[0] == 'H' and not q:
                if st.mem.get((r, ('#',))) == C(2):
                    continue
                for (r2, q2), v in st.mem.items():
                    if r2 != r or q2[-1:] in (('@',), ('@o',), ('#u',)):
                        continue
                    for n in self.names(v) & op:
                        if not self.elsewhere(st, n, r):
                            T.report('freed-while-open', 'memory is '
                                     'released while %s is still open '
                                     'in it' % show(n), ins, n)
            elif r[0] == 'T':
                self.object_freed(T, st, r, q, ins)
                drop |= {x for x in pl if x[-2] == r and
                         x[-1][:len(q)] == q}
        if drop:
            op, cl, pl = st.mon
            st.mon = (op, cl, pl - drop)

    def elsewhere(self, st, n, r):
        for (r2, q2), v in st.mem.items():
            if r2 != r and n in self.names(v):
                return True
        for v in st.env.values():
            if v[0] == 'i' and n in self.names(v):
                return True
        return False

    def object_freed(self, T, st, r, q, ins):
        sn = self.struct_of(T.m, r, q)
        op, cl, pl = st.mon
        for f, kind in self.fields.items():
            if f.split('.')[0] != sn:
                continue
            at = (r, q + (f,))
            T.oblige('release of an object which keeps a handle', ins)
            if at in pl:
                continue
            v = T.cell(st.mem, r, q + (f,), st.env) if tracked(*at) else None
            if v is not None and v[0] == 'i' and v[2] < 0:
                continue
            if v is not None and kind == 'mapping' and is_null(v):
                continue
            T.report('freed-while-open', 'the object is released although '
                     'the %s in its field %s was not' % (kind, f), ins, f)

    def struct_of(self, m, r, q):
        """the struct type of the object at this place"""
        q = list(q)
        n = 0
        while q and q[-1] in ('*', '[]'):
            n += q.pop() == '*'
        if not q:
            return r[1] if n == 0 else None
        if '.' not in q[-1]:
            return None
        s, f = q[-1].split('.', 1)
        di = m.struct_di(s)
        for x in m.members(di) if di else ():
            if x[2] == f:
                t = m.strip(x[3])
                for _ in range(n):
                    t = m.pointee(t) if t else None
                return t.get('name') if isinstance(t, dict) else None
        return None

    def leave(self, T, st, name, args, r, ins):
        op, cl, pl = st.mon
        if any(x[0] == 'seen' for x in pl):
            pl = frozenset(x for x in pl if x[0] != 'seen')
            st.mon = (op, cl, pl)
        if not op and not cl:
            return None
        mp = {}
        here = ('fd', T.loc(ins))
        if NEW in op or NEW in cl:
            mp[NEW] = here
        if r is not None and r[0] == 'i' and tag_of(r):
            for n in tag_of(r):
                if n[0] == 'fd' and n in op:
                    mp[n] = here
        if mp:
            if here in op and here not in mp:
                here2 = here + (2,)
                mp = {k: here2 for k in mp}
            op = frozenset(mp.get(n, n) for n in op)
            cl = frozenset(mp.get(n, n) for n in cl)
            r = self.ren(r, mp)
            for k, v in list(st.mem.items()):
                st.mem[k] = self.ren(v, mp)
            for k, v in list(st.env.items()):
                st.env[k] = self.ren(v, mp)
        if cl:
            live = set()
            for v in list(st.mem.values()) + list(st.env.values()):
                if v[0] == 'i' and tag_of(v):
                    live |= tag_of(v)
                elif v[0] == 'p':
                    live |= {x for x, _ in places(v) if x in self.made}
            if r is not None:
                live |= self.names(r)
            cl = cl & live
        st.mon = (op, cl, pl)
        return [(r, st)]

    def ren(self, v, mp):
        t = tag_of(v) if v is not None and v[0] == 'i' else None
        if t and any(n in mp for n in t):
            return tagged(v, frozenset(mp.get(n, n) for n in t))
        return v


def reachable(mem, r):
    """roots which can still be reached after the call"""
    todo = [k[0] for k in mem if k[0][0] in 'TAG']
    todo += [k[0] for k in mem if k[1] == ('@',)]
    if r is not None and r[0] == 'p':
        todo += [x for x, _ in places(r)]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for (r2, q), v in mem.items():
            if r2 == x and v[0] == 'p':
                todo += [y for y, _ in places(v)]
    return seen


def c15(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = ResMon()

        # where does the open database keep handles?
        def find(f, a, r, mem, mo):
            if r is None or nonzero(r) is False:
                return
            ok = reachable(mem, r)
            for (root, path), v in mem.items():
                if root not in ok or not path or v is None or \
                        path[-1] in ('@', '@o', '#', '#u'):
                    continue
                for n in mon.names(v) & mo[0]:
                    if n[0] == 'fd':
                        mon.fields[path[-1]] = 'descriptor'
                    elif n in mon.made:
                        mon.fields[path[-1]] = mon.made[n]
        run_api(tslib.new(m, mon), m, find, ['urkel_open'])
        mon.frozen = True
        res.need('fields which keep a handle (%s)' % cfg, len(mon.fields), 1)
        n = [0]

        def each(f, a, r, mem, mo):
            n[0] += 1
            T.oblige('return of ' + f)
            ok = reachable(mem, r)
            kept = set()
            for (root, path), v in mem.items():
                if root in ok and path[-1:] not in (('@',), ('@o',)):
                    kept |= mon.names(v)
            for x in sorted(mo[2], key=str):
                if x[0] == 'out':
                    res.viol('object-lost', f, x[2][-3] if len(x[2]) > 2
                             else x[2][-1], '%s can return without having '
                             'released an object with open handles which it '
                             'has taken out of %s' % (f, ' '.join(x[2])),
                             [f], (f, x[2]))
            for x in sorted(mo[0] - kept, key=str):
                res.viol('leak', f, str(x[1] if x[0] == 'fd' else x[2]),
                         '%s can return with %s still open and not kept '
                         'anywhere' % (f, show(x)), [f], f)
        for oom in (False, True):
            T = tslib.new(m, mon, oom=oom)
            run_api(T, m, each)
            res.take(T)
        for f, kind in sorted(mon.fields.items()):
            if ('urkel_close', f) not in mon.met:
                res.viol('never-released', 'urkel_close', f, 'closing the '
                         'database never releases the %s kept in %s' % (kind, f),
                         ['urkel_close'])
        res.note('fields which keep a handle', dict(mon.fields))
        for k, least in (('acquisition', 2), ('release', 3), ('use', 5),
                         ('release of an object which keeps a handle', 1)):
            res.need('%s (%s)' % (k, cfg),
                     len({x for x in T.obl if x[0] == k}), least)
    return res

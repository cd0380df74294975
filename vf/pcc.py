"""Properties about resources and calls of the C library."""
from .ts import *
from . import tslib, api
from .eng import AnalysisBroken
from .pfs import run_api, fails

ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'reallocarray'}


# ------------------------------------------------------------------ C23
class OomMon(Monitor):
    """monitor state: the allocation which failed on this path"""
    null_root = True

    def init(self, f):
        return None

    def sys(self, T, st, name, args, tag, v, ins):
        if name in ALLOC:
            T.oblige('allocation', ins)
            if tag == 'fail' and st.mon is None:
                st.mon = T.loc(ins)

    def access(self, T, st, ins, p, rw, ty, val):
        if st.mon is None or p is None:
            return
        bad = p == ZERO or (p[0] == 'p' and any(
            r == NULLROOT for r, _ in places(p)))
        T.oblige('access after a failed allocation', ins)
        if bad:
            T.report('failed-allocation-used', 'the result of the allocation '
                     'at %s is used here although it failed' % st.mon, ins,
                     st.mon)

    def before(self, T, st, name, args, ins):
        if st.mon is None or name in ('free', 'realloc') or \
                name.startswith('pthread') or name in T.m.funcs:
            return
        for k in PTRARGS.get(name, ()):
            if k < len(args) and args[k] is not None and (
                    args[k] == ZERO or args[k][0] == 'p' and any(
                        r == NULLROOT for r, _ in places(args[k]))):
                T.report('failed-allocation-used', 'the result of the '
                         'allocation at %s is passed to %s() although it '
                         'failed' % (st.mon, name), ins, st.mon)


PTRARGS = {'strlen': (0,), 'strcmp': (0, 1), 'read': (1,), 'write': (1,),
           'pread': (1,), 'pwrite': (1,), 'open': (0,), 'stat': (0, 1),
           'lstat': (0, 1), 'fstat': (1,), 'unlink': (0,), 'rename': (0, 1),
           'opendir': (0,), 'readdir': (0,), 'closedir': (0,), 'qsort': (0,),
           'pthread_mutex_init': (0,), 'pthread_rwlock_init': (0,),
           'mkdir': (0,), 'rmdir': (0,), 'truncate': (0,), 'getcwd': (),
           'strcpy': (0, 1), 'strcat': (0, 1), 'strncpy': (0, 1),
           'memchr': (0,), 'strchr': (0,), 'strrchr': (0,), 'fputs': (0,)}


def c23(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg)
        mon = OomMon()
        T = tslib.new(m, mon, oom=True)
        n = run_api(T, m, lambda *a: None)
        res.take(T)
        res.need('returns (%s)' % cfg, n, 28)
        res.need('allocations (%s)' % cfg,
                 len({x for x in T.obl if x[0] == 'allocation'}), 10)
    return res


# ------------------------------------------------------------------ C22
ERRNO2 = ('G', '@urkel_errno')
EITEREND = 13
NOFAIL = {'urkel_hash', 'urkel_root', 'urkel_close', 'urkel_free',
          'urkel_iter_destroy', 'urkel_tx_destroy', 'urkel_tx_clear',
          'urkel_tx_root'}


class CliMon(Monitor):
    """one simulation per command.  monitor state: (operations which failed,
    operations which succeeded, what was asked for)"""
    def __init__(self, m, names):
        self.cmd = None
        self.helps = False
        self.models = {'__urkel_get_errno': self.get_errno,
                       'strcmp': self.strcmp}
        for n in names:
            self.models[n] = self.model(n, m.fn_sig(n)[0]
                                        if n in m.funcs else None)
        # constant tables of {name, code}
        self.tables = {}
        for g, d in m.globals.items():
            tb = self.table(m, d.get('init')) if d.get('const') else None
            if tb:
                self.tables[g.lstrip('@')] = tb

    @staticmethod
    def string(m, g):
        d = m.globals.get(g) or m.globals.get(g.lstrip('@'))
        if d and d.get('const') and d.get('init') and \
                d['init'][0] == 'bytes':
            return d['init'][1].rstrip(b'\0').decode('latin1')
        return None

    def table(self, m, init):
        if not init or init[0] != 'agg':
            return None
        out = {}
        for _, e in init[1]:
            if e[0] != 'agg':
                return None
            s = [self.string(m, v[1]) for _, v in e[1] if v[0] == 'g']
            n = [v[1] for _, v in e[1] if v[0] == 'i']
            if len(s) != 1 or len(n) != 1 or s[0] is None:
                return None
            out[s[0]] = n[0]
        return out if set(CMDS) <= set(out) else None

    def value(self, T, st, ins, p):
        if p[0] == 'p' and p[1][0] == 'G' and ins.ty.k == 'int':
            tb = self.tables.get(p[1][1].lstrip('@'))
            if tb:
                bad, good, ask = st.mon
                st.mon = (bad, good, self.cmd)
                self.asked = True
                return C(tb[self.cmd])
        return None

    def strcmp(self, T, st, args, ins):
        lit = None
        for a in args[:2]:
            if a is not None and a[0] == 'p' and a[1][0] == 'G':
                lit = lit or self.string(T.m, a[1][1])
        bad, good, ask = st.mon
        if lit in ('--help', '-h'):
            self.helps = True
            s = st.copy()
            s.mon = (bad, good, 'help')
            return [(ZERO, 'ok', s), (R(1, 255), 'ok', st)]
        if lit in CMDS:
            if lit != self.cmd:
                return [(R(1, 255), 'ok', st)]
            s = st.copy()
            s.mon = (bad, good, self.cmd)
            self.asked = True
            return [(ZERO, 'ok', s)]
        if lit is not None:
            s = st.copy()
            return [(ZERO, 'ok', s), (R(1, 255), 'ok', st)]
        return [(TOP, 'ok', st)]

    def get_errno(self, T, st, args, ins):
        return [(PTR(ERRNO2, (), 'nn'), 'ok', st)]

    def model(self, n, ret):
        def run(T, st, args, ins):
            k = T.m.funcs[n].ret.k if n in T.m.funcs else 'int'
            for a in args:
                if a is not None and a[0] == 'p':
                    tslib.clobber(T, st, a)
            cell = (ERRNO2, ())
            if k == 'void':
                return [(None, 'ok', st)]
            T.oblige('operation', ins)
            out = []
            if n not in NOFAIL:
                s = st.copy()
                s.mem[cell] = R(1, 12)
                out.append((ZERO, 'fail', s))
            if n == 'urkel_iter_next':
                s = st.copy()
                s.mem[cell] = C(EITEREND)
                out.append((ZERO, 'end', s))
            v = PTR(('H', T.stack[-1][0], T.loc(ins)), (), 'nn') \
                if k == 'ptr' else C(1)
            out.append((v, 'ok', st))
            return out
        return run

    def init(self, f):
        return (frozenset(), frozenset(), None)

    def sys(self, T, st, name, args, tag, v, ins):
        if name not in api.API or name in NOFAIL and name != 'urkel_root':
            return
        bad, good, ask = st.mon
        if tag == 'fail':
            bad = bad | {(name, T.loc(ins))}
        elif tag in ('ok', 'end'):
            good = good | {name if tag == 'ok' else 'end'}
            bad = frozenset(x for x in bad if x[0] != name)
        st.mon = (bad, good, ask)

    def exit_(self, T, st, v, ins):
        self.done(T, st.mon, v, T.loc(ins))

    def done(self, T, mo, v, loc):
        T.oblige('exit of the tool with a status')
        if v is not None and nonzero(v) is True:
            return
        bad, good, ask = mo
        self.good |= good
        for n, at in sorted(bad):
            self.res.viol('failure-exits-zero', 'main', at, 'the tool can '
                          'exit with status 0 although %s failed' % n,
                          ['main', at], n)
        if ask == 'help':
            return
        if ask is None:
            if self.helps and self.asked:
                self.res.viol('nothing-requested-exits-zero', 'main', loc,
                              'the tool can exit with status 0 although '
                              'neither help nor any operation was requested',
                              ['main', loc])
            return
        for n in CMDS[ask]:
            if n not in good:
                self.res.viol(
                    'operation-skipped', 'main', loc, 'the tool can exit with '
                    'status 0 for "%s" although %s' % (
                        ask, 'the iteration did not reach its end'
                        if n == 'end' else n + ' was not done'),
                    ['main', loc], (ask, n))


CMDS = {'create': ('urkel_open',), 'destroy': ('urkel_destroy',),
        'info': ('urkel_open', 'urkel_root', 'urkel_iterate', 'end'),
        'root': ('urkel_open', 'urkel_root'),
        'get': ('urkel_open', 'urkel_get'),
        'insert': ('urkel_open', 'urkel_insert'),
        'remove': ('urkel_open', 'urkel_remove'),
        'list': ('urkel_open', 'urkel_iterate', 'end'),
        'prove': ('urkel_open', 'urkel_prove'),
        'verify': ('urkel_verify',)}

OPS = ['urkel_open', 'urkel_destroy', 'urkel_root', 'urkel_get',
       'urkel_insert', 'urkel_remove', 'urkel_prove', 'urkel_verify',
       'urkel_iterate', 'urkel_iter_next']


def c22(ctx):
    res = ctx.result()
    for cfg in ctx.configs:
        m = ctx.mod(cfg, cli=True)
        if 'main' not in m.funcs:
            raise AnalysisBroken('no main()')
        mon = CliMon(m, api.API)
        mon.res, mon.good = res, set()
        a = [R(0, 1 << 20), PTR(('A', 'argv'), (), 'nn')]
        for cmd in CMDS:
            mon.cmd, mon.asked = cmd, False
            T = tslib.new(m, mon)
            T.stack = [('main', None)]
            for r, mem, mo in T.run('main', a, {}, mon.init('main')):
                mon.done(T, mo, r, 'main')
            res.take(T)
            if not mon.asked:
                res.undecided.append('which operation "%s" requests' % cmd)
        for n in OPS:
            if n not in mon.good:
                res.viol('operation-not-performed', 'main', n, 'no successful '
                         'run of the tool performs %s' % n, ['main'], n)
        res.need('calls of operations (%s)' % cfg,
                 len({x for x in res.obl if x[0] == 'operation'}), 9)
    return res

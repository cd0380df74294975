"""Memory safety monitor on the region domain: bounds, lifetime, ownership,
initialisation, aborts."""
import multiprocessing, os, signal, sys, time
from .dom import *
from .eng import MADE, ONAMES, Ptr
from .mon import Mon


class Mem(Mon):
    rules = frozenset(['null', 'dangling', 'use-after-free', 'double-free',
                       'bad-free', 'uninit', 'uninit-pointer', 'bounds',
                       'abort', 'leak'])
    bounds = True

    def __init__(self, live=False):
        self.acc = set()

    def bounds_check(self, e, st, o, p, size, rw, ins):
        self.acc.add((e.where()[0] if e.where() else None, rw))
        lo = st.num.entails(p.off)
        hi = st.num.entails(o.size.sub(p.off).sub(size))
        if not (lo and hi):
            e.mon_viol(st, 'bounds', '%s of %r bytes at offset %r of %s '
                       '(%r bytes)' % (rw, size, p.off, ONAMES[p.oid],
                                       o.size))

    def on_abort(self, e, st, ins):
        e.mon_viol(st, 'abort', 'the process may be aborted')


def reach(st, vals):
    seen = set()
    work = [v.oid for v in vals if isinstance(v, Ptr)]
    while work:
        i = work.pop()
        if i in seen or i not in st.objs:
            continue
        seen.add(i)
        for c in st.objs[i].cells.values():
            if isinstance(c[1], Ptr):
                work.append(c[1].oid)
    return seen


def leaks(e, st, ret):
    """Blocks allocated and not released which nothing refers to at the end
    of a call."""
    roots = [Ptr(i) for i, o in st.objs.items()
             if o.kind in ('lazy', 'global')]
    seen = reach(st, roots + [ret])
    return [o for i, o in st.objs.items()
            if o.kind == 'heap' and o.status != 'freed' and i not in seen
            and o.nul != 'null' and 'in' not in o.g]


# ------------------------------------------------------------ C14 ownership

class Own(Mem):
    bounds = False
    factcap = 10
    rules = frozenset(['null', 'dangling', 'use-after-free', 'double-free',
                       'bad-free', 'uninit', 'uninit-pointer', 'leak'])

    def __init__(self):
        Mem.__init__(self)
        self.freed = set()
        self.on_free = self._free
        self.rec_exit = self._rec_exit

    def _rec_exit(self, e, st, fn, r, nodes, base):
        roots = [Ptr(i) for i in base.objs] + [Ptr(i) for i in nodes]
        seen = reach(st, roots + [r] + [
            Ptr(i) for i, o in st.objs.items() if o.kind in ('lazy',
                                                             'global')])
        for i, o in st.objs.items():
            if o.kind == 'heap' and o.status != 'freed' and \
                    i not in seen and o.nul != 'null' and \
                    i not in base.objs and 'in' not in o.g:
                e.mon_viol(st, 'leak', '%s is neither released nor '
                           'reachable when %s returns' % (e.name(o),
                                                          fn.name))
        # nothing which is still used may refer to a released block
        work = [p for p in [Ptr(i) for i in nodes] + [r]
                if isinstance(p, Ptr) and p.oid in st.objs]
        if isinstance(r, Ptr) and r.oid in st.objs and \
                st.objs[r.oid].status == 'freed':
            e.mon_viol(st, 'dangling', '%s returns %s, which was released' % (
                fn.name, e.name(st.objs[r.oid])))
        seen = set()
        while work:
            i = work.pop().oid
            if i in seen or i not in st.objs or \
                    st.objs[i].status == 'freed':
                continue
            seen.add(i)
            for c in st.objs[i].cells.values():
                if isinstance(c[1], Ptr) and c[1].oid in st.objs:
                    if st.objs[c[1].oid].status == 'freed':
                        e.mon_viol(st, 'dangling', '%s still refers to %s, '
                                   'which was released, when %s returns' % (
                                       e.name(st.objs[i]),
                                       e.name(st.objs[c[1].oid]), fn.name))
                    work.append(c[1])
        for i, o in st.objs.items():
            k = MADE.get(i)
            if o.status != 'freed' or o.kind != 'lazy' or k is None or \
                    k[0] not in seen or not k[1].const or \
                    k[1].c in st.objs[k[0]].cells or \
                    e.stale_gen(st, o):
                continue
            e.mon_viol(st, 'dangling', '%s still refers to %s, which was '
                       'released, when %s returns' % (
                           e.name(st.objs[k[0]]), e.name(o), fn.name))

    def on_abort(self, e, st, ins):
        pass

    def _free(self, e, st, p, ins):
        self.freed.add(e.loc(ins))


# store operations with loops over the whole write buffer: taken as "may change
# anything of the store, does not touch the nodes" in their callers and
# analysed as entry points of their own
STUBS = ('urkel_store_flush', 'urkel_store_write_meta')


def stub(e, st, args, ins):
    fn = e.m.funcs[ins.x[1:]]
    for a in args:
        if isinstance(a, Ptr) and a.oid in st.objs:
            o = st.objs[a.oid]
            if o.dty is not None and o.dty.get('name') == 'urkel_node_s':
                continue
            for c in list(o.cells.values()):
                if isinstance(c[1], Ptr) and c[1].oid in st.objs and \
                        st.objs[c[1].oid].kind == 'heap':
                    st.wr(c[1].oid).g['in'] = a.oid
            e.havoc_range(st, a.oid, 0, None)
    if fn.ret.k == 'void':
        return [(None, st)]
    s2 = st.copy()
    return [(Lin(0), st), (Lin(1), s2)]


def one(args):
    """Worker: one public function."""
    from . import ir, libc, api
    from .eng import Engine, AnalysisBroken
    repo, cfg, f, limit = args
    sys.setrecursionlimit(20000)
    signal.alarm(limit)
    t = time.time()
    out = dict(f=f, viol=[], broken=None, insts=0, freed=[], fns=[], exits=0)
    mon = Own()
    e = None
    try:
        m = ir.load(repo, cfg)
        models = libc.M
        if f not in STUBS:
            models = dict(libc.M, **{n: stub for n in STUBS})
        cfg_ = api.base_config()
        # the write buffer: there whenever its length is not zero
        cfg_['nullable'] -= {('urkel_slab_s', 'data'),
                             ('urkel_slab_s', 'offsets')}
        e = Engine(m, mon, models, cfg_)
        fn, av, st = api.entry(e, f, ())
        r = e.call(f, av, st, None)
        out['exits'] = len(r)
        for ret, s in r:
            for o in leaks(e, s, ret):
                out['viol'].append(('leak', m.locstr(fn.loc) if getattr(
                    fn, 'loc', None) else f, f, '%s is neither released nor '
                    'reachable when %s returns' % (e.name(o), f)))
    except AnalysisBroken as x:
        out['broken'] = str(x)
    except Timeout:
        out['broken'] = 'not finished within %d s' % limit
    except RecursionError:
        out['broken'] = 'recursion'
    except Exception as x:
        out['broken'] = 'internal: %r' % (x,)
    signal.alarm(0)
    if e is not None:
        out['insts'] = e.stats['insts']
        out['fns'] = sorted(e.info)
        for o in e.out:
            out['viol'].append((o[1], o[2], o[3], str(o[4])))
    out['freed'] = sorted(mon.freed)
    out['t'] = round(time.time() - t, 1)
    return out


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def pool(jobs):
    signal.signal(signal.SIGALRM, _alarm)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(one, jobs, chunksize=1)


# the longest first
ORDER = ['urkel_tx_prove', 'urkel_prove', 'urkel_insert', 'urkel_tx_commit',
         'urkel_get', 'urkel_has', 'urkel_tx_get', 'urkel_tx_insert']


def c14(ctx):
    from . import api
    res = ctx.result()
    limit = 500 if ctx.tier == 'thorough' else 300
    fns = ORDER + [f for f in api.API if f not in ORDER]
    fns += [f for f in STUBS if f in ctx.mod('default').funcs]
    done = 0
    for cfg in ctx.configs[:2]:
        ctx.mod(cfg)
        for o in pool([(ctx.repo, cfg, f, limit) for f in fns]):
            res.fns |= set(o['fns'])
            res.nstates += o['insts']
            res.note('%s (%s)' % (o['f'], cfg), '%s s, %d returns%s' % (
                o['t'], o['exits'],
                ', gave up: ' + o['broken'] if o['broken'] else ''))
            if o['broken']:
                o['viol'] = []
                res.undecided.append('%s: %s' % (o['f'], o['broken']))
            else:
                done += 1
            for l in o['freed'] if not o['broken'] else ():
                res.obl['release', o['f'], l] = 1
            for rule, loc, fn, msg in o['viol']:
                res.viol(rule, fn, loc, msg, key=msg)
    res.need('public functions decided', done, 1)
    res.sites = len(res.obl)
    return res

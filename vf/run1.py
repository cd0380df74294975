import sys, time, traceback
from . import ir, libc, api
from .eng import *
from .mon import Mon

def main():
    m = ir.load(config='default')
    class D(Mon):
        rules = frozenset(['null','dangling','use-after-free','double-free','bad-free','uninit','uninit-pointer'])
    for f in sys.argv[1:] or api.API:
        t = time.time()
        e = Engine(m, D(), libc.M, api.base_config())
        try:
            fn, args, st = api.entry(e, f, ())
            r = e.call(f, args, st, None)
            print(f, 'exits', len(r), {str(x[0]) for x in r}, 'viol', len({(o[1],o[2]) for o in e.out}), 'insts', e.stats['insts'], '%.1fs' % (time.time()-t))
            for o in sorted({(o[1],o[2],o[3],o[4]) for o in e.out}): print('   ', o)
        except AnalysisBroken as x:
            print(f, 'BROKEN', x, getattr(x,'where',[])[:6], '%.1fs' % (time.time()-t))
        except Exception:
            traceback.print_exc(limit=-6)
            print(f, 'CRASH', e.where()[:3], '%.1fs' % (time.time()-t))
main()

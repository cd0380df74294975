"""Base class of the property monitors."""
from .dom import *


class Mon:
    rules = frozenset()
    bounds = False
    factcap = 80        # linear facts kept where states join
    maxstates = 120
    sys = None          # (e, st, name, args, ins)
    outcome = None      # (e, st, name, args, ret, ok, ins)
    on_call = None      # (e, st, fname, args, ins) -> None | results
    on_return = None    # (e, st, fname, args, ret, ins)
    on_load = None
    on_store = None
    on_trunc = None
    on_free = None
    on_unmap = None
    rec_exit = None
    rec_applied = None
    on_copy = None
    on_cmp = None
    on_abort = None
    on_exit = None
    cfg = {}

    def initial(self):
        return ()

    def key(self, mon):
        return mon

    def join(self, a, b):
        return a

    def join_g(self, a, b):
        r = {k: v for k, v in a.items() if b.get(k, self) == v}
        if 'elem' in a and 'elem' in b:
            r['elem'] = a['elem']
        for k in ('drain', 'elems'):
            v = a.get(k, b.get(k))
            if v is not None:
                r[k] = v
        return r

    def values(self, st):
        return ()

    def keep(self, st, oid):
        return False

    def bounds_check(self, e, st, o, p, size, rw, ins):
        pass

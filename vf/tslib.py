"""Effects of the C library and of the system, for property simulation."""
from .ts import *

FD = [('fd', 'ok'), ('-1', 'fail:EINTR'), ('-1', 'fail:EINVAL'), ('-1', 'fail:EEXIST'),
      ('-1', 'fail:ENOENT'), ('-1', 'fail')]
Z = [('0', 'ok'), ('-1', 'fail')]
ZI = [('0', 'ok'), ('-1', 'fail:EINTR'), ('-1', 'fail')]
ZE = [('0', 'ok'), ('-1', 'fail:EEXIST'), ('-1', 'fail')]
ZN = [('0', 'ok'), ('-1', 'fail:ENOENT'), ('-1', 'fail')]


def heap(T, st, args, ins):
    """a new object, or null"""
    name = ins.x[1:]
    site = ('H', T.stack[-1][0], T.loc(ins))
    out = []
    if T.oom:
        s = st.copy()
        out.append((ZERO, 'fail', s))
    seen = (site, ('#',)) in st.mem
    for k in list(st.mem):
        if k[0] == site and k[1] != ('#',):
            if not seen:
                del st.mem[k]
            else:
                # an older object of this site may still be in use
                del st.mem[k]
    st.mem[(site, ('#',))] = C(2) if seen else ONE
    if name == 'calloc' and not seen:
        st.mem[(site, ('0',))] = ONE
    out.append((PTR(site, (), 'nn'), 'ok', st))
    return out


def realloc(T, st, args, ins):
    out = []
    if T.oom:
        out.append((ZERO, 'fail', st.copy()))
    v = args[0]
    if v[0] == 'p':
        out.append((v[:3] + ('nn',), 'ok', st))
    else:
        out += [x for x in heap(T, st, args, ins) if x[1] == 'ok']
    return out


def m_free(T, st, args, ins):
    v = args[0]
    if v[0] == 'p' and v[1][0] == 'H':
        for k in list(st.mem):
            if k[0] == v[1] and not v[2] and k[1] != ('#',):
                del st.mem[k]
    return [(TOP, 'ok', st)]


def memcpy(T, st, args, ins):
    d, s = args[0], args[1]
    if T.mon.access is not None:
        T.mon.access(T, st, ins, s, 'r', None, None)
        T.mon.access(T, st, ins, d, 'w', None, None)
    new = {}
    if s[0] == 'p' and s[1][0] != 'J':
        for (r, q), v in st.mem.items():
            if r == s[1] and q[:len(s[2])] == s[2] and \
                    q[-1:] not in (('#',), ('@',), ('@o',), ('#u',)):
                new[q[len(s[2]):]] = v
    clobber(T, st, d)
    if d[0] == 'p' and d[1][0] != 'J' and tracked(d[1], d[2]):
        for q, v in new.items():
            if tracked(d[1], d[2] + q):
                st.mem[(d[1], d[2] + q)] = v
    return [(d, 'ok', st)]


def clobber(T, st, d):
    if d[0] != 'p':
        return
    for root, path in places(d):
        base = path[:-1] if path[-1:] == ('[]',) else path
        for k in list(st.mem):
            r, q = k
            if q[-1:] in (('#',), ('@',), ('@o',), ('#u',)):
                continue
            if (r == root and q[:len(base)] == base) or \
                    (root == ANY and r[0] != 'S'):
                st.mem.pop(k, None)


def memset(T, st, args, ins):
    d = args[0]
    if T.mon.access is not None:
        T.mon.access(T, st, ins, d, 'w', None, args[1])
    clobber(T, st, d)
    if args[1] == ZERO and d[0] == 'p' and d[1][0] != 'J' and \
            tracked(d[1], d[2]):
        if not (d[1][0] == 'H' and st.mem.get((d[1], ('#',))) == C(2)):
            st.mem[(d[1], d[2] + ('0',))] = ONE
    return [(d, 'ok', st)]


def rd2(T, st, args, ins):
    if T.mon.access is not None:
        for a in args[:2]:
            if a[0] == 'p':
                T.mon.access(T, st, ins, a, 'r', None, None)
    return [(TOP, 'ok', st)]


def m_abort(T, st, args, ins):
    if T.mon.abort is not None:
        T.mon.abort(T, st, ins)
    return []


def m_exit(T, st, args, ins):
    if getattr(T.mon, 'exit_', None) is not None:
        T.mon.exit_(T, st, args[0], ins)
    return []


def m_errno(T, st, args, ins):
    return [(PTR(('G', '@errno'), (), 'nn'), 'ok', st)]


def tls(T, st, args, ins):
    return [(args[0], 'ok', st)]


def acquire(T, st, args, ins):
    # other threads may have changed what is shared
    for k in list(st.mem):
        if k[0][0] == 'T' or (k[0][0] == 'H' and (k[0], ('@',)) in st.mem
                              and k[1] not in (('@',), ('#',), ('@o',))):
            del st.mem[k]
    return [(ZERO, 'ok', st)]


def rdbuf(T, st, args, ins):
    outs = [('pos', 'ok'), ('0', 'eof'), ('-1', 'fail:EINTR'), ('-1', 'fail')]
    if T.mon.access is not None:
        T.mon.access(T, st, ins, args[1], 'w', None, None)
    r = table(T, st, outs, ins.x[1:], args, ins)
    for v, t, s in r:
        clobber(T, s, args[1])
    return r


def statm(T, st, args, ins):
    r = table(T, st, ZN, ins.x[1:], args, ins)
    for v, t, s in r:
        clobber(T, s, args[1])
    return r


def m_mmap(T, st, args, ins):
    s = st.copy()
    return [(PTR(('H', T.stack[-1][0], T.loc(ins)), (), 'nn'), 'ok', st),
            (C(-1), 'fail', s)]


def m_opendir(T, st, args, ins):
    s = st.copy()
    return [(PTR(('H', T.stack[-1][0], T.loc(ins)), (), 'nn'), 'ok', st),
            (ZERO, 'fail', s)]


def m_readdir(T, st, args, ins):
    s, s2 = st.copy(), st.copy()
    st.mem[ERRNO] = st.mem.get(ERRNO, TOP)
    if st.mem[ERRNO] == TOP:
        st.mem.pop(ERRNO)
    s2.mem[ERRNO] = R(18, 4095)
    # the end of the directory leaves errno as it was
    return [(PTR(('H', 'readdir', 'entry'), (), 'nn'), 'ok', st),
            (ZERO, 'eof', s), (ZERO, 'fail', s2)]


LOCKS = ('pthread_mutex_lock', 'pthread_rwlock_rdlock',
         'pthread_rwlock_wrlock')
UNLOCKS = ('pthread_mutex_unlock', 'pthread_rwlock_unlock')

MODELS = {
    'malloc': heap, 'calloc': heap, 'realloc': realloc, 'free': m_free,
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'memcmp': rd2,
    'strcmp': rd2, 'strlen': [('nneg', 'ok')], 'abort': m_abort,
    'exit': m_exit, '_exit': m_exit, '__assert_fail': m_abort,
    '__errno_location': m_errno, 'llvm.threadlocal.address.p0': tls,
    'open': FD, 'close': Z, 'fsync': ZI, 'fdatasync': ZI, 'ftruncate': Z,
    'truncate': Z, 'unlink': ZN, 'rmdir': ZN, 'rename': Z, 'mkdir': ZE,
    'chmod': Z, 'fcntl': [('nneg', 'ok'), ('-1', 'fail:EINTR'),
                          ('-1', 'fail')],
    'lseek': [('nneg', 'ok'), ('-1', 'fail')],
    'stat': statm, 'lstat': statm, 'fstat': statm,
    'read': rdbuf, 'pread': rdbuf,
    'write': [('pos', 'ok'), ('0', 'zero'), ('-1', 'fail:EINTR'),
              ('-1', 'fail')],
    'pwrite': [('pos', 'ok'), ('0', 'zero'), ('-1', 'fail:EINTR'),
               ('-1', 'fail')],
    'mmap': m_mmap, 'munmap': Z, 'opendir': m_opendir,
    'readdir': m_readdir, 'closedir': Z, 'getcwd': [('any', 'ok'),
                                                    ('null', 'fail')],
    'getenv': [('any', 'ok'), ('null', 'none')], 'gettimeofday': [('0', 'ok')],
    'printf': [('top', 'ok')], 'fprintf': [('top', 'ok')],
    'fflush': [('top', 'ok')], 'puts': [('top', 'ok')],
    'putchar': [('top', 'ok')], 'fputs': [('top', 'ok')],
    'qsort': [('top', 'ok')], 'access': Z, 'link': Z, 'symlink': Z,
    'remove': ZN, 'sync': [('top', 'ok')], 'getpid': [('pos', 'ok')],
}
for n in LOCKS:
    MODELS[n] = acquire
for n in UNLOCKS + ('pthread_mutex_init', 'pthread_mutex_destroy',
                    'pthread_rwlock_init', 'pthread_rwlock_destroy'):
    MODELS[n] = [('0', 'ok')]


def handles(m, api):
    """struct types which the public functions take or return by pointer"""
    out = set()
    for f in api:
        if f not in m.funcs:
            continue
        r, ps = m.fn_sig(f)
        for t in [r] + ps:
            d = m.pointee(t) if t else None
            if d is not None and d.get('_k') == 'DICompositeType' and \
                    d.get('name'):
                out.add(d['name'])
    return out


def api_args(m, nullable=()):
    from . import api

    def f(fname, i, ty):
        names = api.PARAMS.get(fname, '').split()
        nm = names[i] if i < len(names) else 'a%d' % i
        if ty.k != 'ptr':
            return TOP
        d = m.pointee(m.fn_sig(fname)[1][i])
        nul = 'maybe' if (fname, nm) in api.NULLABLE_ARG else 'nn'
        if d is not None and d.get('name') in T_HANDLES(m):
            return PTR(('T', d['name']), (), 'nn')
        return PTR(('A', nm), (), nul)
    return f


def T_HANDLES(m):
    from . import api
    if not hasattr(m, '_handles'):
        m._handles = handles(m, api.API)
    return m._handles


def new(m, mon, oom=False, limit=400):
    T = TS(m, mon, MODELS, T_HANDLES(m), limit)
    T.oom = oom
    return T

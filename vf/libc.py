"""Models of the external primitives the library calls.

Every model returns the list of possible outcomes [(result, state)].  The
property monitor is told about each call through

    mon.sys(eng, st, name, args, ins)            before the call
    mon.outcome(eng, st, name, args, ret, ok)    per outcome
"""
from .dom import *
from .eng import (Ptr, NULL, UNDEF, FLOAT, Obj, oid_for, new_ver, Path, smin,
                  smax, umax)

M = {}


def model(*names):
    def f(fn):
        for n in names:
            M[n] = fn
        return fn
    return f


def pre(e, st, name, args, ins):
    if e.mon.sys is not None:
        e.mon.sys(e, st, name, args, ins)


def post(e, st, name, args, ret, ok, ins):
    if e.mon.outcome is not None:
        e.mon.outcome(e, st, name, args, ret, ok, ins)
    return (ret, st)


def u(e, st, v, n=64):
    if isinstance(v, Lin):
        return e.to_u(st, v, n)
    return e.fresh('n', 0, umax(n))


def alive(o):
    return o is not None and o.status == 'live'


# ------------------------------------------------------------------ memory
@model('malloc', 'calloc')
def _malloc(e, st, args, ins):
    name = ins.x[1:]
    n = u(e, st, args[0])
    if name == 'calloc':
        k = u(e, st, args[1])
        n = n.mul(k.c) if k.const else k.mul(n.c) if n.const else \
            e.fresh('size', 0, umax(63))
    out = []
    if e.cfg.get('oom'):
        s2 = st.copy()
        s2.note('%s: %s fails' % (e.loc(ins), name))
        out.append(post(e, s2, name, args, NULL, False, ins))
    p = e.alloc(st, 'heap', n, id(ins))
    if name == 'calloc':
        st.wr(p.oid).ovl = ((0, None, 'zero', 0),)
    out.append(post(e, st, name, args, p, True, ins))
    return out


def release(e, st, p, ins, what='free'):
    """common part of free and realloc; False if there is nothing to free"""
    if not isinstance(p, Ptr):
        if p is UNDEF:
            e.mon_viol(st, 'uninit', 'release of an uninitialised pointer')
        raise Path()
    if p.oid == 0:
        if p.off != ZERO:
            e.mon_viol(st, 'bad-free', 'release of the invalid pointer %r'
                       % p.off)
            raise Path()
        return False
    o = st.objs.get(p.oid)
    if o is None:
        e.mon_viol(st, 'dangling', 'release of a dead object')
        raise Path()
    if o.nul == 'null':
        return False
    if o.status == 'freed':
        e.mon_viol(st, 'double-free', '%s is released twice' % e.name(o))
        raise Path()
    if o.kind in ('stack', 'global'):
        e.mon_viol(st, 'bad-free', 'release of %s, which was not allocated'
                   % e.name(o))
        raise Path()
    if p.off != ZERO and not (st.num.entails(p.off) and
                              st.num.entails(p.off.neg())):
        e.mon_viol(st, 'bad-free', 'release of a pointer into the middle '
                   'of %s' % e.name(o))
        raise Path()
    return True


@model('free')
def _free(e, st, args, ins):
    pre(e, st, 'free', args, ins)
    p = args[0]
    o = st.objs.get(p.oid) if isinstance(p, Ptr) else None
    if o is not None and o.nul == 'maybe':
        # free(NULL) is harmless: both cases
        s2 = st.copy()
        s2.wr(p.oid).nul = 'null'
        st.wr(p.oid).nul = 'nn'
        return [(None, s2)] + _free1(e, st, p, ins)
    return _free1(e, st, p, ins)


def _free1(e, st, p, ins):
    if not release(e, st, p, ins):
        return [(None, st)]
    if e.mon.on_free is not None:
        e.mon.on_free(e, st, p, ins)
    o = st.wr(p.oid)
    o.status = 'freed'
    drained(st, o)
    if o.g:
        o.g.pop('z', None)
    return [post(e, st, 'free', (p,), None, True, ins)]


def drained(st, o):
    el = o.g.get('elem')
    if el is not None and el[0] in st.objs:
        st.wr(el[0]).g['drain'] = True


@model('realloc')
def _realloc(e, st, args, ins):
    p = args[0]
    n = u(e, st, args[1])
    pre(e, st, 'realloc', args, ins)
    o = st.objs.get(p.oid) if isinstance(p, Ptr) else None
    outs = []
    cases = [st]
    if o is not None and o.nul == 'maybe':
        s2 = st.copy()
        s2.wr(p.oid).nul = 'null'
        st.wr(p.oid).nul = 'nn'
        cases.append(s2)
    for s in cases:
        try:
            had = release(e, s, p, ins, 'realloc')
        except Path:
            continue
        if e.cfg.get('oom'):
            s2 = s.copy()
            s2.note('%s: realloc fails' % e.loc(ins))
            outs.append(post(e, s2, 'realloc', args, NULL, False, ins))
        if had:
            if e.mon.on_free is not None:
                e.mon.on_free(e, s, p, ins)
            # the block keeps its identity; old pointers to it are stale
            src = s.wr(p.oid)
            e.stale(s, p.oid)
            z = src.g.get('z')
            if z is not None and not s.num.entails(n.sub(z).addc(-1)):
                del src.g['z']
            if not (src.size is not None and
                    s.num.entails(src.size.sub(n))):
                # new bytes
                lo = s.num.bounds(src.size)[0] if src.size is not None \
                    else None
                if src.kind != 'lazy':
                    src.ovl = tuple(
                        (x, y, 'havoc' if k == 'uninit' else k,
                         new_ver() if k == 'uninit' else d)
                        for x, y, k, d in src.ovl)
            src.size = n
            src.nul = 'nn'
            src.wver = new_ver()
            q = Ptr(p.oid)
        elif o is not None and o.kind == 'lazy' and p.off == ZERO:
            # null until now: the field's object comes into existence
            s.wr(p.oid)
            e.stale(s, p.oid, True)
            src = s.wr(p.oid)
            src.nul = 'nn'
            src.size = n
            src.wver = new_ver()
            q = Ptr(p.oid)
        else:
            q = e.alloc(s, 'heap', n, id(ins))
        outs.append(post(e, s, 'realloc', args, q, True, ins))
    return outs


@model('memcpy', 'memmove')
def _memcpy(e, st, args, ins):
    d, s, n = args[0], args[1], u(e, st, args[2])
    if n == ZERO or st.num.entails(n.neg()):
        return [(d, st)]
    pre(e, st, 'memcpy', args, ins)
    e.deref(st, d, n, 'w', ins)
    e.deref(st, s, n, 'r', ins)
    if e.mon.on_copy is not None:
        e.mon.on_copy(e, st, d, s, n, ins)
    e.memcpy(st, d, s, n)
    so = st.objs.get(s.oid)
    if so is not None and 'z' in so.g and s.off == ZERO:
        z = so.g['z']
        # the terminator is copied with it
        if st.num.entails(n.sub(z).addc(-1)):
            st.wr(d.oid).g['z'] = d.off.add(z)
    elif so is not None and so.kind == 'global' and s.off == ZERO and \
            n.const and so.cells.get(n.c - 1, (0, None))[1] in (ZERO, None):
        st.wr(d.oid).g['z'] = d.off.addc(n.c - 1)
    return [(d, st)]


@model('memset')
def _memset(e, st, args, ins):
    d, v, n = args[0], args[1], u(e, st, args[2])
    if n == ZERO or st.num.entails(n.neg()):
        return [(d, st)]
    e.deref(st, d, n, 'w', ins)
    if e.mon.on_copy is not None:
        e.mon.on_copy(e, st, d, None, n, ins)
    e.memset(st, d, v, n)
    return [(d, st)]


@model('memcmp', '__urkel_memcmp')
def _memcmp(e, st, args, ins):
    n = u(e, st, args[2])
    if not (n == ZERO or st.num.entails(n.neg())):
        pre(e, st, 'memcmp', args, ins)
        e.deref(st, args[0], n, 'r', ins)
        e.deref(st, args[1], n, 'r', ins)
    r = e.fresh('memcmp', smin(32), smax(32))
    if e.mon.on_cmp is not None:
        rr = e.mon.on_cmp(e, st, args, n, r, ins)
        if rr is not None:
            return rr
    return [(r, st)]


@model('strcmp')
def _strcmp(e, st, args, ins):
    for a in args:
        e.deref(st, a, ONE, 'r', ins)
    return [(e.fresh('strcmp', smin(32), smax(32)), st)]


@model('strlen')
def _strlen(e, st, args, ins):
    p = args[0]
    e.deref(st, p, ONE, 'r', ins)
    o = st.objs[p.oid]
    z = o.g.get('z')
    if o.kind == 'global' and p.off.const:
        for k in range(p.off.c, p.off.c + 4096):
            c = o.cells.get(k)
            if c is None or c[1] == ZERO:
                return [(Lin(k - p.off.c), st)]
    s = term(('strlen', p.oid, o.wver, p.off), 0, 1 << 40, 'strlen(%s)' %
             e.name(o))
    r = sym_lin(s)
    hi = None
    if z is not None:
        hi = z.sub(p.off)
    elif o.size is not None:
        t = e.type_at(o.dty, p.off.c) if o.dty is not None and \
            p.off.const else None
        hi = o.size.sub(p.off).addc(-1)
    if hi is not None:
        try:
            st.num.assume_ge(hi.sub(r))
        except Infeasible:
            return []
    if o.kind == 'lazy' and z is None and o.g.get('cstr'):
        pass
    if z is None and st.objs[p.oid].status == 'live':
        st.wr(p.oid).g['z'] = p.off.add(r)
    return [(r, st)]


@model('qsort')
def _qsort(e, st, args, ins):
    n = u(e, st, args[1])
    p = args[0]
    if isinstance(p, Ptr) and p.oid in st.objs and p.oid:
        if st.objs[p.oid].cells:
            e.havoc_range(st, p.oid, 0, None)
    return [(None, st)]


@model('abort')
def _abort(e, st, args, ins):
    if e.mon.on_abort is not None:
        e.mon.on_abort(e, st, ins)
    return []


@model('exit', '_exit')
def _exit(e, st, args, ins):
    if e.mon.on_exit is not None:
        e.mon.on_exit(e, st, args[0], ins)
    return []


# stdio of the assertion helper and of the command line tool
@model('fprintf', 'printf', 'fflush', 'puts', 'putchar', 'fputs', 'fwrite',
       'perror', 'fputc', 'putc', 'snprintf', 'sprintf', 'vfprintf')
def _print(e, st, args, ins):
    return [(e.fresh('io', smin(32), smax(32)), st)]


@model('llvm.fmuladd.f64')
def _fma(e, st, args, ins):
    return [(FLOAT, st)]


@model('llvm.threadlocal.address.p0')
def _tls(e, st, args, ins):
    return [(args[0], st)]


@model('__errno_location')
def _errno(e, st, args, ins):
    oid = oid_for(('errno',), 'errno')
    if oid not in st.objs:
        o = Obj(oid, 'global', Lin(4), None, ((0, None, 'lazy', 0),))
        st.objs[oid] = o
    return [(Ptr(oid), st)]


def set_errno(e, st):
    """the system sets errno to an unknown positive value"""
    oid = oid_for(('errno',), 'errno')
    if oid not in st.objs:
        st.objs[oid] = Obj(oid, 'global', Lin(4), None,
                           ((0, None, 'lazy', 0),))
    o = st.wr(oid)
    o.cells[0] = (4, e.fresh('errno', 1, 4095), None)


# ------------------------------------------------------------------ locks
@model('pthread_mutex_init', 'pthread_rwlock_init', 'pthread_mutex_destroy',
       'pthread_rwlock_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock',
       'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
       'pthread_rwlock_unlock', 'pthread_mutex_trylock',
       'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock')
def _lock(e, st, args, ins):
    name = ins.x[1:]
    p = args[0]
    e.deref(st, p, ONE, 'l', ins)
    pre(e, st, name, args, ins)
    outs = []
    if 'try' in name:
        s2 = st.copy()
        outs.append(post(e, s2, name, args, e.fresh('busy', 1, 200), False,
                         ins))
    outs.append(post(e, st, name, args, ZERO, True, ins))
    return outs


# ------------------------------------------------------------------ files
def cstr(e, st, p, ins):
    e.deref(st, p, ONE, 'r', ins)


def fd_new(e, st, ins):
    s = term(('fd', e.ctx, id(ins)), 0, smax(31), 'fd@%s' % e.loc(ins))
    return sym_lin(s)


def two(e, st, name, args, ins, okv, failv=Lin(-1)):
    """plain call which may fail"""
    pre(e, st, name, args, ins)
    s2 = st.copy()
    s2.note('%s: %s fails' % (e.loc(ins), name))
    set_errno(e, s2)
    return [post(e, st, name, args, okv, True, ins),
            post(e, s2, name, args, failv, False, ins)]


@model('open', 'open64', 'openat')
def _open(e, st, args, ins):
    cstr(e, st, args[0], ins)
    fd = fd_new(e, st, ins)
    return two(e, st, 'open', args, ins, fd)


@model('close', 'fsync', 'fdatasync')
def _fdop(e, st, args, ins):
    return two(e, st, ins.x[1:], args, ins, ZERO)


@model('fcntl', 'fcntl64')
def _fcntl(e, st, args, ins):
    if len(args) > 2 and isinstance(args[2], Ptr) and args[2].oid:
        e.deref(st, args[2], ONE, 'r', ins)
    return two(e, st, 'fcntl', args, ins,
               ZERO if len(args) > 2 else e.fresh('fl', 0, smax(31)))


@model('ftruncate', 'ftruncate64', 'lseek', 'lseek64')
def _ftr(e, st, args, ins):
    return two(e, st, ins.x[1:].replace('64', ''), args, ins,
               ZERO if 'trunc' in ins.x else e.fresh('pos', 0, smax(63)))


@model('unlink', 'rmdir', 'mkdir', 'chmod', 'truncate')
def _path1(e, st, args, ins):
    cstr(e, st, args[0], ins)
    return two(e, st, ins.x[1:], args, ins, ZERO)


@model('rename')
def _rename(e, st, args, ins):
    cstr(e, st, args[0], ins)
    cstr(e, st, args[1], ins)
    return two(e, st, 'rename', args, ins, ZERO)


@model('stat', 'lstat', 'fstat')
def _stat(e, st, args, ins):
    name = ins.x[1:]
    if name != 'fstat':
        cstr(e, st, args[0], ins)
    p = args[1]
    e.deref(st, p, Lin(144), 'w', ins)
    r = two(e, st, name, args, ins, ZERO)
    for v, s in r:
        if v == ZERO:
            o = e.havoc_range(s, p.oid, p.off.c if p.off.const else 0,
                              p.off.c + 144 if p.off.const else None)
            # st_size of a regular file
            if p.off.const:
                off = p.off.c + 48
                t = term(('st_size', e.ctx, id(ins), new_ver()), 0, 1 << 40,
                         'st_size')
                s.wr(p.oid).cells[off] = (8, sym_lin(t), None)
    return r


def xfer(e, st, args, ins, rw):
    name = ins.x[1:].replace('64', '')
    n = u(e, st, args[2])
    if not (n == ZERO or st.num.entails(n.neg())):
        e.deref(st, args[1], n, 'w' if rw == 'r' else 'r', ins)
    pre(e, st, name, args, ins)
    outs = []
    s2 = st.copy()
    s2.note('%s: %s fails' % (e.loc(ins), name))
    set_errno(e, s2)
    outs.append(post(e, s2, name, args, Lin(-1), False, ins))
    # end of file / nothing transferred
    s3 = st.copy()
    s3.note('%s: %s transfers nothing' % (e.loc(ins), name))
    outs.append(post(e, s3, name, args, ZERO, 'eof', ins))
    # k bytes, 1 <= k <= n
    k = e.fresh('n' + name, 1, smax(63))
    try:
        st.num.assume_ge(n.sub(k))
    except Infeasible:
        return outs
    if rw == 'r' and isinstance(args[1], Ptr) and args[1].oid in st.objs:
        d = args[1]
        lo, hi = st.num.bounds(d.off)
        h = st.num.bounds(n)[1]
        e.havoc_range(st, d.oid, max(lo or 0, 0),
                      None if hi is None or h is None else hi + h)
    outs.append(post(e, st, name, args, k, True, ins))
    return outs


@model('read', 'pread', 'pread64')
def _read(e, st, args, ins):
    return xfer(e, st, args, ins, 'r')


@model('write', 'pwrite', 'pwrite64')
def _write(e, st, args, ins):
    return xfer(e, st, args, ins, 'w')


@model('mmap', 'mmap64')
def _mmap(e, st, args, ins):
    pre(e, st, 'mmap', args, ins)
    s2 = st.copy()
    s2.note('%s: mmap fails' % e.loc(ins))
    set_errno(e, s2)
    p = e.alloc(st, 'map', u(e, st, args[1]), id(ins))
    st.wr(p.oid).ovl = ((0, None, 'havoc', new_ver()),)
    return [post(e, st, 'mmap', args, p, True, ins),
            post(e, s2, 'mmap', args, Ptr(0, Lin(-1)), False, ins)]


@model('munmap')
def _munmap(e, st, args, ins):
    p = args[0]
    if not isinstance(p, Ptr) or p.oid == 0:
        e.mon_viol(st, 'bad-free', 'munmap of an invalid pointer')
        return []
    o = st.objs.get(p.oid)
    if o is None or o.status == 'freed':
        e.mon_viol(st, 'double-free', 'mapping is removed twice')
        return []
    e.deref(st, p, ONE, 'l', ins)
    pre(e, st, 'munmap', args, ins)
    if e.mon.on_unmap is not None:
        e.mon.on_unmap(e, st, p, args[1], ins)
    s2 = st.copy()
    s2.note('%s: munmap fails' % e.loc(ins))
    set_errno(e, s2)
    s2.wr(p.oid).g['in'] = 0        # nobody can do anything about it
    st.wr(p.oid).status = 'freed'
    drained(st, o)
    return [post(e, st, 'munmap', args, ZERO, True, ins),
            post(e, s2, 'munmap', args, Lin(-1), False, ins)]


@model('opendir')
def _opendir(e, st, args, ins):
    cstr(e, st, args[0], ins)
    pre(e, st, 'opendir', args, ins)
    s2 = st.copy()
    s2.note('%s: opendir fails' % e.loc(ins))
    set_errno(e, s2)
    p = e.alloc(st, 'dir', None, id(ins))
    return [post(e, st, 'opendir', args, p, True, ins),
            post(e, s2, 'opendir', args, NULL, False, ins)]


@model('readdir', 'readdir64')
def _readdir(e, st, args, ins):
    e.deref(st, args[0], ONE, 'l', ins)
    pre(e, st, 'readdir', args, ins)
    outs = []
    # error
    s2 = st.copy()
    s2.note('%s: readdir fails' % e.loc(ins))
    set_errno(e, s2)
    outs.append(post(e, s2, 'readdir', args, NULL, False, ins))
    # end (errno untouched)
    s3 = st.copy()
    outs.append(post(e, s3, 'readdir', args, NULL, 'end', ins))
    oid = oid_for(('dirent', e.ctx, id(ins)), 'dirent')
    o = Obj(oid, 'lazy', Lin(280), e.m.struct_di('dirent'),
            ((0, None, 'havoc', new_ver()),), 'nn', None)
    o.g['static'] = True
    st.objs[oid] = o
    outs.append(post(e, st, 'readdir', args, Ptr(oid), True, ins))
    return outs


@model('closedir')
def _closedir(e, st, args, ins):
    p = args[0]
    e.deref(st, p, ONE, 'l', ins)
    pre(e, st, 'closedir', args, ins)
    st.wr(p.oid).status = 'freed'
    return [post(e, st, 'closedir', args, ZERO, True, ins)]


@model('getcwd')
def _getcwd(e, st, args, ins):
    p, n = args[0], u(e, st, args[1])
    e.deref(st, p, n, 'w', ins)
    r = two(e, st, 'getcwd', args, ins, p, NULL)
    for v, s in r:
        if v is p:
            e.havoc_range(s, p.oid, 0, None)
            s.wr(p.oid).g.pop('z', None)
    return r


@model('gettimeofday')
def _gtod(e, st, args, ins):
    p = args[0]
    e.deref(st, p, Lin(16), 'w', ins)
    e.havoc_range(st, p.oid, p.off.c if p.off.const else 0,
                  p.off.c + 16 if p.off.const else None)
    return [(ZERO, st)]


@model('getenv')
def _getenv(e, st, args, ins):
    s2 = st.copy()
    oid = oid_for(('env', e.ctx, id(ins)), 'getenv')
    if oid not in st.objs:
        st.objs[oid] = Obj(oid, 'lazy', None, None, ((0, None, 'lazy', 0),),
                           'nn', None)
        st.objs[oid].g['static'] = True
    return [(Ptr(oid), st), (NULL, s2)]


# ------------------------------------------------------------------ hashing
# The primitive itself is decided by C25; elsewhere it is opaque.
@model('urkel_blake2b_init')
def _b2init(e, st, args, ins):
    e.deref(st, args[0], ONE, 'w', ins)
    pre(e, st, 'blake2b_init', args, ins)
    e.havoc_range(st, args[0].oid, 0, None)
    return [post(e, st, 'blake2b_init', args, None, True, ins)]


@model('urkel_blake2b_update')
def _b2upd(e, st, args, ins):
    n = u(e, st, args[2])
    e.deref(st, args[0], ONE, 'w', ins)
    if not (n == ZERO or st.num.entails(n.neg())):
        e.deref(st, args[1], n, 'r', ins)
    pre(e, st, 'blake2b_update', args, ins)
    return [post(e, st, 'blake2b_update', args, None, True, ins)]


@model('urkel_blake2b_final')
def _b2fin(e, st, args, ins):
    e.deref(st, args[0], ONE, 'w', ins)
    e.deref(st, args[1], Lin(32), 'w', ins)
    pre(e, st, 'blake2b_final', args, ins)
    p = args[1]
    lo, hi = st.num.bounds(p.off)
    e.havoc_range(st, p.oid, max(lo or 0, 0),
                  None if hi is None else hi + 32)
    return [post(e, st, 'blake2b_final', args, None, True, ins)]


# ------------------------------------------------------------------ hash map
# khash is a third party header; its operations are taken as correct.
@model('kh_init_nodes')
def _khinit(e, st, args, ins):
    p = e.alloc(st, 'heap', Lin(40), id(ins), e.m.struct_di('kh_nodes_s'))
    o = st.wr(p.oid)
    o.ovl = ((0, None, 'havoc', new_ver()),)
    o.g['kh'] = True
    return [post(e, st, 'kh_init', args, p, True, ins)]


@model('kh_destroy_nodes')
def _khdel(e, st, args, ins):
    return _free(e, st, args, ins)


@model('kh_get_nodes')
def _khget(e, st, args, ins):
    e.deref(st, args[0], Lin(40), 'r', ins)
    e.deref(st, args[1], Lin(32), 'r', ins)
    pre(e, st, 'kh_get', args, ins)
    return [post(e, st, 'kh_get', args, e.fresh('khiter', 0, umax(32)), True,
                 ins)]


@model('kh_put_nodes')
def _khput(e, st, args, ins):
    e.deref(st, args[0], Lin(40), 'w', ins)
    e.deref(st, args[1], Lin(32), 'r', ins)
    e.deref(st, args[2], Lin(4), 'w', ins)
    pre(e, st, 'kh_put', args, ins)
    outs = []
    for v in ((-1, 0, 1) if e.cfg.get('oom') else (0, 1)):
        s = st.copy()
        e.havoc_range(s, args[0].oid, 0, 16)
        e.store(s, args[2], Lin(v), 4)
        outs.append(post(e, s, 'kh_put', args, e.fresh('khiter', 0, umax(32)),
                         v, ins))
    return outs

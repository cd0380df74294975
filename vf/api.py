"""Entry points: the public functions and canonical arguments for them."""
from .dom import *
from .eng import *
from . import ir as IR
from . import libc

# length of the buffers which the caller of the API passes (by parameter)
LEN = {
    'hash': 32, 'key': 32, 'root': 32, 'value_out': 1023,
}

NULLABLE_ARG = {
    ('urkel_get', 'root'), ('urkel_has', 'root'), ('urkel_prove', 'root'),
    ('urkel_iterate', 'root'), ('urkel_tx_create', 'hash'),
    ('urkel_iter_next', 'value'), ('urkel_iter_next', 'size'),
    ('urkel_open', 'prefix'), ('urkel_destroy', 'prefix'),
    ('urkel__corrupt', 'prefix'), ('urkel_verify', 'root'),
}

# buffers whose length is another parameter
SIZED = {
    ('urkel_hash', 'data'): 'size', ('urkel_insert', 'value'): 'size',
    ('urkel_tx_insert', 'value'): 'size',
    ('urkel_verify', 'proof_raw'): 'proof_len',
}

API = ['urkel_open', 'urkel_close', 'urkel_destroy', 'urkel_hash',
       'urkel_root', 'urkel_inject', 'urkel_get', 'urkel_has', 'urkel_insert',
       'urkel_remove', 'urkel_prove', 'urkel_verify', 'urkel_iterate',
       'urkel_tx_create', 'urkel_tx_destroy', 'urkel_tx_clear',
       'urkel_tx_root', 'urkel_tx_inject', 'urkel_tx_get', 'urkel_tx_has',
       'urkel_tx_insert', 'urkel_tx_remove', 'urkel_tx_prove',
       'urkel_tx_commit', 'urkel_iter_create', 'urkel_iter_destroy',
       'urkel_iter_next', 'urkel_free']

HIDDEN = ['urkel__corrupt']

# parameter names by position, as in the public header
PARAMS = {
    'urkel_open': 'prefix', 'urkel_close': 'tree', 'urkel_destroy': 'prefix',
    'urkel__corrupt': 'prefix', 'urkel_hash': 'hash data size',
    'urkel_root': 'tree hash', 'urkel_inject': 'tree hash',
    'urkel_get': 'tree value size key root', 'urkel_has': 'tree key root',
    'urkel_insert': 'tree key value size', 'urkel_remove': 'tree key',
    'urkel_prove': 'tree proof_raw proof_len key root',
    'urkel_verify': 'exists value value_len proof_raw proof_len key root',
    'urkel_iterate': 'tree root', 'urkel_tx_create': 'tree hash',
    'urkel_tx_destroy': 'tx', 'urkel_tx_clear': 'tx',
    'urkel_tx_root': 'tx hash', 'urkel_tx_inject': 'tx hash',
    'urkel_tx_get': 'tx value size key', 'urkel_tx_has': 'tx key',
    'urkel_tx_insert': 'tx key value size', 'urkel_tx_remove': 'tx key',
    'urkel_tx_prove': 'tx proof_raw proof_len key', 'urkel_tx_commit': 'tx',
    'urkel_iter_create': 'tx', 'urkel_iter_destroy': 'iter',
    'urkel_iter_next': 'iter key value size', 'urkel_free': 'ptr',
}

REF = {
    ('urkel_bits_s', 'size'): (0, 256),
    ('urkel_pointer_s', 'index'): (0, 0x7fff),
    ('urkel_pointer_s', 'pos'): (0, 0x7fffffff),
    ('urkel_pointer_s', 'size'): (0, 1023),
    ('urkel_node_s', 'type'): (0, 3),
    ('urkel_leaf_s', 'size'): (0, 1023),
    ('urkel_proof_s', 'type'): (0, 3),
    ('urkel_proof_s', 'depth'): (0, 256),
    ('urkel_proof_s', 'nodes_len'): (0, 256),
    ('urkel_proof_s', 'size'): (0, 1023),
    ('urkel_slab_s', 'data_size'): (0, 1 << 40),
    ('urkel_slab_s', 'data_len'): (0, 1 << 40),
    ('urkel_slab_s', 'data_off'): (0, 1 << 40),
    ('urkel_slab_s', 'offsets_len'): (0, 1 << 20),
    ('urkel_slab_s', 'steps'): (0, 1 << 20),
    ('urkel_slab_s', 'start'): (0, 1 << 20),
    ('urkel_slab_s', 'file_pos'): (0, 0x7ffff000),
    ('urkel_slab_s', 'file_index'): (0, 0x7fff),
    ('urkel_file_s', 'size'): (0, 1 << 40),
    ('urkel_file_s', 'index'): (0, 0x7fff),
    ('urkel_file_s', 'fd'): (-1, 0x7fffffff),
    ('urkel_store_s', 'prefix_len'): (0, 1013),
    ('urkel_store_s', 'index'): (0, 0x7fff),
    ('urkel_store_s', 'lock_fd'): (0, 0x7fffffff),
    ('urkel_filemap_s', 'len'): (0, 0x8000),
    ('urkel_filemap_s', 'size'): (0, 0x8000),
    ('urkel_iter_s', 'stack_len'): (0, 514),
    ('urkel_iter_s', 'done'): (0, 1),
    ('urkel_iter_s', 'transient'): (0, 1),
    ('urkel_s', 'revert'): (0, 1),
    ('urkel_rng_s', 'pos'): (0, 8),
}

NULLABLE = {
    ('urkel_leaf_s', 'value'), ('urkel_file_s', 'base'),
    ('urkel_slab_s', 'data'), ('urkel_slab_s', 'offsets'),
    ('urkel_filemap_s', 'items'), ('urkel_filemap_s', 'items[]'),
    ('urkel_iter_s', 'node'), ('kh_nodes_s', 'vals[]'),
}


def fld(e, st, p, struct, field):
    """current integer value of a field of lazily known object p"""
    di = e.m.struct_di(struct)
    for off, sz, nm, mn in e.m.members(di):
        if nm == field:
            return e.load(st, Ptr(p.oid, Lin(off)), IR.INT(8 * sz))
    raise AnalysisBroken('no field %s in %s' % (field, struct))


def embedded(e, st, p, outer, member):
    for off, sz, nm, mn in e.m.members(e.m.struct_di(outer)):
        if nm == member:
            return off
    raise AnalysisBroken('no field %s in %s' % (member, outer))


def _value_set(e, st, po):
    # a leaf has its value exactly while the flag says so
    f = fld(e, st, Ptr(po.oid), 'urkel_node_s', 'flags')
    b = e.bits_and(st, f, Lin(VALUE_FLAG), 32)
    return e.icmp(st, 'ne', b, ZERO, IR.INT(32))


def _items_set(e, st, po):
    n = fld(e, st, Ptr(po.oid), 'urkel_filemap_s', 'len') \
        if po.dty is not None and po.dty.get('name') == 'urkel_filemap_s' \
        else None
    if n is None:
        off = embedded(e, st, None, 'urkel_store_s', 'files')
        for o, s, nm, mn in e.m.members(e.m.struct_di('urkel_filemap_s')):
            if nm == 'len':
                n = e.load(st, Ptr(po.oid, Lin(off + o)), IR.INT(8 * s))
    return Cond('ge', n.addc(-1))


VALUE_FLAG = 8

# the children of an internal node are never empty nodes
VIA = {(('urkel_internal_s', c), ('urkel_node_s', 'type')): (1, 3)
       for c in ('left', 'right')}


def base_config(e_cfg=None):
    cfg = {'ref': dict(REF), 'nullable': set(NULLABLE), 'bufsize': {},
           'divmask': True, 'via': VIA,
           'absorb': {('urkel_file_s', 'base')},
           'nnrel': {('urkel_leaf_s', 'value'): _value_set,
                     ('urkel_filemap_s', 'items'): _items_set}, 'alias': {}}
    if e_cfg:
        cfg.update(e_cfg)
    return cfg


def new_obj(e, st, name, dty=None, size=None, nul='nn', prov=None):
    oid = oid_for(('arg', name), name)
    o = Obj(oid, 'lazy', size, dty, ((0, None, 'lazy', 0),), nul, prov)
    o.g['root'] = name
    if nul != 'nn':
        o.g['nul0'] = nul
    st.objs[oid] = o
    return Ptr(oid)


PROV = {'urkel_s': 'db', 'urkel_tx_s': 'tx', 'urkel_iter_s': 'iter'}


def entry(e, fname, mon_init):
    """(args, state) for an analysis of fname from any reachable state"""
    fn = e.m.funcs.get(fname)
    if fn is None or fn.decl:
        raise AnalysisBroken('function %s not found' % fname)
    st = State()
    st.mon = mon_init
    ret, dis = e.m.fn_sig(fname)
    names = PARAMS.get(fname, '').split()
    if names and len(names) != len(fn.params):
        raise AnalysisBroken('unexpected signature of ' + fname)
    vals = {}
    args = []
    for i, (ty, _) in enumerate(fn.params):
        nm = names[i] if i < len(names) else 'a%d' % i
        di = dis[i] if i < len(dis) else None
        if ty.k == 'int':
            lo, hi = (0, umax(47)) if ty.w == 64 else \
                (smin(ty.w), smax(ty.w))
            v = e.fresh(nm, lo, hi)
            vals[nm] = v
            args.append(v)
            continue
        args.append((nm, di))
    out = []
    for a in args:
        if not isinstance(a, tuple):
            out.append(a)
            continue
        nm, di = a
        pt = e.m.pointee(di)
        nul = 'maybe' if (fname, nm) in NULLABLE_ARG else 'nn'
        size = None
        prov = None
        if pt is not None and pt.get('tag') == 'DW_TAG_structure_type':
            size = Lin(e.di_size(pt))
            prov = PROV.get(pt.get('name'))
        elif (fname, nm) in SIZED and SIZED[(fname, nm)] in vals:
            size = vals[SIZED[(fname, nm)]]
        elif nm in ('hash', 'key', 'root'):
            size = Lin(32)
        elif nm == 'value':
            size = Lin(1023)
        elif nm == 'prefix' and pt is not None:
            size = None
        elif pt is not None and e.di_size(pt) and pt.get('name') != 'char':
            size = Lin(e.di_size(pt))
        p = new_obj(e, st, nm, pt, size, nul, prov)
        if nm == 'prefix':
            z = e.fresh('strlen(prefix)', 0, 1 << 40)
            o = st.objs[p.oid]
            o.g['z'] = z
            o.size = z.addc(1)
        out.append(p)
    return fn, out, st

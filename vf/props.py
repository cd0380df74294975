"""The properties and what decides them."""
from . import ppath, pts, pfs, pdb, pcc, plk, pres, pxfer, pnav, pproof, pmem, pbnd, \
    phash, pcodec, ppre, ppos, prec

PROPS = {
 'C01': dict(
  run=pts.c01,
  rule='lockset: for every shared location, every write and every other '
       'access made by concurrently callable operations hold a common lock, '
       'one of them exclusively',
  explain='Property simulation of every public operation; the monitor state '
          'is the set of locks held with their modes, each load, store and '
          'block copy is classified by its access path.'),
 'C02': dict(
  run=pts.c02,
  rule='lock typestate at every acquire / release and at every return of a '
       'public function; acyclic acquisition order',
  explain='Property simulation of every public operation; the monitor state '
          'is the set of locks held.'),
 'C03': dict(
  run=pfs.c03,
  rule='on every path from the entry of a public function to a failing '
       'return the error variable is assigned in this call, a code of this '
       'operation; unreadable data yields the corruption code; the outputs '
       'are zero there',
  explain='Property simulation of every public operation; the monitor state '
          'is the last value assigned to the error variable in this call and '
          'whether reading failed.'),
 'C04': dict(
  run=pfs.c04,
  rule='no path from a failing open/read/write/stat/sync/list/rename call '
       'to a successful return or to abort() unless a retry of the same '
       'call succeeded on it',
  explain='Property simulation of every public operation with every outcome '
          'of every system call; the monitor state is the set of failures '
          'not made up for.'),
 'C05': dict(
  run=pdb.c05,
  rule='on every path of a commit the write buffer is empty, no write has '
       'failed and the commit record was appended last when the state, the '
       'root or the cache of roots changes; fsync before it in the sync '
       'configuration and at every change of the data file',
  explain='Property simulation of every commit; the monitor state is whether '
          'data is buffered, whether a write failed, which record was '
          'appended last, and what is not synced.'),
 'C06': dict(
  run=pfs.c06,
  rule='effects: read operations reach no modifying system call and no '
       'writable open or mapping; updates reach only appending opens, '
       'writes, and truncation to the recorded size after a failed write',
  explain='Property simulation of every read and update operation with '
          'constant propagation of open and mapping flags.'),
 'C07': dict(
  run=prec.c07,
  rule='every record checked is the one before the record checked last, the '
       'first is the last whole one of the file; truncation exactly behind '
       'an intact record; the position and file reported and remembered are '
       'those of the record; only files searched to their start without '
       'a failure are removed, from the last on downwards',
  explain='Relational dataflow over the search of a file and the loop over '
          'the files, for files of any size and number and every failing '
          'call; ghosts for the part of the file in the buffer, the position '
          'of the record checked last and the file searched last.'),
 'C08': dict(
  run=plk.c08,
  rule='typestate of the lock between processes: no file or directory is '
       'accessed before the lock is held on a file which still has its name, '
       'or after it was released; held at a successful open, not held at '
       'any other return of open, close, destroy',
  explain='Property simulation of every public operation; the monitor state '
          'is whether the lock file is open, locked, released and whether '
          'another process can have replaced it.'),
 'C09': dict(
  run=pproof.c09,
  rule='at every accepting return: all input bytes used; the steps hashed '
       'from the last to the first, each on the side of the key bit at its '
       'depth and with its prefix found to match the key there; depth used '
       'up and never negative; last node hashed as its type demands and '
       'found to exclude the key for the types of absence; 32 bytes of the '
       'final hash equal to the root; existence, size and value as proven',
  explain='Relational dataflow (Karr equalities over depths, prefix sizes, '
          'step and byte positions, with the typestate of the verification) '
          'of urkel_verify with everything it calls expanded.'),
 'C10': dict(
  run=pbnd.c10,
  rule='at every access, copy and call with a length: the linear facts of '
       'the path imply that the bytes lie in the object; every helper is '
       'checked under the conditions it is called with; no path to abort(); '
       'as many blocks released as allocated at every return',
  explain='Relational dataflow (linear equalities and inequalities with '
          'Fourier-Motzkin entailment, the state split at branches) of '
          'urkel_verify with everything it calls expanded except the '
          'helpers, each analysed on its own against its contract.'),
 'C11': dict(
  run=pbnd.c11,
  rule='at every access, copy and call with a length: the linear facts of '
       'the path imply that the bytes lie in the object; depths and sizes of '
       'prefixes stay within a key before they are split, joined or '
       'compared; every helper is checked under the conditions it is called '
       'with',
  explain='Relational dataflow (linear equalities and inequalities with '
          'Fourier-Motzkin entailment) of every function which decodes data '
          'of the files or walks the tree, each against its contract; any '
          'content of the files is assumed.'),
 'C12': dict(
  run=pcodec.c12,
  rule='the decoder applied to the bytes the encoder wrote accepts and '
       'yields, field by field, the terms which were encoded; the announced '
       'size is the number of bytes written; every byte is written, none '
       'outside; the checksum covers the record',
  explain='Value numbering (bit-level terms) of every encoder composed with '
          'its decoder: contents, positions, sizes, file numbers, hashes and '
          'keys symbolic, each of the 257 lengths of a prefix by itself; '
          'proofs for a family of numbers of steps and prefix lengths.'),
 'C13': dict(
  run=ppos.c13,
  rule='the size, position and file number handed to the function which '
       'reads, writes, encodes or stores a record is the term it was given, '
       'without a loss for any value within the limits of the format',
  explain='Value numbering of the creation of values, of writing and reading '
          'records, of the file layer and of opening, with symbolic sizes '
          '(10 bits), positions (31 bits) and file numbers (15 bits).'),
 'C26': dict(
  run=ppos.c26,
  rule='for every record put into the write buffer, the part of it which is '
       'written out lies in the file and at the position of its pointer, '
       'files stay below their limit, commit records lie at multiples of '
       'their size and name the record before and the root',
  explain='Value numbering of sequences of values, nodes, commit records and '
          'flushes, with symbolic sizes, positions and file numbers, every '
          'distribution over two files and failing writes which are tried '
          'again; every remainder of the position by the size of a commit '
          'record.'),
 'C14': dict(
  run=pmem.c14,
  rule='ownership and lifetime of every heap block on every path: released '
       'once or reachable at every return; no access to released, null or '
       'uninitialised memory',
  explain='Abstract interpretation of every public operation on a domain of '
          'regions (allocation sites and access paths, with status, content '
          'and linear numeric facts), callees analysed in context, recursion '
          'over the tree summarised.'),
 'C15': dict(
  run=pres.c15,
  rule='ownership of every descriptor, mapping and directory handle: on '
       'every path to a return it was closed once or is kept in a reachable '
       'object; no use after closing; an object is released only after the '
       'handles in its fields were',
  explain='Property simulation of every public operation with and without '
          'failing allocations; the monitor state is the set of handles '
          'open, closed, and the fields whose handle was closed.'),
 'C16': dict(
  run=pdb.c16,
  rule='no path from the release of a node of the tree of a transaction to a '
       'return without the reference being replaced; no change of a tree on '
       'a path to a failing return',
  explain='Property simulation of the operations of a transaction including '
          'the recursion over the tree; the monitor state is whether a node '
          'was released, whether the tree was changed.'),
 'C17': dict(
  run=ppre.c17,
  rule='the stream fed to the hash primitive is, byte by byte, the specified '
       'preimage, with no key and a digest of 32 bytes; a known hash is kept; '
       'new nodes are not taken for hashed; the empty tree hashes to zero; '
       'proofs hold the hashes of the children, the sibling and the value',
  explain='Value numbering of the hash functions, of urkel_node_hash for '
          'every kind of node and child, of the constructors and of the '
          'making of proofs; each of the 257 lengths of a prefix by itself, '
          'keys, hashes, contents and the size of a value symbolic.'),
 'C18': dict(
  run=pdb.c18,
  rule='source of every root an operation reads, by its arguments and the '
       'state of the database: given, injected, committed, own',
  explain='Property simulation of every operation which takes or implies a '
          'root; the monitor state is the set of sources and copies of root '
          'hashes on the path.'),
 'C20': dict(
  run=ppath.c20, cli=True,
  rule='every write of a character lies inside its array, every read at or '
       'before the terminator, every path passed on is terminated; the '
       'bound on a stored prefix is the one its only writer leaves behind',
  explain='Relational dataflow (Karr equalities with inequalities over '
          'positions, lengths and sizes of character arrays; terminators as '
          'ghosts) of every function of the library and the tool which '
          'handles text, text helpers expanded.'),
 'C21': dict(
  run=pxfer.c21,
  rule='at every read/write call: descriptor, buffer = start + bytes done, '
       'offset = start + bytes done, count <= bytes which remain; success '
       'is returned only when nothing remains, failure only after end of '
       'file or an error, never after an interruption',
  explain='Affine-equality (Karr) analysis with ghost counters of every '
          'function which transfers data, callees inlined; every call is '
          'split into some bytes / end of file / interrupted / try again / '
          'error.'),
 'C22': dict(
  run=pcc.c22,
  rule='no path of the tool from a failed operation of the library to an '
       'exit with status 0; each command reaches the operation it names',
  explain='Property simulation of main() of the tool with a model of every '
          'public operation (each fails or succeeds); the monitor state is '
          'which operations failed and succeeded.'),
 'C23': dict(
  run=pcc.c23,
  rule='no path from a failed allocation to a use of its result as a '
       'pointer',
  explain='Property simulation of every public operation in which every '
          'allocation can fail; the monitor state is the allocation which '
          'failed.'),
 'C24': dict(
  run=pnav.c24,
  rule='for every node: prefix compared at its depth d; child taken by the '
       'key bit d+p; depth d+p+1 passed on; new inner nodes start at the '
       'depth of the node they replace and keep every child on its side and '
       'depth; joined bit = side of the child; proof steps hold the prefix '
       'and the sibling hash',
  explain='Relational dataflow (Karr equalities over depths, prefix sizes '
          'and bit indices, with the typestate of the walk) of every '
          'function which walks down the tree, helpers expanded.'),
 'C25': dict(
  run=phash.c25,
  rule='the terms the compression function, the initialisation and the '
       'finalisation compute equal those of RFC 7693; in the update every '
       'byte is buffered or compressed once and in order, the counter '
       'advances by 128 before each block, a block is compressed only when '
       'more bytes follow',
  explain='Value numbering (bit-level terms with canonical xor, rotation and '
          'modular sums) of the compression, initialisation, counter and '
          'finalisation; relational dataflow (Karr equalities with '
          'inequalities) of the update for any length and fill.'),
}


NA = {
 'C19': 'that an unreadable entry is reported is claimed as C03 and C04, locks '
        'as C02; the bound on the stack and the release of its entries relate '
        'the index of every entry of an array of records to its depth and '
        'kind, an invariant over all entries which the domains built here do '
        'not express',
 'C40': 'functional correctness over unbounded histories and runtime tree '
        'shapes: no static rule over the shape of the code decides it (the '
        'structural parts are claimed as C12, C16, C18, C24)',
 'C41': 'needs an inductive argument over runtime tree shapes; its structural '
        'parts are claimed as C17 and C24',
 'C42': 'order and completeness of a runtime sequence; the structural part '
        '(an unreadable node is reported) is claimed as C03 and C04',
 'C43': 'round trip of values through producer and verifier over all trees; '
        'the structural parts are claimed as C09, C12, C17, C24',
 'C44': 'quantifies over what a file system keeps after power loss, which is '
        'not visible in the source; the ordering of writes and syncs is '
        'claimed as C05',
}
import json as _j, os as _o
for _l in open(_o.path.join(_o.path.dirname(_o.path.dirname(
        _o.path.abspath(__file__))), 'properties.jsonl')):
    _i = _j.loads(_l)['id']
    if _i not in PROPS and _i not in NA:
        NA[_i] = 'no sound static check has been built for it (yet)'

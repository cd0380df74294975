"""Writes properties.jsonl (kept as a generator for readable diffs)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files.split(),
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b} for a, b in state],
                          'observe_at': list(obs)}})

p('C01', 'Concurrent use of one database is free of data races',
  '''Threads may call any database, transaction and iterator operation at the
  same time on one open database (except closing or destroying an object that
  is still in use): no two calls ever touch the same shared memory, at least
  one of them writing, unless a lock both of them hold excludes them from each
  other.''',
  'schedules inputs', '''every pair of public calls on the same database,
  transaction or iterator, every path through each of them, every interleaving''',
  '''One race needs one schedule out of astronomically many; the threaded test
  samples a handful of schedules of a handful of operations.''',
  'src/tree.c src/store.c src/nodes.c src/io_posix.c',
  [('read-write lock of the tree, of each transaction and of the open-file map, mutex of the iterator', 'src/tree.c, src/store.c'),
   ('upgrade to the write lock before caching hashes or history', 'urkel_tx_create, urkel_tx_root, urkel_tx_prove')])
p('C02', 'Locks are balanced, never re-acquired, and ordered',
  '''Every public call releases on every path, success or failure, exactly the
  locks it acquired (an iterator keeps its transaction and database readable
  from creation to destruction, and nothing else stays held). No call acquires
  a lock it already holds or releases one it does not hold, and all calls
  acquire locks in one global order, so that no set of calls can deadlock.''',
  'schedules inputs fault_sequences', 'every path of every public call, every interleaving of them',
  'A leaked or inverted lock shows only on the failing path or interleaving that takes it; tests take few error paths and few schedules.',
  'src/tree.c src/store.c src/io_posix.c',
  [('lock/unlock pairs with single exit labels', 'src/tree.c, src/store.c')])
p('C03', 'Every failing call reports an error code and clears its outputs',
  '''Whenever a public call fails it has itself set one of the documented error
  codes for that operation (not found, invalid argument, corruption, failed
  open, failed write, end of iteration, or the proof error), never leaving a
  stale one. A failing lookup or proof call sets the size it returns (and the
  proof pointer) to zero / null, a failing verification leaves the
  existence flag and the size zero. Data that cannot be read is reported as
  corruption, never as an absent key or the end of an iteration.''',
  'inputs fault_sequences', 'every failing path of every public call with a result, whatever the input, tree or I/O fault',
  'Tests look at the codes of a few failures; the error paths below an I/O fault or a corrupt record are never taken.',
  'src/tree.c include/urkel.h',
  [('error assignment next to each failing return', 'src/tree.c'), ('output clearing on failure', 'urkel_tx_get, urkel_tx_prove, urkel_verify, urkel_get, urkel_prove')])
p('C04', 'An I/O failure is never reported as success and never kills the process',
  '''If the operating system fails to open, create, read, write, stat, list,
  rename or sync a file of the database during a call and the call does not
  make up for it, the call fails. Such a failure never aborts the process, and
  after a failed commit the previously committed root stays current.''',
  'fault_sequences', 'every system call a public operation makes, failing with any error (or a short count) on any path',
  'The tests never inject an I/O fault.',
  'src/io_posix.c src/store.c src/tree.c',
  [('status propagation from system call wrappers to the API', 'src/io_posix.c, src/store.c, src/tree.c')])
p('C05', 'A root becomes current only after everything it needs was written',
  '''A committed root becomes visible (as the current root, or for history
  lookups) only after all of its records and then its commit record were
  successfully handed to the operating system, in the order they were
  produced; with the sync build option also only after they were synced.
  When a commit rolls over to a new data file, the old file is synced before
  anything is written to the new one.''',
  'crash_points fault_sequences inputs', 'every path through a commit: every failure point, any number of file rollovers and buffer flushes',
  'The order of publication against writes is invisible unless a fault or crash hits the window between them, which no test does.',
  'src/store.c src/tree.c', [('flush before state update', 'urkel_store_commit, urkel_tree_commit'), ('sync before rollover', 'urkel_store_write')])
p('C06', 'Reading never modifies files and committing only appends',
  '''No read operation (lookups, proofs, iteration, root queries, choosing a
  historical root) ever creates, writes, truncates, renames or removes a file.
  Inserting, removing and committing only ever append to data files: existing
  bytes are never overwritten, a data file is shortened only to discard a
  failed append, and no file is removed or renamed.''',
  'inputs histories fault_sequences', 'every path of every public operation on an open database',
  'Tests compare results, not the file system effects of each path.',
  'src/store.c src/io_posix.c', [('append-only writes', 'urkel_file_write'), ('read-only opens', 'urkel_store_open_file')])
p('C07', 'Opening recovers the newest intact commit and discards only what follows it',
  '''Opening a database selects the last intact commit record: it scans data
  files from the newest backwards and each file from its end backwards, in
  steps of one commit-record size, and stops at the first record that is
  valid. It truncates that file exactly behind this record, removes only data
  files which were completely searched and hold no valid record, and remembers the
  location of the record it accepted; a file it could not read is never removed
  or truncated.''',
  'crash_points inputs fault_sequences', 'every content of the data files (any crash or corruption) and every read failure during recovery',
  'The tests corrupt one byte at the end of one file; torn tails, several files and read failures are not tried.',
  'src/store.c', [('backwards scan for a checksummed record', 'urkel_store_find_meta'), ('recovery loop over files', 'urkel_store_recover_state')])
p('C08', 'Only a process holding the exclusive lock touches the database files',
  '''Opening or destroying a database acquires an exclusive inter-process lock
  before it reads, lists, creates, truncates or removes any file of the
  database, fails if it cannot get the lock, and releases it only after the
  last access. The lock is released on every failing path, and the lock file
  is never removed while another process could hold the lock on it.''',
  'schedules fault_sequences', 'every path of opening, closing and destroying, with any number of competing processes',
  'Tests run one process.',
  'src/io.c src/store.c src/io_posix.c', [('lock file', 'urkel_fs_open_lock, urkel_fs_close_lock'), ('order in open/destroy', 'urkel_store_init, urkel_store_destroy')])
p('C09', 'A proof is accepted only after every required check',
  '''Verification reports success only if the proof was consumed completely and is
  well formed, every prefix on its path matches the key at its depth, the depth is used
  up exactly, a non-existence proof really excludes the key (different leaf
  key, diverging prefix, or empty branch), and the root recomputed from all
  its steps equals the given root. It reports a value only for an existence
  proof and then exactly the value which was hashed.''',
  'inputs', 'every byte string offered as a proof, every key and root',
  'Tests verify honest proofs; forged ones form an unbounded input space.',
  'src/proof.c src/tree.c', [('verification', 'urkel_proof_verify'), ('sanity check', 'urkel_proof_is_sane')])
p('C10', 'Untrusted proofs cannot corrupt memory, leak or crash',
  '''For every byte string of every length, decoding and verifying a proof
  reads only inside the given bytes and writes only inside its own buffers,
  never aborts the process, and releases all memory it allocated, whether it
  accepts or rejects.''',
  'inputs', 'all byte strings and lengths, all keys and roots',
  'Memory errors need the particular malformed input; tests decode proofs they made themselves.',
  'src/proof.c src/bits.c src/util.c src/tree.c', [('length checks before each read', 'urkel_proof_read, urkel_bits_read')])
p('C11', 'Corrupt or hostile database files cannot corrupt memory or abort',
  '''Whatever bytes the data files hold, opening the database and reading,
  proving, iterating or updating through it accesses memory only within the
  buffers meant for it: every length, position and prefix size taken from a
  file is checked before it is used.''',
  'inputs', 'all contents of nodes, values and commit records read from disk',
  'The tests only read files the library wrote.',
  'src/nodes.c src/store.c src/bits.c src/tree.c src/io_posix.c', [('bounds in decoder', 'urkel_node_read'), ('bounds in file reads', 'urkel_file_pread, urkel_store_read_node, urkel_store_retrieve')])
p('C12', 'What is written to disk or into a proof is read back identically',
  '''For nodes, pointers, commit records, prefixes and proofs the encoder and the decoder
  agree byte for byte: each field is read from the position and with the
  width, endianness and bit packing at which it was written, for every value
  the field may take, and the encoded size is the one announced.''',
  'inputs', 'all field values (sizes, positions, file numbers, prefixes of 0..256 bits)',
  'Disagreement shows only for values that use the affected bits, such as values longer than 255 bytes or positions over 64 KB.',
  'src/nodes.c src/proof.c src/bits.c src/store.c src/util.h', [('encoder/decoder pairs', 'urkel_pointer_write/read, urkel_node_write/read, urkel_bits_write/read, urkel_proof_write/read, urkel_meta_write/read')])
p('C13', 'Sizes, positions and file numbers are never silently truncated',
  '''No size, file position or file number of a stored record loses significant bits on its
  way between memory, the write buffer and the stored record: each narrowing
  or packing of such a quantity only ever sees values that fit.''',
  'inputs histories', 'all value sizes up to 1023, all file positions and numbers within the format limits',
  'A narrowing bug needs a large value or a large file.',
  'src/nodes.c src/store.c src/proof.c', [('widths of pointer fields and parameters', 'src/nodes.h, src/nodes.c')])
p('C14', 'Every allocation is released exactly once and never used afterwards',
  '''On every path of every public call each heap object has exactly one owner:
  it is either released exactly once or reachable from the database,
  transaction, iterator or result, never both, never neither. Released memory is
  not accessed and no path uses uninitialised memory or a null object.''',
  'inputs histories fault_sequences', 'every path of every public call, including failure paths, over all tree shapes',
  'Leaks and double releases sit on rare paths (failed reads, failed writes, corner-case tree shapes).',
  'src/tree.c src/store.c src/nodes.c src/proof.c src/io_posix.c', [('ownership transfer of tree nodes', 'urkel_tree_insert, urkel_tree_remove, urkel_tree_write'), ('destructors', 'urkel_node_destroy, urkel_store_clear, urkel_proof_clear')])
p('C15', 'Descriptors, mappings and directory handles are released exactly once',
  '''Every file descriptor, file mapping and directory handle opened by a call
  is closed exactly once, on success and on every failure path, unless the
  open database keeps it; closing the database releases everything it kept.
  No closed descriptor is used again.''',
  'inputs fault_sequences', 'every path of every public call including failures',
  'A leaked descriptor has no functional effect until the process runs out.',
  'src/io_posix.c src/store.c src/io.c', [('close on failure paths', 'urkel_file_open, urkel_store_find_meta, urkel_fs_open_lock, urkel_fs_scandir')])
p('C16', 'A failed operation leaves the transaction unchanged and usable',
  '''When inserting, removing, clearing, choosing a root or committing fails
  or changes nothing, the transaction still refers to a complete, live tree; a failed insert or removal or
  root change leaves precisely the tree it had before. A failed commit neither changes the
  current root of the database nor loses the pending tree, so that the commit
  can be retried.''',
  'inputs fault_sequences histories', 'every failing path of every mutating call over all tree shapes',
  'Needs a fault in the middle of a recursive update.',
  'src/tree.c', [('nodes are released only after the operation can no longer fail', 'urkel_tree_insert, urkel_tree_remove'), ('root replaced only on success', 'urkel_tx_insert, urkel_tx_remove, urkel_tx_inject')])
p('C17', 'Node hashes are computed over the specified, domain-separated preimages',
  '''A leaf hashes as a leaf marker, the key and the hash of the value; an
  inner node as an inner-node marker, the prefix length and bits when the
  prefix is not empty (with a marker different from the one without prefix),
  the left hash and the right hash, in this order and with these widths; the
  empty tree is all zero. Building, reading back, proving and verifying all
  use this one function of the same arguments.''',
  'inputs', 'all keys, values, prefixes and child hashes',
  'Tests hash sampled trees; a collision or a mismatch for special prefix lengths is not sampled.',
  'src/util.c src/nodes.c src/proof.c', [('hash functions', 'urkel_hash_internal, urkel_hash_leaf, urkel_hash_value')])
p('C18', 'Operations see the root that was asked for',
  '''An operation given a root hash works on the tree with exactly that hash or
  fails; without one it works on the injected root if there is one, else on
  the last committed root, and a transaction reads and writes its own tree only.
  After a commit the database root is the hash of the committed tree.''',
  'inputs histories', 'all choices of root, all states of the database',
  'Tests use few roots and rarely mix injected, historical and current ones.',
  'src/tree.c src/store.c', [('root selection', 'urkel_tx_create, urkel_tx_clear, urkel_tx_inject'), ('history search by hash', 'urkel_store_read_history')])
p('C19', 'Iteration ends, reports errors, and stays within its stack',
  '''Each step of an iterator either delivers the next entry, reports the end,
  or reports corruption; an unreadable node or value never appears as an entry
  or as the end. The traversal stack never overflows or underflows and each
  node loaded on the way is released when the traversal leaves it.''',
  'inputs histories fault_sequences', 'all tree shapes and depths, committed or not, all read failures',
  'The deepest tree a test iterates is far from the limit.',
  'src/tree.c', [('explicit stack', 'urkel_iter_seek, urkel_iter_push, urkel_iter_pop')])
p('C20', 'File names and printed text always fit their buffers',
  '''For every database path accepted by open or destroy, every file name built
  below it (data file, key, lock, and every name found in the directory) fits
  the buffer it is built in, and longer paths are rejected. Hexadecimal text
  printed by the tool fits its buffer for values of every size. No text is
  read behind its terminator or used before it has one.''',
  'inputs', 'all database paths, file names and numbers, values of all sizes', 'Only maximum-length paths exercise the limit.',
  'src/store.c src/io_posix.c src/util.c', [('length limit', 'urkel_store_init_prefix, urkel_store_destroy'), ('path building', 'urkel_store_path')])
p('C21', 'Short and interrupted transfers are completed or reported',
  '''A read or write the system completes only partially is continued at the
  following byte of buffer and file until all bytes are transferred;
  interruptions are retried; end of file or a real error makes the transfer
  fail. It never reports success with fewer bytes and never goes past the
  requested range.''',
  'fault_sequences inputs', 'all sequences of partial counts, interruptions and errors',
  'The kernel practically never returns short counts on test files.',
  'src/io_posix.c', [('transfer loops', 'urkel_fs_read, urkel_fs_write, urkel_fs_pread, urkel_fs_pwrite')])
p('C22', 'The command line tool reports failure through its exit status',
  '''The command line tool exits with success only if the requested library
  operation succeeded; every failing operation leads to a non-zero exit status.''',
  'inputs fault_sequences', 'all commands and all failures of the library calls', 'No test runs the tool.',
  'src/urkel.c', [('status of each command', 'urkel_main')])
p('C23', 'Running out of memory is always detected',
  '''Every result of an allocation is checked before it is used; no path
  dereferences or computes with a failed allocation.''',
  'fault_sequences', 'every allocation on every path failing', 'Tests never fail an allocation.',
  'src/internal.h src/store.c src/io_posix.c src/khash.h', [('checked allocation helpers', 'checked_malloc, checked_realloc')])
p('C24', 'Every operation navigates the tree by the same bits',
  '''Lookup, insertion, removal, proving and verifying take, below an inner node whose
  prefix starts at depth d and has p bits, the branch given by bit d+p of the
  key and continue at depth d+p+1; the other branch is kept, hashed or proven
  as the sibling. When an inner node is split or merged, prefixes are cut and joined
  so that each key stays reachable under its own bits.''',
  'inputs histories', 'all keys and tree shapes', 'Tests sample random keys, whose prefixes are short.',
  'src/tree.c src/proof.c src/bits.c', [('bit selection', 'urkel_tree_get, urkel_tree_insert, urkel_tree_remove, urkel_tree_prove, urkel_proof_verify'), ('prefix split and join', 'urkel_bits_split, urkel_bits_join')])
p('C25', 'The hash primitive is BLAKE2b-256',
  '''The built-in hash is BLAKE2b with a 32-byte digest as specified: its
  initialisation vector, message schedule, rotation amounts, parameter block,
  byte counter and finalisation are those of the standard, for messages of
  any length fed in any pieces.''',
  'inputs', 'all messages and all ways of splitting them', 'Tests compare a few digests of short messages.',
  'src/blake2b.c', [('compression function and buffering', 'urkel_blake2b_update, urkel_blake2b_final, urkel_blake2b_compress')])
p('C26', 'Records are written where their pointers say',
  '''Every value, node and commit record which is put into the write buffer ends up,
  once the buffer is written out, as a whole in the file and at the position
  that its pointer names: also when the buffer crosses the size limit of a file,
  when writing fails part-way and is tried again, and over any number of
  flushes. Files never grow over the limit, commit records lie at multiples of
  their size, and each names its root and the commit record before it.''',
  'histories inputs fault_sequences', 'all file positions, all value sizes, every distribution over files, every failing write', 'No test fills a file of 2 GB or makes a write fail part-way.',
  'src/store.c src/io_posix.c', [('write buffer and rollover', 'urkel_slab_write, urkel_store_flush, urkel_store_write'), ('commit record', 'urkel_store_write_meta')])
# ---- not claimed (see MANIFEST not_applicable)
p('C40', 'The tree behaves as a map from keys to values',
  '''After any sequence of insertions, removals and commits a lookup returns
  the last value inserted for a key, and nothing after its removal.''',
  'histories inputs', 'all histories', 'Tests replay a handful of histories.',
  'src/tree.c', [('recursive update', 'urkel_tree_insert, urkel_tree_remove')])
p('C41', 'The root hash depends only on the contents',
  '''Two trees with the same entries have the same root hash whatever the order
  of the operations which led to them.''',
  'histories', 'all pairs of histories with equal contents', 'Two histories out of unboundedly many are compared.',
  'src/tree.c', [('canonical split and merge', 'urkel_tree_insert, urkel_tree_remove')])
p('C42', 'Iteration yields every entry exactly once in key order',
  'A full iteration delivers each entry of its tree once, in increasing key order.',
  'histories', 'all trees', 'A few trees are iterated.', 'src/tree.c', [('traversal', 'urkel_iter_seek')])
p('C43', 'Every generated proof verifies',
  '''For every tree and key the proof that is generated verifies against the
  root of the tree and reports the actual value, or absence.''',
  'histories inputs', 'all trees and keys', 'A few trees are proven.', 'src/tree.c src/proof.c', [('prove and verify', 'urkel_tree_prove, urkel_proof_verify')])
p('C44', 'Committed data survives loss of power',
  '''With the sync option, after a commit returns its data is recovered
  whatever the file system kept of later writes.''',
  'crash_points', 'all crash points and write reorderings', 'No crash is tested.', 'src/store.c', [('sync', 'urkel_store_sync')])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(x) + '\n' for x in P))
print(len(P))

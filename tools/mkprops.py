#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
SEQ = ['inputs', 'histories']; CON = ['schedules', 'histories', 'programs']

p('C01', 'BTreeOLC used by one thread is an ordered map',
  'After any sequence of insertions (inserting an existing key replaces its value), a lookup finds exactly the keys inserted so far with their latest value and reports absent keys as absent, whatever splits the sequence caused. A scan from a key returns, in ascending key order, values of consecutive present keys starting with the smallest key not below the start (possibly fewer than asked for, but at least one whenever the leaf responsible for the start holds such a key). Both published node layouts behave this way.',
  SEQ, 'every insertion order and every mix of operations over the key universe, including orders that split leaves and inner nodes at every position', 
  'BTreeOLCExample runs one random insertion order with lookups of present keys only; absent keys, duplicates, boundary positions and scans are never checked.',
  ['BTreeOLC/BTreeOLC.h', 'BTreeOLC/BTreeOLC_child_layout.h'],
  [('node search and split', 'BTreeOLC.h BTreeLeaf::lowerBound/insert/split, BTreeInner'), ('descent', 'BTree::insert, BTree::lookup, BTree::scan')])
p('C02', 'BTreeOLC operations are linearizable under concurrency',
  'When several threads insert, look up and scan the same tree concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No inserted key is ever lost or duplicated, also when nodes split concurrently, and a scan returns an ordered run of consecutive keys that was present at one moment.',
  CON, 'every interleaving of the concurrent operations, for every small concurrent program over a prefilled tree at every split-relevant fill level',
  'The example runs a handful of OS-scheduled interleavings and checks only that its own keys are found at the end.',
  ['BTreeOLC/BTreeOLC.h', 'BTreeOLC/BTreeOLC_child_layout.h'],
  [('optimistic lock with version validation and restart', 'OptLock'), ('split under write locks of node and parent', 'BTree::insert'), ('post-read validation', 'BTree::lookup, BTree::scan')])
p('C03', 'BLinkTree used by one thread is an ordered map',
  'After any sequence of insertions and updates, a lookup finds exactly the inserted keys with their latest value and reports other keys as absent; inserting an existing key and updating an absent key are refused without effect. Range lookups return the entries not below the start key in ascending order, up to the number asked for within what the scan covers.',
  SEQ, 'every operation sequence over the key universe, including those that split leaves and inner nodes at every position',
  'BlinkExample inserts one sequence and prints results; no absent keys, duplicate inserts or scans are compared.',
  ['BLinkTree/b_link_tree.h', 'BLinkTree/b_link_node.h', 'BLinkTree/b_tree.h'],
  [('sorted leaf/inner nodes with high keys and sibling links', 'b_link_node.h'), ('descent and split propagation', 'b_link_tree.h')])
p('C04', 'BLinkTree operations are linearizable under concurrency',
  'When several threads insert, update and look up concurrently, every operation appears to take effect atomically at one moment between its call and its return and every operation returns. No inserted key is lost, duplicated or temporarily unreachable while nodes split, and concurrent range lookups see every key that was present throughout.',
  CON, 'every interleaving of small concurrent programs on trees prefilled up to each split-relevant fill level',
  'The example has no concurrency check; races between a split and a reader moving along sibling links need a specific interleaving.',
  ['BLinkTree/b_link_tree.h', 'BLinkTree/b_link_node.h', 'BLinkTree/latch.h'],
  [('move right on high key', 'b_link_tree.h'), ('latches and versions', 'latch.h, b_link_node.h')])
p('C05', 'ARTOLC used by one thread is an ordered map of byte strings',
  'After any sequence of insertions and removals of prefix-free keys, a lookup finds exactly the keys present with their latest value, whatever node growth, shrinking, path compression and prefix splitting the sequence caused. Inserting an existing key overwrites it, removing an absent key or a non-matching value has no effect. A range lookup returns, in ascending key order, the values of exactly the present keys from the start (included) up to the end (excluded), or the first ones of them together with the next key as continuation when there are more than asked for.',
  SEQ, 'every operation sequence over key universes with shared prefixes (shorter and longer than the stored prefix), and node populations across every growth and shrink threshold',
  'ArtExample inserts, looks up and removes one dense or sparse random key set; deep prefixes, growth/shrink boundaries in all orders and ranges are not compared with a reference.',
  ['ARTOLC/Tree.cpp', 'ARTOLC/N.cpp', 'ARTOLC/N4.cpp', 'ARTOLC/N16.cpp', 'ARTOLC/N48.cpp', 'ARTOLC/N256.cpp', 'ARTOLC/Key.h'],
  [('adaptive nodes', 'N4/N16/N48/N256'), ('path compression with optimistic prefixes', 'Tree::checkPrefix, checkPrefixPessimistic, getAnyChildTid')])
p('C06', 'ARTOLC operations are linearizable under concurrency',
  'When several threads insert, look up and remove concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No key is lost, resurrected or found under a wrong value while nodes are replaced, grown, shrunk or merged.',
  CON, 'every interleaving of small concurrent programs over colliding keys on prefilled trees at each growth, shrink, prefix-split and merge situation',
  'ArtExample inserts, looks up and removes disjoint keys in phases; conflicting operations on the same node at the critical instant are not scheduled.',
  ['ARTOLC/Tree.cpp', 'ARTOLC/N.cpp', 'ARTOLC/N.h'],
  [('optimistic lock coupling: version lock with obsolete bit', 'N.cpp readLockOrRestart, checkOrRestart, upgradeToWriteLockOrRestart, writeUnlockObsolete'), ('replace node then mark obsolete', 'N::insertGrow, N::removeAndShrink')])
p('C07', 'ARTOLC never uses or frees a node twice once it is reclaimed',
  'No thread ever reads or writes a tree node after it has been freed, no node is freed twice, and nodes that are still reachable are never freed, whatever operations run concurrently and whenever reclamation runs. Dropping the tree frees what it still holds.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of removals and replacements with readers, with the reclamation threshold set so that reclamation runs at every possible moment',
  'The default threshold delays reclamation so long that a premature free is never exercised, and a stale read usually goes unnoticed.',
  ['ARTOLC/Epoche.cpp', 'ARTOLC/Epoche.h', 'ARTOLC/Tree.cpp'],
  [('epoch announcement and deletion lists', 'Epoche.cpp enterEpoche, exitEpocheAndCleanup, markNodeForDeletion'), ('deferred free of replaced nodes', 'N.cpp')])
p('C08', 'ARTOLC range lookups are consistent under concurrent updates',
  'A range lookup running concurrently with insertions and removals returns and yields values in ascending key order without duplicates. It includes every key of the range that was present during the whole call, and nothing that was absent during the whole call or lies outside the range.',
  CON, 'every interleaving of a range lookup with concurrent structural changes (growth, shrink, prefix split, merge)',
  'No test calls the range lookup at all.',
  ['ARTOLC/Tree.cpp', 'ARTOLC/N.cpp'],
  [('restartable traversal with version checks', 'Tree::lookupRange, N::getChildren')])
p('C09', 'OptiQL tree used by one thread is an ordered map of byte strings',
  'After any sequence of insertions, updates and removals of prefix-free keys, a lookup finds exactly the keys present with their latest value, whatever node growth, shrinking and prefix splitting the sequence caused. Inserting an existing key, updating or removing an absent key is refused without effect and reported.',
  SEQ, 'every operation sequence over key universes with shared prefixes, and node populations across every growth and shrink threshold',
  'optiql_example checks one key set; refused operations and growth/shrink boundaries in all orders are not compared with a reference.',
  ['OptiQL/Tree.cpp', 'OptiQL/N.cpp', 'OptiQL/N4.cpp', 'OptiQL/N16.cpp', 'OptiQL/N48.cpp', 'OptiQL/N256.cpp'],
  [('adaptive nodes and path compression', 'N*.cpp, Tree.cpp')])
p('C10', 'OptiQL tree operations are linearizable under concurrency',
  'When several threads insert, look up, update and remove concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No key is lost, resurrected or found under a wrong value while nodes are replaced, grown, shrunk or merged.',
  CON, 'every interleaving of small concurrent programs over colliding keys on prefilled trees at each structural situation, for the lock the tree is built with',
  'The example runs disjoint phases; the queue-lock hand-over and upgrade paths need precise interleavings.',
  ['OptiQL/Tree.cpp', 'OptiQL/N.cpp', 'OptiQL/N.h'],
  [('optimistic versions with queue-based writers', 'N.cpp, OptiQL/latches')])
p('C11', 'OptiQL locks exclude writers and reject stale optimistic reads',
  'For each lock of the family at most one writer is inside the critical section and no shared reader is inside together with a writer. An optimistic read whose validation succeeds saw no concurrent write, an upgrade succeeds only when nothing changed since the read, and every waiting thread eventually gets the lock.',
  CON, 'every interleaving of up to three threads taking, upgrading, validating and releasing each lock',
  'Only one lock type is used by the built example and only under the OS scheduler; hand-over races need a specific interleaving.',
  ['OptiQL'], [('queue nodes and version words', 'OptiQL latch headers')])
p('C12', 'HOT used by one thread is an ordered map',
  'After any sequence of insertions and upserts, lookups find exactly the keys present with their latest value; inserting an existing key is refused and an upsert reports the replaced value, if any. Iteration, find, lower and upper bound and bounded scans visit exactly the present keys in ascending order from the requested position, for integer and string keys.',
  SEQ, 'every operation sequence over key universes whose bit patterns force every node layout, node split, pull-up and leaf push-down',
  'HOTExample inserts one random set and looks it up; node layouts, boundaries and iteration are not compared with a reference.',
  ['HOT/include', 'HOT'], [('discriminative-bit nodes', 'HOT rowex/commons headers')])
p('C13', 'HOT operations are linearizable under concurrency',
  'When several threads insert, upsert and look up concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No inserted key is lost or becomes unreachable while nodes are split, extended or replaced.',
  CON, 'every interleaving of small concurrent programs on prefilled tries in each structural situation',
  'The example phases use disjoint keys under the OS scheduler.',
  ['HOT/include'], [('read-optimised write exclusion with obsolete marking', 'HOTRowex*.hpp')])
p('C14', 'HOT never touches reclaimed memory and its scans stay consistent under insertion',
  'No thread ever accesses a trie node after it has been freed and no node is freed twice, whatever operations run concurrently and whenever reclamation runs. Iteration concurrent with insertions visits keys in ascending order without duplicates and includes every key that was present throughout.',
  CON, 'every interleaving of readers and iterators with insertions that replace nodes, with reclamation forced at the earliest moment the design allows',
  'Reclamation is triggered only after many frees, and a stale read usually goes unnoticed.',
  ['HOT/include'], [('epoch-based reclamation', 'EpochBasedMemoryReclamationStrategy')])
p('C15', 'MassTree used by one thread is an ordered map of byte strings',
  'After any sequence of insertions, replacements and removals of arbitrary byte strings (any length, embedded zero bytes, keys that are prefixes of others), lookups find exactly the keys present with their latest value. Forward and reverse scans from any start key, inclusive or exclusive, visit exactly the present keys in order with their full key strings.',
  SEQ, 'every operation sequence over key universes that exercise slice boundaries, layer creation, leaf and inner splits and empty-leaf and empty-layer removal',
  'unit-mt and scantest check fixed examples with the default node width, which reach few split positions.',
  ['MassTree/masstree.hh', 'MassTree/masstree_get.hh', 'MassTree/masstree_insert.hh', 'MassTree/masstree_remove.hh', 'MassTree/masstree_split.hh', 'MassTree/masstree_scan.hh', 'MassTree/masstree_struct.hh', 'MassTree/masstree_tcursor.hh'],
  [('trie of B+ trees over 8-byte slices', 'masstree_*.hh'), ('permutation-ordered leaves', 'kpermuter.hh')])
p('C16', 'MassTree point operations are linearizable under concurrency',
  'When several threads get, put and remove concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No key is lost, resurrected or returned with another key\'s value while leaves split, layers are created or empty leaves and layers are removed.',
  CON, 'every interleaving of small concurrent programs over colliding keys on prefilled trees in each structural situation',
  'mttest runs random workloads under the OS scheduler and reports throughput; lost or stale results in rare interleavings pass unnoticed.',
  ['MassTree/masstree_get.hh', 'MassTree/masstree_insert.hh', 'MassTree/masstree_remove.hh', 'MassTree/masstree_split.hh', 'MassTree/nodeversion.hh', 'MassTree/btree_leaflink.hh'],
  [('version numbers with insert/split counters', 'nodeversion.hh'), ('hand-over-hand locking and B-link moves', 'masstree_split.hh, btree_leaflink.hh')])
p('C17', 'MassTree scans are consistent under concurrent updates',
  'A forward or reverse scan running concurrently with insertions and removals returns and visits keys in strict order without duplicates. It includes every key of the range present during the whole scan and no key that was absent during the whole scan, each with a value that key had at some moment during the scan.',
  CON, 'every interleaving of a scan with concurrent inserts, splits, removals and layer changes',
  'scantest uses a few scripted steps with one thread.',
  ['MassTree/masstree_scan.hh', 'MassTree/btree_leaflink.hh'], [('per-leaf validated scan stack', 'masstree_scan.hh')])
p('C18', 'MassTree never reuses memory that a reader may still access',
  'A node, suffix bag or value handed to deferred reclamation is freed or reused only after every thread that could hold a reference has left its critical section, and it is freed at most once. Reclamation eventually frees what was handed to it, and destroying a table frees everything it holds.',
  CON, 'every interleaving of readers, removals and reclamation passes, with the epoch advanced at every possible moment',
  'The test workloads run reclamation rarely; a premature reuse is only visible in a narrow window.',
  ['MassTree/kvthread.hh', 'MassTree/kvthread.cc', 'MassTree/masstree_remove.hh'], [('RCU limbo lists and epochs', 'kvthread.cc hard_rcu_quiesce, rcu_clean')])
p('C19', 'MassTree building blocks: permutations, string bags, version words, key search, leaf links, small vectors',
  'The slot permutation always remains a permutation and its insert, remove, exchange and rotate operations act as the corresponding list operations; key search over a permuted node finds exactly the matching slot or the insertion position. A string bag returns for each slot exactly the bytes last assigned to it and refuses an assignment only when it does not fit. The node version word admits one lock holder at a time, and an optimistic reader learns of every insertion, split or deletion made since it took its snapshot. Doubly linked leaf lists stay complete while neighbouring leaves are split and unlinked concurrently. The small vector behaves like a vector, constructing and destroying each element exactly once.',
  SEQ, 'every operation sequence from every reachable permutation and bag filling up to the stated sizes',
  'unit-mt and the built tests check a few examples.',
  ['MassTree/kpermuter.hh', 'MassTree/stringbag.hh', 'MassTree/nodeversion.hh'], [('bit-packed permutation', 'kpermuter.hh'), ('bump-allocated suffix storage', 'stringbag.hh')])
p('C20', 'JSON documents survive parsing, mutation and printing',
  'Printing a document and parsing the text gives back an equal document, parsing accepts exactly the well-formed texts and never reads outside its input, and mutating a document never changes another document that shares storage with it. Object and array operations behave like an ordered map and a list.',
  SEQ, 'every text over a token alphabet up to a length, every document up to a size, and every sequence of mutations over shared copies up to a depth',
  'jsontest has a list of fixed assertions.',
  ['MassTree/json.cc', 'MassTree/json.hh'], [('reference-counted copy on write', 'json.hh'), ('streaming parser', 'json.cc')])
p('C21', 'MessagePack values survive encoding and incremental decoding',
  'Decoding the encoding of a value gives back an equal value, using every byte of it, and feeding the bytes to the streaming decoder in any division into pieces gives the same result as feeding them at once. Truncated input is reported as incomplete and nothing outside the input is read.',
  SEQ, 'every value around every format boundary, nested documents up to a size, and every division of the encoding into pieces',
  'msgpacktest has a list of fixed assertions.',
  ['MassTree/msgpack.cc', 'MassTree/msgpack.hh'], [('format selection in the unparser, resumable parser stack', 'msgpack.cc, msgpack.hh')])
p('C22', 'Wormhole used by one thread is an ordered map of byte strings',
  'After any sequence of puts, deletes, merges, in-place updates and range deletes of arbitrary byte strings, gets and probes find exactly the keys present with their latest value. An iterator seeked to any key visits exactly the present keys not below it in ascending order, and skipping or clearing behaves like stepping.',
  SEQ, 'every operation sequence over key universes with shared prefixes and zero bytes, on indexes prefilled around every leaf split and merge threshold',
  'wh_demo and wh_stresstest sample random operations; split anchors, merges and boundary seeks in all orders are not enumerated.',
  ['wormhole/wh.c', 'wormhole/wh.h', 'wormhole/kv.c', 'wormhole/lib.c'], [('hash-encoded meta trie and sorted leaf list', 'wh.c')])
p('C23', 'Wormhole operations are linearizable under concurrency',
  'When several threads get, probe, put, delete and merge concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No key is lost, resurrected or found under a wrong value while leaves split or merge and the two meta-structure versions are swapped.',
  CON, 'every interleaving, up to the stated preemption bound, of small concurrent programs on indexes prefilled to split and merge thresholds, for the reference-counted and the always-safe interface',
  'wh_concbench and wh_stresstest run the OS scheduler; the window between meta update and leaf unlock is tiny.',
  ['wormhole/wh.c', 'wormhole/lib.c'], [('leaf locks with version check and two hash maps switched under quiescence', 'wh.c')])
p('C24', 'Wormhole iterators and range deletes are consistent under concurrency',
  'An iterator running concurrently with puts and deletes visits keys in strictly ascending order and includes every key present during the whole iteration, and nothing that was absent throughout. A concurrent range delete removes every key of the range present throughout and never one outside it, and no thread ever accesses freed memory.',
  CON, 'every interleaving, up to the stated preemption bound, of an iterator or range delete with puts, deletes, splits and merges',
  'The stress test compares counts after random runs only.',
  ['wormhole/wh.c'], [('leaf hand-over-hand locking', 'wh.c wormhole_iter_*')])
p('C25', 'Wormhole locks, quiescence and slab allocator keep their contracts',
  'The read-write lock, mutex and spin lock never admit a writer together with anyone else and never lose a wake-up; a try operation is refused only because of another holder or an overlapping operation. Waiting for quiescence returns only after every registered thread has reported the awaited state or parked, also while threads register and unregister. The slab allocator never hands out overlapping objects or loses one, and its count of allocated objects is exact.',
  CON, 'every interleaving of up to three threads over lock, unlock, try, downgrade, register, park and wait operations and over safe allocation and freeing; every short sequence of slab and registry operations',
  'No test checks exclusion; violations need a specific interleaving.',
  ['wormhole/lib.c', 'wormhole/lib.h'], [('atomic lock words', 'lib.c rwlock_*, mutex_*, spinlock_*'), ('quiescent-state registry', 'lib.c qsbr_*')])
p('C26', 'GoogleBTree containers behave like the standard ordered containers',
  'Every sequence of insertions, erasures, lookups, bounds, iterations, swaps, copies and clears on the map and multimap gives the same observable results as the standard containers. Values are constructed, moved and destroyed exactly as often as they should be, no memory is leaked or used after it is freed, and the tree invariants hold after every operation.',
  SEQ, 'every operation sequence over a small key universe for small node sizes, covering every split, merge and rebalance situation',
  'The example inserts a few keys; only one node size is used.',
  ['GoogleBTree'], [('node split, merge and rebalance', 'btree.h')])
p('C27', 'STX B+ tree containers behave like the standard ordered containers',
  'Every sequence of insertions, erasures by key and by iterator, lookups, bounds, iterations, copies, swaps and bulk loads on the set, map, multiset and multimap gives the same observable results as the standard containers. The tree invariants hold after every operation.',
  SEQ, 'every operation sequence over a small key universe for several node sizes, covering every split, merge and shift situation',
  'StxExample inserts and finds one key set with the default node size.',
  ['STX/tlx/container/btree.hpp', 'STX/tlx/container'], [('node split, merge and shift', 'btree.hpp')])
p('C28', 'tlx container components keep their contracts',
  'The d-ary heaps, radix heap, loser trees, LRU caches, splay tree, ring buffer, simple vector, string view, counting pointer and stack arena give the same observable results as simple reference implementations for every permitted operation sequence, and create and destroy their elements exactly once.',
  SEQ, 'every operation sequence up to the stated depth over small value universes',
  'No test of these components is built in this repository.',
  ['STX/tlx/container'], [('index bookkeeping of each component', 'STX/tlx/container/*.hpp')])
p('C29', 'tlx thread pool, semaphore and barriers keep their contracts',
  'Every job enqueued in the thread pool runs at most once, and exactly once unless the pool is shut down before it starts; waiting for the pool returns, to every waiting thread, and only when all jobs enqueued before have finished; shutting it down never hangs or loses a running job. The semaphore never lets more through than was signalled and wakes waiters that can proceed; a barrier releases its threads only when all have arrived, in every round. Objects shared by counting pointers of several threads are destroyed exactly once, and delegates call what they were bound to.',
  CON, 'every interleaving, with spurious wake-ups, of small programs over the pool, semaphore, barriers and reference counters',
  'No test of these components is built in this repository.',
  ['STX/tlx'], [('mutex, condition variables and atomic counters', 'STX/tlx/thread_pool.cpp, semaphore.hpp, thread_barrier_*.hpp')])
p('C30', 'tlx sorting, merging and multi-way selection are correct',
  'Sorting (networks, string sorts with their LCP arrays, suffix sets, parallel merge sort, parallel sample sort) returns the ordered permutation of its input, stable where promised, under every schedule of its workers. Multi-way merging, sequential or parallel, writes the requested number of smallest elements of the sorted inputs and advances the inputs by what it took. Multi-sequence partition and selection split at the requested rank, equal elements left in smaller-numbered sequences. Nothing outside the given ranges is touched and no copy or memory is left behind.',
  ['inputs', 'schedules'], 'every input over a small alphabet up to the stated length and number of sequences; for the parallel algorithms also every schedule up to the stated number of preemptions',
  'No test of these components is built in this repository.',
  ['STX/tlx/sort', 'STX/tlx/algorithm'], [('radix and multikey quicksort on strings, loser-tree merges', 'STX/tlx/sort, STX/tlx/algorithm')])
p('C31', 'tlx digests, codecs and string utilities agree with their definitions',
  'Digests depend only on the bytes, not on how they are divided into updates, and match the published algorithms. Encoding then decoding gives back the bytes, and the string and integer helpers agree with their mathematical definitions on their whole domain.',
  ['inputs'], 'every division of messages into updates around block boundaries, every byte string up to a length, every integer around the boundaries',
  'No test of these components is built in this repository.',
  ['STX/tlx/digest', 'STX/tlx/string', 'STX/tlx/math'], [('block buffering', 'STX/tlx/digest/*.cpp')])
p('C32', 'FBTree used by one thread is an ordered map',
  'After any sequence of insertions, updates and removals, lookups find exactly the keys present with their latest value, and upsert, update and remove report the previous entry, if any. Iteration and lower and upper bound visit exactly the present keys in ascending order from the requested position, for integer and string keys.',
  SEQ, 'every operation sequence over key universes that share prefixes and force splits and merges of leaves and inner nodes',
  'The example needs a submodule that is absent, so nothing of it is built or tested here.',
  ['FBTree'], [('feature-comparison inner nodes, hash-tagged leaves', 'FBTree/*.h')])
p('C33', 'FBTree operations are linearizable under concurrency',
  'When several threads upsert, update, look up and remove concurrently, every operation appears to take effect atomically at one moment between its call and its return, and every operation returns. No key is lost or found under a wrong value while nodes split and merge. An iteration that runs at the same time visits keys in ascending order, visits every key that is present throughout it, and reads no entry or node that was freed.',
  CON, 'every interleaving, up to the stated preemption bound, of small concurrent programs on prefilled trees',
  'Nothing of it is built or tested here.',
  ['FBTree'], [('version control word with splitting bit and sibling links', 'FBTree/*.h')])
p('C34', 'FAST lookups return the rank of the key',
  'The vectorised and the portable page search return, for every page content and every key, the number of separators that sort below the key as the layout defines it, and a lookup over a tree built from sorted keys finds exactly the position of the key.',
  ['inputs'], 'every sorted key set and every search key over a small universe, for each tree height',
  'The C sources are only compiled here, never run.',
  ['FAST'], [('blocked layout search', 'FAST/fast64/c/lookup.c')])
p('C35', 'The MassTree server recovers from its logs after a crash',
  'After a crash at any moment, including one that tears the last write or hits a running recovery or checkpoint, the server starts again. Its contents, read by get and by scan alike, are those after some prefix of the requests it had served in order, and that prefix includes every request of an epoch that all logs have on disk or that the server itself reported as flushed. Answers to put, replace and remove after a recovery agree with these contents.',
  ['crash points', 'histories', 'schedules'], 'every sequence, up to the stated depth, of client requests, epoch ticks, logger and checkpointer steps and crashes, with every tear position of the write in progress',
  'No test builds the server or its logging code; a crash has to hit a particular write in a particular order of logger steps.',
  ['MassTree/log.cc', 'MassTree/log.hh', 'MassTree/mtd.cc', 'MassTree/kvrow.hh', 'MassTree/checkpoint.cc'], [('epoch, quiesce and wake records', 'log.cc loginfo::run, logreplay'), ('recovery and checkpoints', 'mtd.cc recover, conc_checkpointer')])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(json_path, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')

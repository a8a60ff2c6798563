import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m) for n,m in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
T="src/trunk.c"; S="src/splinterdb.c"; B="src/btree.c"
p("P01","A lookup returns exactly the latest written value",
 "Looking a key up returns the value produced by all the writes made to that key before the lookup, in their order: the inserted bytes, or 'not found' if the key was never written or was last deleted. This holds wherever the data currently lives: in memory, being moved, or anywhere in the on-disk tree.",
 ["inputs","histories","configurations"],
 "every sequence of inserts, updates, deletes and lookups, over every key set, value size, tree geometry, cache size, hash and number of background threads",
 "Tests use sequential or hashed 8-byte style keys with few overwrites and deletes, and compare with a simplistic expectation; which component holds a key (memtable, branch, which trunk level, behind which filter) depends on the whole history.",
 [T,S,B,"src/memtable.c","src/routing_filter.c"],
 [("newest-to-oldest search of memtables, then bundles and branches of the trunk path","trunk_lookup, trunk_memtable_lookup, trunk_compacted_subbundle_lookup in src/trunk.c"),
  ("point lookup in a B-tree","btree_lookup_and_merge in src/btree.c"),("routing to branches","routing_filter_lookup in src/routing_filter.c")],
 [("store","the map from key rank to the ids of the writes its value consists of")],["return of splinterdb_lookup"])
p("P02","Every update is merged into its key exactly once, in order",
 "An update is folded into the value of its key by the application's merge function exactly once, after all earlier and before all later writes to that key, and never reaches back past an insert or delete. Lookups and scans always see the fully merged value, no matter how many partially merged pieces are still spread over the system.",
 ["inputs","histories","configurations"],
 "every interleaving of updates with inserts, deletes, memtable rotations, compactions and splits; any number of pending updates per key",
 "Upserts in tests are counters whose merge commutes, so a merge in the wrong order or against the wrong base cannot show; few tests let several updates of one key end up in different components.",
 [T,"src/merge.c","src/data_internal.c",B,"src/data_internal.h"],
 [("merging equal keys of several sources","merge_resolve_equal_keys, advance_one_loop in src/merge.c"),("merging during lookup","merge_accumulator handling in btree_lookup_and_merge / trunk_lookup"),("in-place merge on insert","btree_create_leaf_incorporate_spec in src/btree.c")],
 None,["return of splinterdb_lookup","splinterdb_iterator_get_current"])
p("P03","A scan returns every live key once, in key order, with its value",
 "A forward scan from any start key (or from the beginning) visits exactly the live keys not smaller than the start, each once, in the order of the application's comparison function, with the value a lookup would return, and then reports its end. Deleted keys never appear.",
 ["inputs","histories","configurations"],
 "every start key (present, absent, before the first, after the last), every contents and every distribution of the data over memtables, branches and trunk nodes",
 "Range tests compare short ranges in a few geometries; scans that cross trunk leaves, empty leaves and leaves whose branches hold only deletes are hit rarely and not judged key by key.",
 [T,"src/merge.c",B,S],
 [("range iterator over trunk leaves","trunk_range_iterator_init/next in src/trunk.c"),("k-way merge of branch and memtable iterators","merge_next in src/merge.c"),("B-tree iterator","btree_iterator_* in src/btree.c")],
 [("cur","position of the cursor: a live key, before the first, after the last")],["splinterdb_iterator_valid, _get_current, _next"])
p("P04","A cursor can turn around anywhere and never skips or repeats a key",
 "From every position, stepping a cursor back leads to the next smaller live key and stepping it forward to the next larger one, with that key's value, however often the direction changed before. The cursor reports truthfully whether it is on a key and whether it can move in each direction, also at both ends.",
 ["inputs","histories","configurations"],
 "every sequence of next and prev moves from every start key over every contents",
 "Tests walk backward mostly over fresh, single-version data and turn at a few fixed places; the state a turn must rebuild (equal keys across sources, leaf borders, ends) is combinatorial.",
 [T,"src/merge.c",B,S],
 [("direction change of the merge iterator","merge_iterator_set_direction in src/merge.c"),("moving to the previous trunk leaf","trunk_range_iterator_prev in src/trunk.c"),("moving to the previous B-tree leaf","btree_iterator_prev_leaf in src/btree.c")],
 None,["splinterdb_iterator_can_prev, _can_next, _prev, _next"])
p("P05","A clean close loses nothing; reopening restores exactly the contents",
 "After a close that returned, opening the same database (any number of times, interleaved with further work) yields exactly the contents at the close, all reads and writes keep working on it, and no write made before the close is lost, repeated or revived.",
 ["histories","configurations"],
 "every history of work, close and open cycles, in every geometry, with and without background threads and logging",
 "Tests reopen after small loads and check few keys; what has to be made durable (memtables being incorporated, dirty pages, allocation state, queues) depends on when the close comes.",
 [T,S,"src/rc_allocator.c","src/clockcache.c"],
 [("unmount: flush of memtables and tasks, superblock","trunk_unmount, trunk_set_super_block in src/trunk.c"),("mount","trunk_mount in src/trunk.c"),("allocation state","rc_allocator_mount/unmount in src/rc_allocator.c"),("writing back the cache","clockcache_flush in src/clockcache.c")],
 [("saved","contents at the last clean close")],["return of splinterdb_close and splinterdb_open"])
p("P06","A database that was not closed cleanly is refused or intact, never corrupt",
 "If the process dies at any moment, a later open either fails with an error or yields exactly the contents of a completed close (or of the creation), after which the database works normally; it never yields other contents, crashes or hangs. A completed close is never undone by a death that happens after it.",
 ["crash_points"],
 "every prefix of the writes the process issued, over create, work, close, open and close again",
 "No test kills the process; the order of the writes that make a close durable is invisible to tests that close properly.",
 [T,"src/rc_allocator.c","src/clockcache.c",S],
 [("mounted/unmounted mark in the superblock","trunk_set_super_block, trunk_get_super_block_if_valid in src/trunk.c"),("write-back before the mark","splinterdb_close in src/splinterdb.c, clockcache_flush"),("allocator metadata","rc_allocator_unmount in src/rc_allocator.c")],
 None,["pages written through the I/O layer","return of splinterdb_open after each crash image"])
p("P07","Concurrent point operations are linearizable",
 "Inserts, updates, deletes and lookups issued by any number of threads behave as if each took effect at one instant between its call and its return: a lookup never misses a write that returned before it started, never goes back in time, and every write survives exactly once.",
 ["schedules","histories"],
 "every interleaving of application threads with each other and with background incorporation, compaction, flushing and splitting",
 "Concurrent tests use disjoint keys per thread or check only at the end; real-time order of individual operations is never judged.",
 [T,"src/memtable.c",B,"src/platform_linux/platform.c","src/task.c"],
 [("concurrent insert into a memtable B-tree","btree_insert in src/btree.c"),("rotation and incorporation of memtables","memtable_maybe_rotate_and_begin_insert, trunk_memtable_incorporate_and_flush"),("copy-on-write trunk and its root","trunk_modification_begin/end in src/trunk.c")],
 [("linearization point","internal step between the recorded call and return")],["call and return of every operation"])
p("P08","Scans running beside writers return a consistent, ordered view",
 "A scan that runs while other threads write returns keys strictly in order, every key that is live throughout the scan exactly once with a value the key held at some moment during the scan, and no key that was absent throughout.",
 ["schedules","histories"],
 "every interleaving of scans with writes, memtable rotations, compactions, flushes and splits",
 "No test checks the contents of scans taken during writes.",
 [T,"src/memtable.c","src/merge.c",B],
 [("pinning memtables and branches for a range iterator","trunk_range_iterator_init in src/trunk.c"),("iteration over a memtable being written","btree_iterator in src/btree.c")],
 None,["splinterdb_iterator_* beside concurrent writers"])
p("P10","Space in use is never handed out again",
 "The allocator never gives out an extent that still has a reference, gives a fresh extent exactly one reference, never exceeds the device, and reports failure instead when nothing is free. Every reference taken is counted, also when many threads take and drop references at once.",
 ["histories","schedules","configurations"],
 "every sequence (and interleaving) of allocations, reference increments and decrements, deallocations, and remounts, up to a full disk",
 "Tests allocate far less than the disk holds and never check that an extent handed out is not still referenced.",
 ["src/rc_allocator.c","src/allocator.h","src/mini_allocator.c"],
 [("reference-counted extents","rc_allocator_alloc, rc_allocator_inc_ref, rc_allocator_dec_ref in src/rc_allocator.c"),("extents of one structure","mini_alloc, mini_keyed_dec_ref in src/mini_allocator.c")],
 [("refs","reference count of each extent")],["every allocator call and its result"])
p("P11","Space is given back: structures that die return all their extents",
 "When the last reference to a B-tree, filter, log or range of keys is dropped, exactly its extents become free again and nothing else does; a destroyed database leaves no extents in use but the fixed metadata. Counts of space in use agree with the references at all times and survive close and reopen.",
 ["histories","configurations"],
 "every history that builds, shares, partially releases and drops structures",
 "Leaks and premature frees of a few extents change no result of a test unless the disk fills up or the extent is reused at the wrong time.",
 ["src/mini_allocator.c","src/rc_allocator.c",B,"src/routing_filter.c","src/shard_log.c"],
 [("keyed and unkeyed reference counting of extent lists","mini_unkeyed_dec_ref, mini_keyed_dec_ref in src/mini_allocator.c"),("drop of a B-tree","btree_dec_ref, btree_dec_ref_range in src/btree.c"),("drop of a filter","routing_filter_zap in src/routing_filter.c")],
 None,["allocator in-use counts and per-extent references"])
p("P12","The page cache always returns the page's latest contents",
 "Reading a page through the cache returns the bytes most recently written to it through the cache, no matter how often it was evicted, written back, prefetched or read asynchronously in between; after a flush the device holds those bytes. Discarding pages of freed space never affects any other page.",
 ["histories","configurations","schedules"],
 "every sequence of page allocations, reads, writes, flushes, evictions, prefetches, asynchronous reads and discards, with a cache of any size",
 "Cache tests fit their working set or only check the absence of errors; eviction and write-back order depend on the access history.",
 ["src/clockcache.c","src/platform_linux/laio.c","src/cache.h"],
 [("lookup, load, eviction and write-back of entries","clockcache_get_internal, clockcache_evict_batch, clockcache_batch_start_writeback in src/clockcache.c"),("asynchronous I/O","io_write_async, io_read_async in src/platform_linux/laio.c")],
 [("disk, mem","contents of a page on the device and in the cache")],["every cache call and page contents it exposes"])
p("P13","Page locks exclude: readers never see a page mid-change",
 "While a page is locked for writing no other thread holds it in any mode, at most one thread holds a claim at a time, claims and reads may coexist, and a failed claim leaves the caller's read reference intact.",
 ["schedules"],
 "every interleaving of get, claim, lock, unlock, unclaim and unget by any number of threads, with concurrent eviction and write-back",
 "Lock violations need particular interleavings and corrupt data only sometimes.",
 ["src/clockcache.c"],
 [("read reference counts, claim and write lock bits","clockcache_get, clockcache_try_claim, clockcache_lock in src/clockcache.c")],
 None,["cache lock calls and what the holder observes in the page"])
p("P14","Filters never hide a key",
 "A filter that covers several runs reports, for every key added with any run, at least that run; adding a newer run never loses an older one. With duplicates, collisions, one or many runs, empty runs and any hash function there is no false negative.",
 ["inputs","configurations"],
 "every set of keys per run, every number of runs up to the limit, every fingerprint and index size, every hash function",
 "The filter tests use well-spread random fingerprints of one size.",
 ["src/routing_filter.c","src/routing_filter.h"],
 [("build by merging with the previous filter","routing_filter_add in src/routing_filter.c"),("query","routing_filter_lookup, routing_filter_lookup_async in src/routing_filter.c")],
 None,["results of filter lookups"])
p("P15","A B-tree holds exactly what was put in, packed or inserted",
 "A B-tree built by inserts in any order, or packed from a sorted stream, returns for every key its merged message, iterates in order in both directions between any two bounds, seeks correctly, and counts exactly the tuples and bytes in any range.",
 ["inputs","configurations"],
 "every set and order of keys and messages up to the inline size limits, every pair of bounds, tree heights from one page up",
 "The B-tree tests insert random fixed-size keys; splits, bounds between leaves, page-filling sizes and single-page trees are hit at a few sizes only.",
 [B,"src/btree.h","src/mini_allocator.c"],
 [("insert with splits","btree_insert, btree_split_child_leaf in src/btree.c"),("bulk build","btree_pack in src/btree.c"),("iteration and counting","btree_iterator_*, btree_count_in_range in src/btree.c")],
 None,["results of B-tree calls"])
p("P16","A log returns every entry written to it, in order",
 "Reading a log back returns, in order of their generations, exactly the entries on its pages before the first one still being filled, each once with its key, message and generation, however many threads wrote them and whether or not the cache was lost in between; entries of other or older logs of the process never appear.",
 ["inputs","schedules","configurations"],
 "every sequence of writes by any number of threads, every key and message size that fits a page",
 "The log test writes fixed-size entries from one or a few threads and compares with the same generator.",
 ["src/shard_log.c","src/shard_log.h","src/log.h"],
 [("per-thread pages of entries","shard_log_write in src/shard_log.c"),("collecting and sorting entries","shard_log_iterator_init in src/shard_log.c")],
 None,["log iterator results"])
p("P17","Asynchronous lookups return what synchronous lookups return",
 "A lookup driven asynchronously, however often it has to wait for a page and be resumed, returns exactly the result a synchronous lookup would, and always completes.",
 ["schedules","histories"],
 "every point at which a page is not in the cache, every order of completions, beside concurrent maintenance",
 "Tests of the asynchronous path run mostly on cached data, where it never has to wait.",
 [T,B,"src/routing_filter.c","src/clockcache.c"],
 [("resumable lookup","trunk_lookup_async in src/trunk.c, btree_lookup_async in src/btree.c, routing_filter_lookup_async in src/routing_filter.c"),("asynchronous page reads","clockcache_get_async, clockcache_read_async_callback in src/clockcache.c")],
 None,["results and completions of asynchronous lookups"])
p("P18","Every background task runs exactly once; idle means nothing is left",
 "Each enqueued task is executed exactly once, in order within its queue (urgent ones first), whether by background threads, by foreground helpers or at shutdown, and waiting for idleness returns only when no task is queued or running.",
 ["schedules","configurations"],
 "every number of background threads from none up, every interleaving of enqueuers, helpers and workers",
 "Task tests count completions of a handful of tasks in fixed thread setups.",
 ["src/task.c","src/task.h"],
 [("task queues per type","task_enqueue, task_group_perform_one in src/task.c"),("quiescence","task_perform_until_quiescent in src/task.c")],
 None,["start and end of every task"])
p("P19","Thread identities are unique while held, and reusable after release",
 "No two registered threads ever hold the same identity, registration beyond the maximum is refused with an error and without damage, and a released identity can be used again, for any order of registrations and exits.",
 ["schedules","histories"],
 "every interleaving of registrations and deregistrations of up to and beyond the maximum number of threads",
 "Tests register threads in simple start/stop patterns.",
 ["src/task.c"],
 [("bitmask of free thread ids","task_allocate_threadid, task_deallocate_threadid in src/task.c")],
 None,["thread registration results"])
p("P20","The shared heap never hands out overlapping or lost memory",
 "Memory allocated from the shared segment is aligned, inside the segment and disjoint from every live allocation, keeps its contents until freed, and large pieces freed are reused safely.",
 ["histories","schedules"],
 "every sequence and interleaving of allocations, reallocations and frees of any size, until exhaustion",
 "The tests allocate a few sizes in fixed order.",
 ["src/platform_linux/shmem.c","src/platform_linux/platform.c"],
 [("bump allocation and tracking of large fragments","platform_shm_alloc, platform_shm_free, platform_shm_find_free in src/platform_linux/shmem.c")],
 None,["addresses and contents of allocations"])
p("P21","Invalid requests are refused without any effect",
 "Keys longer than the configured maximum, values beyond the size limit, unusable configurations and opening what is not a database are refused with an error code, and leave the stored contents and the ability to keep working unchanged.",
 ["inputs","configurations"],
 "every boundary of key length and value size, every invalid configuration",
 "A few fixed invalid inputs are tested, and not that the store is unaffected by them.",
 [S,T,B],
 [("validation of the configuration","splinterdb_validate_config, splinterdb_init_config in src/splinterdb.c"),("validation of keys and values","splinterdb_insert_message in src/splinterdb.c")],
 None,["return codes, and contents afterwards"])
p("P22","A lookup result is self-contained and its buffer never overrun",
 "A lookup result stays valid until it is reused or released, independent of later writes; it can be reused for any sequence of lookups of found, absent and different-size values, and a caller's buffer is used only within its declared size.",
 ["inputs","histories"],
 "every buffer size, every sequence of lookups into one result, found or not",
 "Tests use a few buffer sizes and mostly fresh results.",
 [S,"src/data_internal.h","src/merge.c"],
 [("result accumulator","splinterdb_lookup_result_init, splinterdb_lookup, splinterdb_lookup_result_value in src/splinterdb.c"),("writable buffers","writable_buffer_* in src/util.c")],
 None,["splinterdb_lookup_result_*"])
p("P23","The application's comparison function alone decides the key order",
 "All guarantees hold for every total order the application supplies, over binary keys of any mix of lengths including prefixes of each other, zero and high bytes; only the sign of the comparison and equality of hashes for equal keys are relied on.",
 ["inputs","configurations"],
 "every comparison function, hash function and key shape",
 "All tests use lexicographic order and the default hash.",
 [S,T,B,"src/data_internal.c","src/default_data_config.c","src/routing_filter.c"],
 [("all key comparisons go through the data config","data_key_compare in src/data_internal.h"),("separator keys","btree pivots, trunk pivots")],
 None,["lookups and scans under custom data configs"])
p("P24","The batched reader-writer lock excludes writers from readers",
 "While a thread holds an index exclusively, no thread holds it shared or exclusively; at most one thread holds a claim; a claim alone does not block readers that are already in; a claim is refused only while another thread has it or tries to take it, a refused claim leaves the shared holders unaffected, and locks of different indexes do not interfere.",
 ["schedules"],
 "every interleaving of get, unget, claim, unclaim, lock and unlock over any number of threads and indexes",
 "The primitive has no test of its own; violations need rare interleavings.",
 ["src/platform_linux/platform.c"],
 [("per-thread read counters against claim and write lock words","platform_batch_rwlock_get, _try_claim, _claim_loop, _lock in src/platform_linux/platform.c")],
 None,["acquire and release of each mode"])
p("P25","Merging sorted sources yields each key once, newest first, both ways",
 "Merging any number of sorted sources, newest source first, yields every key once with all its messages combined in age order, drops or keeps deletions as the mode says, and can turn around at any point and at both ends without losing or repeating a key.",
 ["inputs"],
 "every assignment of inserts, updates and deletes of few keys to few sources, every mode, every walk",
 "The merge iterator has no test of its own.",
 ["src/merge.c","src/merge.h","src/data_internal.c"],
 [("k-way merge","merge_iterator_create, merge_next, merge_prev in src/merge.c"),("combination of messages","data_merge_tuples, data_merge_tuples_final in src/data_internal.c")],
 None,["merge iterator calls over in-memory sources"])
p("P26","Work always completes: no operation waits forever",
 "With any number of application and background threads, under sustained writes in small memory, with full memtables and pending maintenance, every operation returns and a close completes.",
 ["schedules","configurations"],
 "every interleaving and configuration of threads, memtable and cache sizes",
 "Tests run few thread counts with ample memory; hangs need particular rotations and backlogs.",
 [T,"src/memtable.c","src/task.c","src/clockcache.c"],
 [("waiting for a free memtable","memtable_maybe_rotate_and_begin_insert in src/memtable.c"),("helping with tasks in the foreground","task_perform_one_if_needed in src/task.c"),("waiting for room in the root","trunk_wait_for_room_in_root in src/trunk.c")],
 None,["completion of every call"])
ids=set()
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert x['id'] not in ids; ids.add(x['id'])
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))

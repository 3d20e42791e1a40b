"""The property table: one entry per property."""

TRUST = ('Every path of the named functions is followed through the clang CFG of the current source (helpers inlined, '
         'each loop either cut at its head with its changes made symbolic, or followed to a bound of two repetitions). '
         'Trusted: clang\'s CFG, the exporter, the term rewriting, and the stub declarations of libraries that are '
         'absent here (signatures only). It is not a machine-checked proof.')
NOTES = ('All checks read /repo\'s current source through a clang-based fact exporter and decide rules over path '
         'outcomes; nothing of /repo is executed. Known findings: known_findings.txt.')

ROCKS = ['lib/utils/rocksdb_wrapper.cpp', 'lib/include/sse/schemes/utils/rocksdb_wrapper.hpp',
         'lib/include/sse/schemes/abstractio/kv_serializer.hpp',
         'lib/include/sse/schemes/utils/rocksdb_store.hpp']
AV = ['lib/include/sse/schemes/abstractio/awonvm_vector.hpp']
IO = ['lib/abstractio/scheduler.cpp', 'lib/abstractio/linux_aio_scheduler.cpp', 'lib/abstractio/thread_pool_aio_scheduler.cpp',
      'lib/include/sse/schemes/abstractio/scheduler.hpp', 'lib/include/sse/schemes/abstractio/linux_aio_scheduler.hpp',
      'lib/include/sse/schemes/abstractio/thread_pool_aio_scheduler.hpp']

PROPS = [
 dict(id='P01', title='A persistent store reports success exactly when the database did',
  statement='A write or delete on a persistent key-value store, list store or counter reports success only when the database accepted it, and reports failure only when the database refused it; a read reports "found" exactly when the database returned the record. Every write goes through the write-ahead log, flushing waits exactly when the caller asked to block, and opening a store either succeeds on the caller\'s path or throws.',
  over=['inputs', 'fault_sequences', 'histories'],
  forall='every operation of every persistent store, whatever status each database call returns',
  why='The tests only see a healthy database: no test makes a Put, Get, Delete or open fail, so the outcome reported on each failing path is never observed.',
  files=ROCKS, mech=[('status check of every database call', 'RockDBWrapper, RocksDBListStore, RocksDBCounter, GenericRocksDBStore'), ('constructor throws on open failure', 'RockDBWrapper::RockDBWrapper, RocksDBListStore, RocksDBCounter')],
  note='Decides, for every path of every store operation, that the reported result equals the status of the database calls on it.'),
 dict(id='P02', title='What a store returns for a key is what was last stored under that key',
  statement='Storing, reading or deleting a record addresses the database by exactly the bytes of the caller\'s key; the bytes stored are exactly the value\'s bytes (for a list, the serializations of all elements once, in order). A successful read hands back all and only the bytes the database returned, decoded from the first to the last; an unsuccessful one leaves the caller\'s object untouched.',
  over=['inputs', 'histories'],
  forall='every key and value, of every supported key/value type',
  why='Tests store a handful of values of one size; key truncation, partial copies or a dropped list element only show for other sizes, types or contents.',
  files=ROCKS, mech=[('slice construction', 'RockDBWrapper::get/put/remove'), ('list serialization loop', 'RocksDBListStore'), ('fixed-size copy', 'serialization helpers')],
  note='Decides that key and value bytes flow unchanged between the caller and the database calls on every path; the per-type byte serializers are taken as given where they belong to the caller.'),
 dict(id='P03', title='A persistent counter never repeats and never goes back',
  statement='Each successful increment of a keyed counter stores the previously stored number plus one and hands back exactly the stored number. A starting value is written only when the database answered that the counter does not exist: any other read failure writes nothing and is reported.',
  over=['fault_sequences', 'histories'],
  forall='every key, every history of increments, every status of each database call',
  why='No test makes the counter\'s read fail, and the tests\' counters start from a fresh database.',
  files=ROCKS, mech=[('get-and-increment', 'RocksDBCounter::increment / get_and_increment'), ('set', 'RocksDBCounter::set')],
  note='Decides the step, the starting condition and the equality of the written and returned numbers on every path (one caller at a time).'),
 dict(id='P05', title='An append-only vector is writable until committed, readable after, and synced',
  statement='Elements can be appended only until the append-only disk vector is committed and read only once it is; the other cases throw and touch nothing. Committing waits for pending writes, then syncs the file, then marks the vector committed, permanently; destruction commits an uncommitted vector before closing. Opening a non-empty file gives a committed vector with as many elements as fit in the file; changing the access mode waits for pending requests and reopens the same file in that mode.',
  over=['histories', 'crash_points', 'fault_sequences'],
  forall='every sequence of operations on a vector, synchronous or asynchronous, in either access mode',
  why='Tests follow the intended order (append, commit, reopen, read) and cannot observe a missing sync or wait, which only matters on a crash or under particular completion timing.',
  files=AV, mech=[('committed flag tests', 'awonvm_vector::push_back, async_push_back, get, async_get, async_gets'), ('commit', 'awonvm_vector::commit'), ('reopening', 'awonvm_vector constructor, set_use_direct_access')],
  note='Decides the order wait < sync < flag, and the guard of every file access, on every path of every operation.'),
 dict(id='P06', title='Element i of an append-only vector is the i-th appended value',
  statement='An append claims the next position by one atomic step, writes the whole element at (position x element size) and returns that position; a synchronous one throws unless all bytes were written. A read of index i is refused unless i is below the size, otherwise reads exactly one element at (i x element size), and reports the element only when all its bytes were read; an asynchronous read calls its own callback exactly once, with null when the element was not fully read.',
  over=['inputs', 'schedules', 'fault_sequences'],
  forall='every index, element size, concurrent append and short or failed transfer',
  why='Tests use small vectors, healthy disks and few threads: the last index, an index one past the end, short transfers and racing appends are not reached.',
  files=AV, mech=[('atomic size claim', 'awonvm_vector::push_back, async_push_back'), ('bounds tests', 'awonvm_vector::get, async_get, async_gets'), ('completion handlers', 'lambdas of async_push_back, async_get, async_gets')],
  note='Decides offset, length, bounds and callback arguments symbolically for all values on every path.'),
 dict(id='P07', title='The vector frees each buffer once, never in flight, and closes its file once',
  statement='Every transfer buffer of the append-only vector is at least one element long and is released exactly once: by the completion handler (or whoever the handler hands it to) when its request was accepted, by the failing operation otherwise, and never while a request using it is pending. Moving a vector transfers its file, mode, size, state and scheduler and leaves a source that closes nothing; destruction closes the file at most once.',
  over=['histories', 'fault_sequences', 'schedules'],
  forall='every path of every operation, including refused and failed submissions',
  why='Leaks and double frees on refused submissions or moved-from vectors do not change any value a test compares, and no test makes a submission fail.',
  files=AV, mech=[('buffer allocation and release', 'awonvm_vector operations and their completion lambdas'), ('move constructor, destructor', 'awonvm_vector')],
  note='Ownership typestate per buffer on every path.'),
 dict(id='P08', title='Every accepted IO query completes exactly once, and schedulers stop cleanly',
  statement='An IO scheduler performs each accepted query once with exactly the caller\'s descriptor, buffer, length and offset and calls its callback exactly once with the caller\'s data and the operation\'s result; a refused query is never called back, and a batch reports how many were accepted, in order. Waiting for completions returns only after all accepted queries completed or failed, even when the kernel refuses or partially accepts a batch; a stopped scheduler refuses queries, and destruction stops it before its resources are released.',
  over=['schedules', 'fault_sequences', 'inputs'],
  forall='every query, batch, kernel outcome and interleaving of submission and completion threads',
  why='The kernel\'s partial acceptance, EAGAIN, error completions and the racy shutdown windows cannot be produced on demand by the tests.',
  files=IO, mech=[('resubmission loop', 'LinuxAIOScheduler::submit_iocbs'), ('completion loop', 'LinuxAIOScheduler::notify_loop'), ('running-query count', 'ThreadPoolAIOScheduler'), ('shutdown', 'wait_completions, destructors')],
  note='Loop-cut symbolic accounting of submitted/accepted/failed/completed requests; lock and wake-up order per path. Atomics are taken as sequentially consistent; kernel AIO honours its contract.'),
 dict(id='P09', title='Misaligned IO queries are refused before anything is queued',
  statement='On the kernel asynchronous scheduler a query whose buffer is not page-aligned, or whose length or offset is not a multiple of the sector size, is refused with the error code of a check that failed, for reads, batched reads and writes alike. In a batch all queries are checked before the first is queued; a query that passes all checks on a running scheduler is submitted.',
  over=['inputs'],
  forall='every buffer address, length and offset, and every position in a batch',
  why='The tests submit aligned queries; only a few misaligned combinations are tried, none in the middle of a batch.',
  files=IO, mech=[('argument checks', 'LinuxAIOScheduler::check_args, submit_pread, submit_preads, submit_pwrite')],
  note='Dominance of the three checks over every queuing site, for all values.'),
 dict(id='P10', title='Every task given to the thread pool runs once; stopping drains and joins',
  statement='A task accepted by the thread pool is run exactly once, with the caller\'s function and arguments and outside the pool\'s lock, and the returned future is that task\'s. After the pool is stopped no task is accepted (the caller gets an exception), the workers finish every queued task before ending, and stopping returns only after every worker has been joined.',
  over=['schedules', 'programs'],
  forall='every interleaving of submitters, workers and the stopping thread',
  why='Lost wake-ups and drained-queue races depend on the interleaving; the tests use the pool incidentally, with one schedule per run.',
  files=['lib/include/sse/schemes/utils/thread_pool.hpp'], mech=[('worker loop', 'ThreadPool::ThreadPool'), ('enqueue', 'ThreadPool::enqueue'), ('join and destructor', 'ThreadPool::join, ~ThreadPool')],
  note='Lock-set, wait-predicate and remove/run pairing over every path of the worker, submission and stop functions.'),
 dict(id='P11', title='File system helpers act on exactly the caller\'s path and report every failure',
  statement='Testing a path is true exactly when it can be examined, following links, and has the asked type; creating a directory or removing a file reports exactly whether the system call succeeded. Opening a file creates it when missing, never truncates it, opens it for reading and writing, bypasses the page cache exactly when asked, and throws on failure, as does asking for its size; an unknown device page size is reported as 0. Removing a directory removes every entry below it without ever following a link or leaving the device, reports success only when the walk came to its end, throws when any entry cannot be read or removed, and always closes its walk.',
  over=['inputs', 'fault_sequences'],
  forall='every path, directory tree (with links, special files, unreadable entries) and system-call failure',
  why='Tests create and remove small regular trees as root; links, unreadable entries, special files and failing system calls are not exercised.',
  files=['lib/utils/utils.cpp', 'lib/include/sse/schemes/utils/utils.hpp'],
  mech=[('stat-based tests', 'is_file, is_directory, exists'), ('physical tree walk', 'remove_directory'), ('open flags', 'open_fd'), ('page sizes', 'os_page_size, device_page_size')],
  note='Decides flags, paths, results and failure handling on every path; the directory walk is decided per entry kind with its loop cut.'),
 dict(id='P12', title='The allocation graph is built, then solved, then read, within its bounds',
  statement='An allocation graph has at least one vertex and lets edges and vertices be added only while it is being built, is solved at most once and only then, and has its flow transformed or read only in the phase for it; an operation outside its phase, or on a vertex the graph does not have, throws and changes nothing, and no other operation is refused. Only solving and transforming move the graph to its next phase, once they have finished.',
  over=['programs', 'inputs'],
  forall='every sequence of operations on a graph, and every vertex and capacity',
  why='The tests call the operations in the right order with vertices that exist; misuse orders and partial effects of a refused call are not tried.',
  files=['lib/tethys/tethys_graph.cpp', 'lib/include/sse/schemes/tethys/details/tethys_graph.hpp'],
  mech=[('phase field', 'TethysGraph::state'), ('bounds checks', 'TethysGraph::add_edge, add_edge_from_source, add_edge_to_sink')],
  note='Typestate of the phase field on every path of every operation; effects of refused calls; bounds dominate each insertion.'),
 dict(id='P13', title='Flow is neither made nor lost in the allocation graph',
  statement='A new edge has exactly the index, capacity and ends asked for, is listed once at each end, and carries nothing; sending flow along an edge moves exactly that amount between its two directions. Solving sends each path\'s flow exactly once along every edge of that path and goes on until no path is left, sequentially or with one joined job per connected component, components being numbered from 1 without gaps. Flows and capacities reported for an edge or a vertex are those of the edge or the sum over exactly the edges in question.',
  over=['inputs', 'schedules'],
  forall='every graph, capacity, path and order of the component jobs',
  why='Conservation is a relation between all edges after any sequence of augmentations; tests check the total flow of a few small graphs.',
  files=['lib/tethys/tethys_graph.cpp', 'lib/include/sse/schemes/tethys/details/tethys_graph.hpp'],
  mech=[('edge insertion', 'EdgeVec::push_back, add_edge*'), ('augmentation', 'EdgeVec::update_flow, compute_residual_maxflow, parallel_compute_residual_maxflow'), ('sums', 'get_vertex_*, get_flow'), ('components', 'compute_connected_components')],
  note='Value-numbered effects of every edge operation; loop-cut accounting of the augmentation, summation and component loops. Does not decide that no augmenting path is left (see N02).'),
 dict(id='P14', title='A path found in the allocation graph leads from source to sink within capacity',
  statement='The path search follows an edge in a direction only when flow is left in that direction, visits each vertex of the component at most once, examines every edge of every visited vertex, and gives up only when no visited vertex is left to examine. The path it returns lists, from the source to the sink, exactly the edges by which each vertex was first reached, and its flow is the least flow left on any of them; without a path it returns none, with flow zero.',
  over=['inputs', 'histories'],
  forall='every residual graph, in whatever order its edges were added',
  why='The right path depends on residual flows left by earlier augmentations; tests reach a few small residual graphs and only look at the total.',
  files=['lib/tethys/tethys_graph.cpp'],
  mech=[('search loop', 'TethysGraph::find_source_sink_path'), ('back walk', 'parent edges in find_source_sink_path')],
  note='Loop-cut path conditions of the search (why each edge is followed or passed over) and induction over the back walk. The search on other components\' source edges while their jobs run is not modelled.'),
 dict(id='P15', title='Every list element goes to one of its two buckets or the stash, within a page',
  statement='The allocator accepts a list only before allocation, with a length of at most a page, as one edge between the list\'s own two buckets; anything else is refused with no effect. Allocation runs at most once, links each bucket to the source or the sink for exactly what it has above or below a page, computes the flow once, and then fills every bucket from all its lists so that no bucket exceeds a page and a list is cut only by what does not fit, a list being marked as stashed exactly when it was cut. Its results cannot be read before, and the table has an even number of buckets.',
  over=['inputs', 'programs'],
  forall='every set of lists, bucket pair, length and page size',
  why='Overflowing buckets are rare with random keys and small tests; a lost or doubled element shows only for particular lists in full buckets.',
  files=['lib/tethys/tethys_allocator.cpp', 'lib/include/sse/schemes/tethys/details/tethys_allocator.hpp'],
  mech=[('admission', 'TethysAllocator::insert'), ('degree edges and overflow', 'TethysAllocator::allocate'), ('table size', 'tethys_graph_size')],
  note='Loop-cut accounting of every bucket\'s load against the flows of its edges. The flow is assumed within capacity, which P13 and P14 decide.'),
dict(id='P16', title='Every element of a Tethys list is encoded once and decoded from where it was put',
  statement='Whatever the share of a list its two buckets were allotted, its first elements are encoded in the bucket of its incoming edge, its last ones in that of its outgoing edge, and exactly the others in the stash, none of them twice. Decoding walks a bucket in the layout it was written with, returns all the elements of the requested list and of no other, stops at the end of what was written, and never reads past the end of the bucket whatever it contains. Stashed lists are read back as they were written, and a stash that ends in the middle of a list is an error.',
  over=['inputs'],
  forall='every list, share, element width and bucket content',
  why='A lost or doubled element shows only for particular splits of a list between buckets and stash; tests use one element type and lists that mostly fit.',
  files=['lib/include/sse/schemes/tethys/encoders/encode_separate.hpp', 'lib/include/sse/schemes/tethys/details/tethys_allocator.hpp'],
  mech=[('bucket encoding', 'EncodeSeparateEncoder::encode'), ('bucket decoding', 'EncodeSeparateDecoder::decode_single_bucket'), ('stash encoding', 'EncodeSeparateEncoder::serialize_key_value'), ('control values', 'TethysStoreBuilder::insert_list')],
  note='Layout of encoder and decoder extracted and compared, and element ranges proved equal by linear arithmetic, on instantiations with elements narrower and wider than a key. It is assumed, as P13-P15 decide, that a list is allotted no more entries in total than its length.'),
dict(id='P17', title='A Tethys store returns every element its builder was given for a key',
  statement='Each list given to the store builder is encoded in the two buckets its key designates and, for what does not fit, in the stash; every bucket of the table is written at its own position and the table is committed after the last one. A store opened on these files looks for a key in the same two buckets, with the positions they have in the table, and its answer is everything they hold for that key followed by everything the stash file holds for it. A store is built at most once, encoding past the end of a bucket or failing to write the stash is an error, and an uncommitted table is never opened.',
  over=['inputs'],
  forall='every set of lists, table size and key',
  why='Whether builder and reader agree on locations, sides and order shows only for particular table sizes and allotments; tests build a few random databases.',
  files=['lib/include/sse/schemes/tethys/tethys_store_builder.hpp', 'lib/include/sse/schemes/tethys/tethys_store.hpp', 'lib/include/sse/schemes/abstractio/kv_serializer.hpp'],
  mech=[('building', 'TethysStoreBuilder::build'), ('inserting', 'TethysStoreBuilder::insert_list'), ('querying', 'TethysStore::get_list'), ('stash file', 'KVSerializer::serialize, deserialize_map')],
  note='Location functions of builder and reader extracted and compared as terms; loop-cut typestate of building, over every path. What the encoder writes for one list is P16, what is allotted to it P13-P15, how a bucket reaches the disk P05-P09.'),
dict(id='P18', title='Asynchronous Tethys queries answer once, like synchronous ones',
  statement='An asynchronous query reads the same two buckets as a synchronous one, hands each over once with its own index, and answers exactly once, with everything both buckets and the stash hold for the key, whatever the order or concurrency in which the two reads complete. The answer is made only after both buckets were stored, the shared state is freed exactly once, and no completion touches it once another may have freed it. Concurrent queries, and the two completions of one query, share nothing else.',
  over=['schedules'],
  forall='every order and interleaving of the completions of the two reads',
  why='The two completions race on a few instructions: a wrong order shows as a rare crash or short answer that tests do not provoke.',
  files=['lib/include/sse/schemes/tethys/tethys_store.hpp'],
  mech=[('bucket requests', 'TethysStore::async_get_buckets'), ('completion', 'TethysStore::async_get_list_helper'), ('query state', 'TethysStore::async_get_list')],
  note='Effects of a completion ordered around its atomic increments, for both results of each of them, on every path; captures and state resolved through the closures. A failed read is a recorded finding.'),
 dict(id='P19', title='Encrypting Tethys buckets changes nothing but what is stored',
  statement='A Tethys bucket is encrypted as a whole, once all its lists are encoded, with the encryption key of the builder and a nonce that depends on the whole index of the bucket in the table and on nothing else, so that no two buckets of a table use the same key stream. Decrypting a bucket with the same key and the index it is stored at gives back exactly what was encoded, both buckets of a pair being decrypted with their own index before anything is decoded in them. Everything else (lists, sizes, the stash and its format) is that of the inner encoding.',
  over=['inputs'],
  forall='every bucket content, bucket index, key and inner encoder',
  why='A key stream used twice, or an index that is cut, is invisible to a round trip of a few buckets; tests cover one encoder and a handful of lists.',
  files=['lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp'],
  mech=[('encryption', 'EncryptEncoder::finish_block_encoding'), ('decryption', 'DecryptDecoder::decode_buckets'), ('inner encoding', 'EncryptEncoder::encode, serialize_key_value')],
  note='Byte-range dataflow of key, nonce, key stream and bucket over every path, on two inner encoders. That the stream cipher is a function of its key and nonce is assumed.'),
 dict(id='P20', title='A Tethys search finds all the blocks the builder cut a list in',
  statement='The builder cuts a list in blocks that have each element once, in order, none larger than what a bucket can hold; block k of a keyword is stored under a key derived from all of the keyword\'s token and of k, and the number of blocks is stored for the client, a failure of it being reported. A search requests exactly that many blocks under the same token, zero for an unknown keyword; the server answers with the bucket pair of each, in order, and the client returns everything they and the stash hold for each block\'s key. Building makes the stored counters durable, builder, client and server use the keys and files they were given, and a file whose loading failed is not reported as loaded.',
  over=['inputs', 'histories'],
  forall='every list length, number of blocks, keyword and file',
  why='Errors at block boundaries, or past 255 blocks, need particular list lengths; the Tethys client cannot be tested without its crypto library, and its tests sample a few lists.',
  files=['lib/include/sse/schemes/tethys/tethys_builder.hpp', 'lib/include/sse/schemes/tethys/tethys_client.hpp', 'lib/include/sse/schemes/tethys/tethys_server.hpp', 'lib/include/sse/schemes/tethys/details/tethys_utils.hpp'],
  mech=[('cutting in blocks', 'GenericTethysBuilder::insert_list'), ('block keys', 'details::derive_core_key'), ('request', 'TethysClient::search_request'), ('buckets', 'TethysServer::search'), ('decoding', 'TethysClient::decode_search_results')],
  note='Loop-cut accounting of elements and block numbers on both sides, with keys compared as terms. What a store returns for a key is P16-P19; the counter store is P01-P03; PRF and hash are taken to be functions of their input.'),
 dict(id='P21', title='A Sophos search returns every index inserted for the keyword',
  statement='The update number c of a keyword is stored by the server under a location derived from the keyword\'s key and its whole search token of order c, its index being masked; a failure to count the update, or to store it, is reported. A search carries the last token and the number of updates, zero for an unknown keyword; each way the server has of searching, sequential or with any number of threads, looks up each of the tokens of order zero to that number exactly once, and delivers, unmasked, what is stored there, exactly once. Every thread has finished, and every pool it feeds, before the search returns, and no two threads add to the results at once.',
  over=['inputs', 'schedules'],
  forall='every keyword, number of updates, number of threads and interleaving',
  why='How the tokens are shared out between threads depends on the number of processors; the schemes cannot be tested without their crypto library, and their tests use one machine and a few keywords.',
  files=['lib/sophos/sophos_client.cpp', 'lib/sophos/sophos_server.cpp', 'lib/sophos/sophos_common.cpp', 'lib/include/sse/schemes/utils/utils.hpp'],
  mech=[('updates', 'SophosClient::insertion_request'), ('requests', 'SophosClient::search_request'), ('locations and masks', 'gen_update_token_masks'), ('sequential searches', 'SophosServer::search, search_callback'), ('parallel searches', 'SophosServer::search_parallel, search_parallel_light and the callback variants')],
  note='Orders of search tokens inferred as linear invariants of every loop and thread body, and compared with the range to cover; thread arguments substituted in thread bodies. That evaluating the trapdoor permutation inverts what the client computed is assumed of the crypto library.'),
 dict(id='P22', title='A Diana search returns every index inserted for the keyword',
  statement='The update number c of a keyword, inserted alone or in bulk, is stored by the server under a location derived from the leaf c of a tree derived from the keyword, its index being masked; a failure to count or to store it is reported, and the number of matches the client announces is the number of updates. A search carries the leaves 0 to c and their number, none for an unknown keyword; each way the server has of searching, sequential or with one or more threads, visits each leaf once, delivers what is stored there, unmasked, once, and removes it if and only if that was asked. Threads have distinct numbers and disjoint leaves, and have finished before the search returns.',
  over=['inputs', 'schedules'],
  forall='every keyword, number of updates, number of threads and interleaving',
  why='The shares of the threads depend on the number of results and of threads; the scheme cannot be tested without its crypto library, and its tests use a few keywords and eight threads.',
  files=['lib/include/sse/schemes/diana/diana_client.hpp', 'lib/include/sse/schemes/diana/diana_server.hpp', 'lib/include/sse/schemes/diana/diana_common.hpp', 'lib/diana/diana_common.cpp'],
  mech=[('updates and requests', 'DianaClient::insertion_request, bulk_insertion_request, search_request, get_match_count'), ('locations and masks', 'gen_update_token_mask, xor_mask'), ('searches', 'DianaServer::search, search_parallel')],
  note='The shares of the threads are compared, as polynomials over quotient and rest, with those of an exact division, by induction on the loop that starts them; the leaf closures are analysed as called on any leaf. That a constrained key evaluates to the leaves of the whole one is assumed of the crypto library.'),
 dict(id='P23', title='Going through two containers in a row visits each element once, in order',
  statement='Starting from the first position of two containers put one after the other and stepping until the end position visits every element of the first container, then every element of the second, once each and in order, whichever of them are empty. Two positions are equal exactly when they are the same place of the same container, and a postfix step gives the position before it.',
  over=['inputs'],
  forall='every pair of containers, empty ones and twice the same one included',
  why='Not used by any test; the cases that fail are the empty ones.',
  files=['lib/include/sse/schemes/utils/concat_iterator.hpp'],
  mech=[('constant and mutable positions', 'concat_iterator, concat_const_iterator')],
  note='Representation invariant (a position in the first container is never its end) established by every constructor and kept by every step, over all paths; positions are symbolic terms (container, index).'),
 dict(id='P24', title='Logging never fails nor races, and benchmarks report what they measured',
  statement='The shared logger can be used, replaced, silenced and have its level changed at any time, any number of times and from any thread, without failing; after it is replaced the new one is used, after it is silenced nothing is written. A benchmark reports, once and to the file last chosen, the count it was given and the time from its creation to the first time it was stopped, or to its end.',
  over=['schedules', 'histories'],
  forall='every interleaving of threads that log and configure, and every sequence of configurations and stops',
  why='Searches log from the threads of several pools; tests configure logging once, from one thread, and look at no benchmark.',
  files=['lib/utils/logger.cpp', 'lib/include/sse/schemes/utils/logger.hpp'],
  mech=[('shared logger', 'logger(), set_logger, set_logging_level'), ('benchmarks', 'Benchmark, SearchBenchmark')],
  note='Lockset of every mention of the shared variable; every value returned shown non-null; names registered only where a query shows them free; dataflow from start and first stop to the report. The loggers themselves are those of spdlog, assumed safe. The benchmark file is chosen before benchmarks run, as the variable it sets is not locked.'),
 dict(id='P25', title='A Janus search returns every index inserted and not removed for the keyword',
  statement='Insertions, removals and searches of a keyword use its keys for the number of searches that found something so far, an index being encrypted, and its removal announced, under one tag derived from keyword and index; a search that finds something starts a new number durably before the old one is dropped, and carries the number of removals its key accounts for. A search delivers once each index inserted and not removed since, found by an earlier search or new, and none that was removed; it keeps exactly what it delivered, with its tag, for the next one, and reports that it could not. What is read back from what was kept is what was written.',
  over=['inputs', 'histories'],
  forall='every keyword, index and sequence of insertions, removals and searches, sequential or with threads',
  why='A result depends on all earlier operations on the keyword, through client counters, server entries and cached results; the scheme cannot be tested without its crypto library.',
  files=['lib/janus/janus_client.cpp', 'lib/janus/janus_server.cpp', 'lib/include/sse/schemes/janus/types.hpp', 'lib/utils/utils.cpp'],
  mech=[('requests', 'JanusClient::search_request, insertion_request, removal_request, meta_keyword'), ('searches', 'JanusServer::search, search_parallel'), ('kept results', 'serialization<JanusServer::cached_result_type>')],
  note='Values derived by the client are compared as terms; the loops and callbacks of the server are analysed as called on any entry. That the key punctured at the tags of the removals decrypts exactly the other ciphertexts is assumed of the crypto library, and P22 is used for the two update servers; an index inserted again after its removal, before any search, is out of scope, as is a crash of the server between the removal of the entries it found and the update of what it keeps.'),
 dict(id='P26', title='An Oceanus table answers with what was put in it under the key',
  statement='Every element put in an Oceanus table is, once the table is written, in a slot where a lookup of its key looks, with its own value beside its key; an element for which there is no place is reported as an error. A lookup, synchronous or asynchronous, answers the value put under the key, exactly once, and that there is none if no slot of the key holds it. No element is taken after the table was written, and the elements are removed only once the table is complete.',
  over=['inputs', 'schedules', 'histories'],
  forall='every sequence of distinct keys and values, every table size and search depth, and every order in which the two reads of a lookup complete',
  why='Where an element ends up depends on all elements put before; collisions and completion orders cannot be enumerated, and the table cannot be built here with its crypto library.',
  files=['lib/oceanus/cuckoo.cpp', 'lib/include/sse/schemes/oceanus/cuckoo.hpp', 'lib/include/sse/schemes/oceanus/oceanus.hpp', 'lib/include/sse/schemes/oceanus/details/cuckoo.hpp'],
  mech=[('placement', 'CuckooAllocator::insert'), ('writing', 'CuckooBuilder::insert, commit'), ('lookup', 'CuckooHashTable::get, async_get')],
  note='Invariant of the tables (slot s of table t holds only elements whose t-th half is s modulo the size) kept by every step of the insertion; the writer and both lookups are shown to use the same slots and layout. Keys are PRF outputs: the key whose bytes are those of an empty slot (all 255) is out of scope, as is a key put twice. P05 to P09 are used for the vectors. An element that found no place is a known finding.'),
 dict(id='P27', title='A Pluto search returns exactly the list that was inserted',
  statement='However many entries a keyword has, a search for it returns the entries inserted under it, each once, and nothing else: those of all full blocks, and those of the remainder. A block that cannot be read makes the search fail, instead of ending the list early. How many blocks the hash table holds depends on the announced number of entries only, not on how the entries are spread over keywords.',
  over=['inputs', 'histories', 'fault_sequences'],
  forall='every inverted index, every length of a list, both hash tables the scheme is provided with, and every failing read',
  why='The tests search short lists, never one that fills a block exactly or leaves padding behind, nor a table that fails; Pluto cannot be built here with its crypto library.',
  files=['lib/include/sse/schemes/pluto/pluto_builder.hpp', 'lib/include/sse/schemes/pluto/pluto_server.hpp', 'lib/include/sse/schemes/pluto/pluto_client.hpp', 'lib/include/sse/schemes/pluto/types.hpp', 'lib/include/sse/schemes/pluto/rocksdb_store.hpp', 'lib/pluto/rocksdb_store.cpp'],
  mech=[('blocks', 'PlutoBuilder::insert_list, build, load_inverted_index'), ('search', 'PlutoServer::search'), ('answer', 'PlutoClient::decode_search_results'), ('bytes', 'PlutoKeySerializer, PlutoValueSerializer, PlutoCuckooHasher, GenericRocksDBStore')],
  note='Builder, server and client are analysed for both sets of parameters with pages of 4096 bytes; the size of a block, the room of a stored array and what the server returns of it are compared. P19 and P20 (Tethys) and P26 (the cuckoo table) are used for what is underneath; fewer entries than announced are taken for granted.'),
 dict(id='P28', title='Sizes, positions and counts are never cut to fewer bits on their way',
  statement='Positions, offsets, lengths and counts keep their value on their way through the library: none is converted to, added to, counted in or handed over as an integer that may not hold it. A vector of more than 4 GiB, a table of more than 65536 pages, a list of more than 255 blocks and a request for more than 255 threads are dealt with like small ones.',
  over=['inputs', 'configurations'],
  forall='every number of elements, every file size, every index and every number of threads',
  why='A cut value shows only beyond 255, 65535 or 2^32 of something, sizes that no test reaches.',
  files=['lib/include/sse/schemes', 'lib/abstractio', 'lib/tethys', 'lib/utils', 'lib/sophos', 'lib/diana', 'lib/janus', 'lib/oceanus', 'lib/pluto'],
  mech=[('conversions', 'every integral conversion of the library and of the instances of its templates'), ('callbacks', 'every lambda made a std::function'), ('counters', 'every increment')],
  note='Typed syntax trees of all functions: bounds of each converted expression, and the branches taken to it. Two kinds of conversions are taken for granted: the int a batch submission returns, and the 32 bit number of blocks of a list that is in memory. Counters of 32 bits are only followed when their value is used at once as a wider one.'),
]

NA = [
 dict(id='N01', title='Search results reveal nothing beyond the schemes\' leakage functions',
  statement='What the server observes from updates and searches is simulatable from the documented leakage (forward privacy of Sophos and Diana, backward privacy of Janus).',
  over=['inputs', 'histories'], forall='every history of updates and searches',
  why='A cryptographic indistinguishability statement: no finite set of runs can settle it.',
  files=['src', 'lib/include/sse/schemes'], mech=[('trapdoor permutation, constrained PRF, puncturable encryption', 'src/sophos, src/diana, src/janus')],
  reason='A computational indistinguishability claim over distributions; no dataflow or typestate argument over the source decides it.'),
 dict(id='N02', title='The Tethys allocator places the maximum number of elements outside the stash',
  statement='For every allocation graph, the number of elements left to the stash is the minimum any assignment could achieve.',
  over=['inputs'], forall='every graph of buckets and lists',
  why='Optimality is relative to all assignments; tests check a few graphs.',
  files=['lib/tethys/tethys_graph.cpp'], mech=[('max flow by augmenting paths', 'TethysGraph::compute_residual_maxflow')],
  reason='Optimality of the computed flow is an inductive graph-theoretic fact about runtime values; static rules decide structure and conservation of the flow (other properties), not maximality.'),
 dict(id='N03', title='Hash-table construction succeeds with overwhelming probability',
  statement='Building a cuckoo table or a Tethys table with the documented load parameters fails only with negligible probability.',
  over=['inputs'], forall='every set of keys of the admitted size',
  why='A probability bound over random keys.',
  files=['lib/include/sse/schemes/oceanus', 'lib/include/sse/schemes/tethys'], mech=[('search depth and stash bounds', 'CuckooAllocator::insert, TethysStoreBuilder::build')],
  reason='Quantifies over the distribution of hash outputs; not decidable from program structure.'),
 dict(id='N04', title='Committed data survives a power failure',
  statement='After a commit or a blocking flush returns, the stored data is intact after any crash of the machine.',
  over=['crash_points'], forall='every crash point',
  why='Tests do not crash the machine.',
  files=AV + ROCKS, mech=[('fsync', 'awonvm_vector::commit'), ('write-ahead log', 'RocksDB')],
  reason='Depends on the kernel, file system, device and RocksDB internals, whose source is not here; the part in this code base (sync issued before the commit flag, log never disabled, flush waits) is decided by P01 and P05.'),
]

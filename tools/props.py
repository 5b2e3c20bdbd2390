#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

R = "include/recovery/"
prop("C01", "Acknowledged writes survive a process crash at any point",
 "After the process dies at any instant, reopening a persistent collection yields exactly the effects of every insert, upsert and delete that had returned, in order, plus at most the single operation in flight, which is then present completely or not at all (a batch counts as its single-record operations in order). This holds again for any number of further write/crash/reopen rounds, including a crash during recovery itself, and whether or not snapshots were taken in between.",
 ["crash_points", "histories"], "every history of writes, saves and reopenings, and every system call boundary (and every split of a file write) at which the process can die",
 "The suite replays a few hand-made logs and cuts; it never kills the full stack between two system calls, nor writes again after a torn recovery and crashes again.",
 [R+"write_ahead_log.hpp", R+"recovery_manager.hpp", R+"snapshot_manifest.hpp", "python/include/index.hpp", "include/storage/rocksdb_storage.hpp"],
 [("prepare/commit frames around each mutation", R+"write_ahead_log.hpp"), ("replay of committed operations past the snapshot", R+"recovery_manager.hpp"), ("snapshot publication by atomic pointer switch", R+"recovery_manager.hpp")],
 [("log file", "prepare and commit records", R+"write_ahead_log.hpp"), ("current snapshot", "pointer to the live snapshot", R+"recovery_manager.hpp")],
 ["collection contents after reopening: ids, documents, metadata, vectors through search"])
prop("C02", "Writes and snapshots are ordered against power loss",
 "When an insert, upsert or delete on a persistent collection returns, the log bytes that recovery needs to reproduce it are on stable storage; and a snapshot only supersedes the log or an older snapshot after every file of the new snapshot, and the pointer naming it, are on stable storage. Hence no loss of unsynchronised file data, nor of the latest directory changes in journal order, can lose an acknowledged write.",
 ["crash_points", "histories"], "every history of writes and saves, every power-failure point, every choice of unsynchronised file data kept, half kept or lost per file, and of the directory journal's prefix",
 "No test loses unsynchronised data; ordinary file systems in CI never show the reorderings.",
 [R+"write_ahead_log.hpp", R+"recovery_manager.hpp", "include/utils/platform_fs.hpp", "python/include/index.hpp"],
 [("commit record written then synchronised before returning", R+"write_ahead_log.hpp"), ("publish order: snapshot, manifest, pointer, log truncation", R+"recovery_manager.hpp")],
 [], ["system calls on the recovery directory"])
prop("C03", "Log replay returns exactly the committed operations",
 "For any sequence of prepared and committed operations and any cut of the log file at any byte (with nothing, zeros or stale bytes behind the cut, as a torn write leaves it), replay delivers, in operation order and exactly once each, precisely those committed operations newer than the requested point whose records lie whole before the cut, with their payloads unchanged. Records appended after such a damaged log is reopened are delivered by later replays too.",
 ["inputs", "histories", "crash_points"], "all operation sequences, payloads, cut points, bytes behind the cut and reopen cycles",
 "Tests exercise a handful of fixed cuts and never append after reopening a damaged log.",
 [R+"write_ahead_log.hpp"],
 [("record framing with header and trailer marks", R+"write_ahead_log.hpp"), ("pairing of prepare with commit", R+"write_ahead_log.hpp")])
prop("C04", "A collection behaves as a map from item id to document",
 "For every sequence of inserts, upserts, deletes by id or by filter, lookups, filter queries, reindexing, and save and load, a collection answers as a map from item id to the document, metadata and vector last written for it: one live record per id, deleted ids gone from every query, duplicates of a live id rejected without disturbing anything, re-inserting a deleted id allowed.",
 ["histories", "inputs"], "all histories of collection operations, including ones that fail, over repeated and fresh ids",
 "Python tests need the native extension and follow short scripted sequences; interactions of upsert, delete, reindex and reload are not enumerated.",
 ["python/src/alayalite/collection.py", "python/src/alayalite/index.py", "python/include/index.hpp", "include/space/raw_space.hpp", "include/space/sq8_space.hpp", "include/storage/rocksdb_storage.hpp"],
 [("upsert as remove plus insert under one logged operation", "python/include/index.hpp"), ("item id to internal id index", "include/storage/rocksdb_storage.hpp")])
prop("C05", "Filter queries return exactly the matching records",
 "A metadata filter query returns exactly the live records whose metadata satisfy the filter (up to the limit, each once), for every combination of comparison, membership, negation and boolean operators and every value type, whether or not any of the fields has a secondary index (for finite numbers).",
 ["inputs", "histories"], "all filters, all metadata values including extreme numbers and strings containing separator characters, all sets of indexed fields, all update histories",
 "Tests use a few friendly values; prefix collisions, signed zero and type mixtures in the index keys are not reached.",
 ["include/storage/rocksdb_storage.hpp", "include/utils/metadata_filter.hpp", "include/utils/metadata_filter_matcher.hpp", "include/utils/index_encoding.hpp"],
 [("indexed fast path for single-condition filters", "include/utils/metadata_filter.hpp"), ("order-preserving key encoding", "include/utils/index_encoding.hpp")])
prop("C06", "Vector search returns live, distinct, correctly ranked items",
 "Every vector search, single or batched, at any point of an update history returns distinct live items ordered by non-decreasing true distance to the query, with the reported distances equal to the distances of the returned items; a deleted item never appears and an item inserted or updated is ranked by its newest vector. When the collection has no more slots than the graph's degree limit and the beam covers it, the result is the exact nearest set.",
 ["histories", "inputs", "configurations"], "all insert/update/delete histories, queries, k and beam widths, storage kinds",
 "Recall tests tolerate misses and never check results against deletions interleaved with slot reuse.",
 ["include/executor/jobs/graph_search_job.hpp", "include/executor/jobs/graph_update_job.hpp", "include/executor/jobs/job_context.hpp", "include/index/graph/overlay_graph.hpp", "include/index/graph/graph.hpp", "include/index/graph/hnsw/hnsw_builder.hpp", "include/space/raw_space.hpp"],
 [("removed-vertex tracking consulted by search", "include/executor/jobs/job_context.hpp"), ("bounded candidate list search", "include/executor/jobs/graph_search_job.hpp")])
prop("C07", "Hybrid search returns only matching live items, nearest first",
 "A vector search with a metadata filter returns only live items that satisfy the filter, without duplicates and nearest first, and, when the collection has no more slots than the graph's degree limit and the beam covers it, returns the k nearest matches, whichever execution strategy (prefilter, iterative, brute force, partitioned view) is requested or chosen, and batched or not.",
 ["inputs", "histories", "configurations"], "all filters, strategies, queries, k, and update histories that keep auxiliary per-value views up to date",
 "Tests compare a few filters on static data; strategies are not compared with each other after updates.",
 ["include/executor/jobs/graph_hybrid_search_job.hpp", "include/executor/vector_iterator.hpp", "python/include/materialized_view.hpp", "include/utils/metadata_filter_matcher.hpp", "python/include/index.hpp"],
 [("strategy dispatch", "python/include/index.hpp"), ("per-value partition views", "python/include/materialized_view.hpp")])
prop("C08", "The scalar store keeps records, indexes and counts consistent",
 "After any history of inserts, updates, removals, batch writes, failures and reopenings, looking up a record by internal id, by item id, by any secondary-index condition or by scanning agrees with one and the same set of records, the count equals its size, an item id names at most one record, and no entry of a removed or overwritten record remains visible (the set of indexed fields being fixed over the store's life).",
 ["histories", "crash_points"], "all histories of store operations, reopenings and process kills",
 "Unit tests check each call alone on fresh stores.",
 ["include/storage/rocksdb_storage.hpp", "include/utils/scalar_data.hpp", "include/utils/index_encoding.hpp"],
 [("one write batch per mutation", "include/storage/rocksdb_storage.hpp")])
prop("C09", "The client registry matches what was created and saved",
 "For every sequence of create, get-or-create, delete, reset, save and reopen, the client lists exactly the collections and indices that exist under unique names, refuses a name already taken by either kind, and after reopening the same location shows exactly what was persisted and not deleted on disk, with the same contents and parameters.",
 ["histories"], "all histories of registry operations and restarts",
 "Python client tests need the native extension and cover single steps.",
 ["python/src/alayalite/client.py", "python/src/alayalite/schema.py", "python/src/alayalite/collection.py", "python/src/alayalite/index.py"],
 [("schema file written atomically", "python/src/alayalite/schema.py")])
prop("C10", "Vector stores keep every slot's vector and exact counts",
 "In every vector store (raw, 8-bit and 4-bit quantised), for every history of fit, insert, update, remove, save and load, each live internal id returns the vector last stored under it, ids are never handed out twice, counts of total and live vectors are exact, and an insertion refused for lack of capacity or a duplicate id leaves the store unchanged.",
 ["histories", "inputs"], "all histories of store operations up to and past capacity, with and without attached scalar data",
 "Unit tests fill stores once and do not continue after a refused operation.",
 ["include/space/raw_space.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp", "include/storage/sequential_storage.hpp"],
 [("bitmap of used slots with append position", "include/storage/sequential_storage.hpp")])
D = "include/index/disk/"
prop("C11", "A disk collection answers as the exact union of its segments",
 "For every history of adds, flushes, rejected calls, closes and reopenings, a disk collection search returns the global k nearest among all flushed vectors with ties broken by label, and nothing that is still pending (graph segments: exactly when the beam and degree limit cover the segment, otherwise true distances of distinct members); labels are unique across the collection, the size counts exactly the flushed vectors, and batch search equals one search per query.",
 ["histories", "inputs", "configurations"], "all histories, segment layouts, queries with ties, k larger than the data, both segment kinds",
 "Tests use a couple of segments and random vectors where ties never occur.",
 [D+"disk_collection.hpp", D+"disk_flat_searcher.hpp", D+"disk_flat_builder.hpp", D+"vamana_segment_searcher.hpp", D+"segment_factory.hpp"],
 [("merge of per-segment top-k", D+"disk_collection.hpp"), ("duplicate label check at flush", D+"disk_collection.hpp")])
prop("C12", "A disk collection flush is atomic and durable",
 "After the process dies or power fails at any instant, the collection reopens with exactly the vectors of every flush that had returned, and the flush in flight entirely present or entirely absent; leftovers of interrupted flushes never surface, never block later flushes, and the collection stays writable. An interrupted creation may leave a directory that must be removed first, never one that opens with wrong content.",
 ["crash_points", "histories"], "every history of creates, adds, flushes and reopenings, every crash point, every loss of unsynchronised data",
 "Tests plant a few leftover files by hand; no test stops a flush between two system calls.",
 [D+"disk_collection.hpp", D+"disk_flat_builder.hpp", D+"vamana_segment_builder.hpp", D+"segment_manifest.hpp", "include/utils/platform_fs.hpp"],
 [("build in a temporary directory, rename, publish manifest by rename", D+"disk_collection.hpp")])
prop("C13", "A failed disk collection call leaves the collection unchanged",
 "If any call on a disk collection fails (bad arguments, duplicate labels, size limits, or any file operation reporting an error), the visible vectors and pending rows are as before the call, both in the handle and on reopening, and repeating the call after the cause is gone succeeds (after a failed creation, possibly only once its leftover directory is removed).",
 ["fault_sequences", "histories"], "every history and every single failing system call during it",
 "Only argument errors are tested; input/output errors are never injected.",
 [D+"disk_collection.hpp", D+"disk_flat_builder.hpp", D+"vamana_segment_builder.hpp", D+"segment_manifest.hpp", "include/utils/platform_fs.hpp"],
 [("strong exception guarantee of add and flush", D+"disk_collection.hpp")])
prop("C14", "A disk collection has at most one open handle",
 "At any time at most one handle, in this or any other process, has a given disk collection open; every further attempt to open or create it fails without disturbing an open handle, and once the holder closes or dies the next attempt succeeds.",
 ["schedules", "crash_points", "histories"], "all interleavings of opening, creating, closing and dying by several threads and processes",
 "Tests open twice in sequence in one process.",
 [D+"disk_collection.hpp"], [("lock file held with an advisory exclusive lock", D+"disk_collection.hpp")])
prop("C15", "Manifests round-trip and malformed ones are rejected",
 "Every valid segment manifest, collection manifest or snapshot manifest reads back exactly as written, and any text that is not a well-formed segment or collection manifest (missing, repeated, unknown or ill-typed entries, out-of-range numbers, file names that leave the directory, a cut that leaves no well-formed manifest) is rejected with an error instead of being half-accepted; a snapshot manifest lacking a needed entry or with an ill-typed one is rejected too.",
 ["inputs"], "all field values and all single edits and truncations of a manifest text",
 "Tests list a few dozen hand-picked malformed texts.",
 [D+"segment_manifest.hpp", D+"disk_collection.hpp", R+"snapshot_manifest.hpp"],
 [("strict key-value parser", D+"segment_manifest.hpp")])
G = "include/index/graph/diskann/"
prop("C16", "The updatable disk index maps labels to their newest vectors",
 "For every history of builds, single and batch inserts, deletions and searches, with slots reused, a search returns distinct live labels ordered by true distance of the vector currently stored under each label, deleted labels never appear, a duplicate live label is refused, deleting an unknown label is reported, and the live count is exact. When the beam covers the index, a search finds every live label whose node can be reached from the entry point through live nodes in the stored neighbour lists, and an inserted vector can be reached in this sense as soon as its insertion returns. A failing device makes an operation report an error; it never yields wrong results or a wrong count.",
 ["histories", "inputs", "configurations"], "all update histories including emptying and refilling, batch sizes, cache sizes, worker counts",
 "These tests need a library missing here and check recall on random data with few deletions.",
 [G+"diskann_index.hpp", G+"slot_allocator.hpp", G+"tombstone_bitmap.hpp", G+"beam_search.hpp", G+"beam_search_async.hpp", G+"disk_page_io.hpp"],
 [("slots stay hidden until publication", G+"diskann_index.hpp"), ("removal tombstones then frees the slot", G+"diskann_index.hpp")])
prop("C17", "The updatable disk index reopens as it was flushed",
 "After a flush followed by a close, reopening the updatable disk index gives the same live labels, the same vectors, the same answers and the same free space as before, for every update history and cache configuration, and further updates continue correctly from there.",
 ["histories", "configurations"], "all update histories, flush points and cache configurations",
 "Needs the missing library; existing scenarios reopen once after one batch.",
 [G+"diskann_index.hpp", G+"disk_page_io.hpp", G+"slot_allocator.hpp", G+"tombstone_bitmap.hpp", G+"node_cache.hpp"],
 [("flush of dirty pages and side tables", G+"diskann_index.hpp")])
prop("C18", "Searches concurrent with updates see only consistent records",
 "A search that runs concurrently with insertions and deletions on the updatable disk index returns only labels that were live at some moment during the search, each with the distance of a vector that was stored under that label, and updates that returned before the search began are respected (a live label may be missed only when neighbour lists are full or the entry point was removed meanwhile); nothing crashes or hangs.",
 ["schedules", "histories"], "all interleavings of searches with inserts, deletes and slot reuse",
 "Sequential tests cannot show interleavings, and the concurrent ones check only for crashes.",
 [G+"diskann_index.hpp", G+"disk_page_io.hpp", G+"beam_search.hpp", G+"tombstone_bitmap.hpp"],
 [("reader/writer locking of label tables", G+"diskann_index.hpp"), ("page versions", G+"disk_page_io.hpp")])
prop("C19", "Slots are allocated exclusively and reused only after release",
 "At every moment no slot of the updatable disk index is handed to two owners, a slot is reused only after it was released, every released slot can be reused before the file grows, the deletion marks and their count agree with the history, and saving and loading these tables gives back the same state, with cut-off or foreign files refused; the marks also under concurrent use, the allocator under its owner's lock.",
 ["histories", "schedules"], "all allocate/release/mark/save/load histories and thread interleavings",
 "Unit tests run short fixed sequences from one or two threads.",
 [G+"slot_allocator.hpp", G+"tombstone_bitmap.hpp", G+"visited_bitset.hpp"],
 [("free list under a lock", G+"slot_allocator.hpp"), ("chunked atomic bitmap", G+"tombstone_bitmap.hpp")])
prop("C20", "Cached disk pages always return the newest bytes",
 "Reading a node, its neighbours or its vector through the page layer returns what was last written to it, for every order of reads, writes, prefetches, batch reads, evictions, flushes and reopening, every cache capacity including none, and readers concurrent with one writer per node; a flush makes the file itself equal to the newest contents.",
 ["histories", "schedules", "configurations"], "all access histories, cache capacities and shard counts, and reader/writer interleavings",
 "Page-layer tests need the missing library; cache tests check single evictions.",
 [G+"disk_page_io.hpp", G+"disk_page_cache.hpp", G+"node_cache.hpp", G+"disk_layout.hpp"],
 [("dirty write-back on eviction", G+"disk_page_cache.hpp"), ("page version check", G+"disk_page_io.hpp")])
prop("C21", "Every submitted task runs exactly once and waiting ends",
 "Every task handed to the task queue, scheduler, thread pool or coroutine gate runs exactly once, its result or exception reaches the submitter, waiting returns once all tasks are done and not before, pooled objects are never held by two users at once, waiters are served in order, and shutdown runs what was accepted; locks give mutual exclusion.",
 ["schedules"], "all interleavings of submitters, workers, waiters and shutdown",
 "Concurrency tests observe the few schedules the machine happens to produce.",
 ["include/executor/scheduler.hpp", "include/executor/worker.hpp", "include/executor/task_queue.hpp", "include/utils/thread_pool.hpp", "include/utils/coro_gate.hpp", "include/utils/locks.hpp", "include/index/graph/laser/utils/concurrent_queue.hpp"],
 [("counted completion", "include/executor/worker.hpp"), ("direct hand-off to the oldest waiter", "include/utils/coro_gate.hpp")])
prop("C22", "Candidate lists and visited sets keep exactly what search needs",
 "For every sequence of insertions, a bounded candidate list holds the best distinct-in-order entries seen up to its capacity in sorted order and yields each unexpanded one once, nearest first; visited and bit sets report membership exactly, including after resets, reuse and growth.",
 ["histories", "inputs"], "all insertion sequences with ties and duplicates, capacities, and reset counts including wrap-around of the epoch",
 "Tests use short random sequences and never wrap the epoch or fill exactly to capacity with ties.",
 ["include/utils/query_utils.hpp", "include/index/neighbor.hpp", G+"visited_bitset.hpp", "include/utils/rabitq_utils/search_utils/buffer.hpp", "include/index/graph/laser/utils/buffer.hpp"],
 [("sorted insertion with cursor", "include/utils/query_utils.hpp"), ("epoch-stamped marks", "include/utils/query_utils.hpp")])
V = "include/index/graph/vamana/"
prop("C23", "Built graphs are well formed and partitioned builds lose nothing",
 "Every graph produced by the on-disk graph builder, directly or by partition and merge, has one adjacency list per input vector, with valid, distinct neighbours other than the node itself, no more than the degree limit, and a valid entry point; partitioning puts every vector in exactly the requested number of shards, merging keeps every vector, and writing then reading a graph gives the same graph.",
 ["inputs", "configurations"], "all data sizes including tiny and duplicate-heavy ones, degree limits, shard counts, memory budgets and thread counts",
 "Tests build a few fixed sizes.",
 [V+"vamana_builder.hpp", V+"robust_prune.hpp", V+"shard_assigner.hpp", V+"shard_merger.hpp", V+"vamana_writer.hpp", V+"vamana_reader.hpp", V+"build_dispatch.hpp"],
 [("degree-bounded pruning", V+"robust_prune.hpp"), ("heap merge of shard lists", V+"shard_merger.hpp")])
prop("C24", "Distance kernels compute the defined distance at every dimension",
 "For every dimension, alignment and supported instruction set, squared Euclidean distance and inner product equal the mathematical definition (exactly, for small integer components), symmetric where defined, and never read outside the vectors; the quantised kernels agree with decoding both sides and computing plainly.",
 ["inputs", "configurations"], "all dimensions around the vector widths, all kernel variants present on the machine, integer-valued vectors",
 "Tests sample several dimensions with tolerances that hide a missed tail element.",
 ["include/simd/distance_l2.hpp", "include/simd/distance_ip.hpp", "include/simd/cpu_features.hpp"],
 [("runtime dispatch with scalar tails", "include/simd/distance_l2.hpp")])
prop("C25", "Encoded index keys sort and compare like their values",
 "Encoding any two integers, or any two finite floating-point numbers, for the secondary index yields byte strings that compare in the same order as the numbers, equal exactly when the numbers are equal, and the stored form of any record or metadata value decodes back to the same value; damaged stored forms are rejected rather than misread.",
 ["inputs"], "all integers, doubles, strings, booleans and records; all truncations",
 "Tests encode a dozen values.",
 ["include/utils/index_encoding.hpp", "include/utils/scalar_data.hpp", "include/utils/binary_io.hpp"],
 [("sign-flipped fixed-width encoding", "include/utils/index_encoding.hpp")])
prop("C26", "File replacement is all-or-nothing and removal stays contained",
 "Replacing a file through the library's atomic-write helper leaves, at every crash point, either the complete old or the complete new content under its name; renames that must not overwrite fail if the target exists, and reading back through mapped or asynchronous input returns the exact bytes at any offset and length.",
 ["crash_points", "inputs"], "all contents, sizes, offsets and crash points",
 "Tests check the successful path.",
 ["include/utils/platform_fs.hpp", "include/utils/io_utils.hpp", "include/storage/mmap_file.hpp", "include/storage/io/io_engine.hpp", "include/storage/io/io_uring_engine.hpp"],
 [("write temporary, synchronise, rename, synchronise directory", "include/utils/platform_fs.hpp")])
prop("C27", "Saved in-memory indexes load back unchanged",
 "Saving and loading an in-memory graph, its overlay layers and its vector stores reproduces the same neighbours, entry point, ids, vectors, deletion state and answers, and whether the file is loaded into a fresh object or one in use makes no difference; until the first removal, later insertions also lead to the same answers as they would have without the round trip.",
 ["histories", "inputs"], "all build and update histories followed by save and load",
 "Tests round-trip a freshly built graph only.",
 ["include/index/graph/graph.hpp", "include/index/graph/overlay_graph.hpp", "include/storage/static_storage.hpp", "include/space/raw_space.hpp", "include/space/sq8_space.hpp", "python/include/index.hpp"],
 [("field-by-field binary save", "include/index/graph/graph.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

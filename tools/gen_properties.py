#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one place so that it stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A committed layer holds exactly the graph its history defines",
  "For any tree of commits (each adding and removing any triples on any earlier layer or on nothing), the set of triples read from each committed layer is exactly the set obtained by applying the same additions and removals to the parent's set, and the layer's triple count and per-triple existence test agree with that set. Re-adding present triples and removing absent ones changes nothing, and every triple is listed once.",
  ["inputs", "histories"], "every sequence of commits with arbitrary add/remove batches, branching, over base and child layers, any mixture of node and typed-value objects",
  "Existing tests commit one or two fixed layers with a handful of triples; bugs in delta merging, sparse subject/predicate gaps, dictionary offsets or duplicate handling need particular shapes of additions and removals over several generations.",
  ["src/layer/simple_builder.rs", "src/layer/builder.rs", "src/layer/internal/base.rs", "src/layer/internal/child.rs", "src/layer/internal/subject_iterator.rs", "src/layer/internal/mod.rs"],
  [("builder dedup/no-op cancellation", "src/layer/simple_builder.rs commit"), ("child layer pos/neg adjacency lists", "src/layer/internal/child.rs"), ("stacked triple iterators", "src/layer/internal/subject_iterator.rs")],
  [("additions/removals", "per-layer positive and negative triples", "src/layer/internal/child.rs")],
  ["Layer::triples", "Layer::triple_exists", "Layer::triple_count", "Layer::value_triple_exists"])

p("C02", "Every pattern query returns exactly the matching triples",
  "For every committed layer and every subject, predicate and object id, present in the layer or not, the lookups by subject, subject+predicate, predicate, object, single triple and existence return exactly the triples of that layer that match the pattern, each once, and nothing else. This does not depend on how many ancestors the layer has, which of them touched the matching triples, or whether the layer has been rolled up.",
  ["inputs", "histories"], "every layer reachable by a commit/rollup history and every pattern, including patterns whose subject, predicate or object occurs only in some generations or not at all",
  "Tests query a few fixed layers for triples known to be present. Iterators merge per-generation indexes with sparse lookups; only certain combinations of gaps, removed last/first entries, and absent ids go wrong.",
  ["src/layer/internal/mod.rs", "src/layer/internal/subject_iterator.rs", "src/layer/internal/predicate_iterator.rs", "src/layer/internal/object_iterator.rs", "src/layer/internal/child.rs", "src/layer/internal/base.rs"],
  [("per-generation indexes: s_p, sp_o, o_ps adjacency lists and predicate wavelet tree", "src/layer/builder.rs"), ("merge of per-layer iterators with removal filtering", "src/layer/internal/*_iterator.rs")],
  [], ["Layer::triples_s", "Layer::triples_sp", "Layer::triples_p", "Layer::triples_o", "Layer::single_triple_sp", "Layer::triple_exists"])

p("C03", "Dictionary ids are a stable bijection with node names and typed values",
  "Within a layer every node, predicate and typed value in use has exactly one id and resolves back to exactly the same name or (type, value), distinct terms never share an id, and a node and a value with the same text stay distinct. Ids never change in descendants or after rollups, unknown terms and ids beyond the dictionary resolve to nothing, and the dictionary counts are the totals of the terms introduced along the history.",
  ["inputs", "histories"], "all strings (any length, unicode, shared prefixes) and all supported typed values, over any chain of commits and rollups",
  "Tests use a dozen short ascii strings in one or two layers. Off-by-one id offsets between generations, permuted rollup id maps, dictionary block boundaries and look-alike terms need many terms across several layers.",
  ["src/layer/internal/mod.rs", "src/layer/internal/base.rs", "src/layer/internal/child.rs", "src/layer/id_map.rs", "src/layer/builder.rs", "src/storage/delta.rs"],
  [("front-coded dictionaries with per-layer id offsets", "src/layer/internal/mod.rs"), ("id map (wavelet tree permutation) of rolled-up layers", "src/layer/id_map.rs")],
  [], ["Layer::subject_id", "Layer::predicate_id", "Layer::object_node_id", "Layer::object_value_id", "Layer::id_subject", "Layer::id_predicate", "Layer::id_object", "Layer::all_counts"])

p("C04", "Committed layers never change",
  "Once a layer is committed, everything observable about it - its name, parent, triples, ids, query results and change sets - stays the same forever, through already open handles and through fresh lookups by id. No later commit on it or on a sibling, abandoned builder, squash, rollup, merge, import, head move, label deletion or cache eviction alters it.",
  ["histories"], "every history of store operations following a commit, and every previously committed layer observed after it",
  "Tests look at a layer right after creating it. Interference would need a later operation writing to shared files, cache entries, or id ranges of an older layer.",
  ["src/storage/layer.rs", "src/storage/cache.rs", "src/storage/delta.rs", "src/store/mod.rs", "src/layer/internal/rollup.rs"],
  [("write-once layer directories with fresh random names", "src/storage/layer.rs create_directory"), ("Arc-shared immutable layer objects and layer cache", "src/storage/cache.rs")],
  [], ["Store::get_layer_from_id", "StoreLayer", "NamedGraph::head"])

p("C05", "Change queries report exactly the net difference to the parent",
  "For every layer, the triples reported as added are exactly those present in it and absent from its parent, and those reported as removed are exactly those present in the parent and absent from it; for a base layer everything is an addition. Restricting these queries by subject, subject+predicate, predicate, object or single triple filters exactly, the added/removed counts equal the sizes of these sets, and the answers are the same whether or not the layer is cached or has been rolled up.",
  ["inputs", "histories"], "every layer of every history and every restriction pattern, with the layer in memory or only on storage, rolled up or not",
  "Tests check additions and removals for one or two small layers. There are separate code paths for cached layers, stored layers and rolled-up layers for each of twelve queries, and most combinations are untested.",
  ["src/storage/layer.rs", "src/storage/cache.rs", "src/layer/internal/mod.rs", "src/store/mod.rs"],
  [("net-delta invariant enforced at commit", "src/layer/simple_builder.rs"), ("file-based change iterators", "src/storage/layer.rs"), ("rollup keeps a pointer to the original layer", "src/layer/internal/rollup.rs")],
  [], ["StoreLayer::triple_additions*", "StoreLayer::triple_removals*", "StoreLayer::triple_layer_addition_count", "StoreLayer::triple_addition_exists"])

p("C06", "Rollups change performance, never answers",
  "Rolling up a layer, completely or up to any of its ancestors, precisely or imprecisely, any number of times and in any order, succeeds and leaves every answer about every layer of the store unchanged: contents, ids, queries, change sets, counts, name, parent, and behaviour as a parent of new commits. This holds for handles opened before and after the rollup and after the store is reopened.",
  ["inputs", "histories"], "every commit history, every (layer, ancestor) rollup target, every order and repetition of rollups mixed with later commits, squashes and reopening",
  "Tests roll up one small chain once. Wrong id maps, wrong bounds when an ancestor is itself rolled up, and repeated or partial rollups appear only in particular sequences.",
  ["src/storage/delta.rs", "src/storage/layer.rs", "src/layer/internal/rollup.rs", "src/layer/id_map.rs", "src/store/mod.rs"],
  [("dictionary and triple rollup with id maps", "src/storage/delta.rs"), ("rollup registration and substitution on load", "src/storage/layer.rs")],
  [], ["StoreLayer::rollup", "StoreLayer::rollup_upto", "StoreLayer::imprecise_rollup_upto"])

p("C07", "Squashing preserves contents",
  "Squashing a layer yields a base layer with exactly the same triples by value, and squashing up to an ancestor yields a child of that ancestor with exactly the same triples; the new layer's dictionary holds no terms that are neither used by its triples nor known to the ancestor. The squashed layers, their ancestors and any rollups of them are unaffected, and the result works like any other layer.",
  ["inputs", "histories"], "every history and every (layer, ancestor) pair including the layer itself, with any layers rolled up beforehand",
  "Tests squash two or three fixed layers. Errors need terms that vanished, layers rolled up in between, or longer chains.",
  ["src/storage/layer.rs", "src/storage/delta.rs", "src/store/mod.rs", "src/layer/simple_builder.rs"],
  [("squash via builder with value triples", "src/store/mod.rs squash"), ("layer changes accumulation", "src/storage/layer.rs")],
  [], ["StoreLayer::squash", "StoreLayer::squash_upto"])

p("C08", "Merging base layers yields the union of their graphs",
  "Merging any set of base layers produces a new base layer whose triples are exactly the union, by value, of the triples of the inputs, with each shared term stored once and all lookups working on the result. The inputs are unchanged, and neither the order of the inputs nor the scratch directory used affects the result.",
  ["inputs"], "every collection of base layers (plain, squashed or merged before) with arbitrary overlaps of nodes, predicates, values and triples",
  "Tests merge one fixed trio of layers; id remapping of overlapping dictionaries and of empty or single-type layers needs varied inputs.",
  ["src/layer/internal/base_merge.rs", "src/storage/layer.rs", "src/store/mod.rs"],
  [("k-way dictionary merge with id translation and external sort", "src/layer/internal/base_merge.rs")],
  [], ["Store::merge_base_layers"])

p("C09", "Export and import reproduce layers exactly",
  "Importing a pack exported from any kind of store into any kind of store makes exactly the requested layers that are in the pack available under the same ids, with the same parents, triples, ids, change sets and rollup-independent behaviour as in the source. Requested layers that are not in the pack are ignored, unrequested layers do not appear, and layers already present in the target keep working unchanged.",
  ["inputs", "configurations"], "every history, every subset of layers exported and imported in any order, every pair of source and target storage kinds",
  "Tests round-trip a single three-layer chain between the same kind of store; subsets, absent ids, overlaps with existing layers and cross-backend transfers are not covered.",
  ["src/storage/pack.rs", "src/storage/archive.rs", "src/storage/memory.rs", "src/storage/directory.rs", "src/store/mod.rs"],
  [("gzip tar pack of layer files", "src/storage/pack.rs"), ("parent lookup in packs", "src/storage/pack.rs pack_layer_parents")],
  [], ["Store::export_layers", "Store::import_layers", "pack_layer_parents"])

p("C10", "All storage kinds behave alike and persistent stores survive reopening",
  "The same sequence of store operations gives the same observable results on the memory, directory, raw archive and cached archive stores. Reopening a persistent store at any point between operations loses and changes nothing: every label, version, head, layer, parent and rollup that existed is found again with identical contents, including by several openers of the same path.",
  ["histories", "configurations"], "every operation history, every storage kind, every placement of reopen steps",
  "Each backend is tested separately on tiny scripts and mostly through a warm cache; on-disk formats of unusual layers (empty, no values, no removals) and cold reads are only touched after a reopen.",
  ["src/storage/directory.rs", "src/storage/archive.rs", "src/storage/memory.rs", "src/storage/layer.rs", "src/storage/cache.rs", "src/storage/consts.rs", "src/store/mod.rs"],
  [("directory-per-layer format", "src/storage/directory.rs"), ("single-file archive format with presence header and offsets", "src/storage/archive.rs"), ("label files", "src/storage/directory.rs")],
  [], ["open_directory_store", "open_archive_store", "open_raw_archive_store", "open_memory_store"])

p("C11", "Labels follow their sequential specification",
  "A named graph can be created once until deleted and starts with no head at version 0; every successful head change increases its version by one and nothing else does. set_head succeeds exactly when the new layer is the current head or a descendant of it or there is no head, a versioned force succeeds exactly when the version matches, an unconditional force always succeeds, stale compare-and-set attempts are refused without effect, and labels are independent of each other. (A store on disk may refuse to create a label whose name leads to another directory; it has no such label then.)",
  ["histories"], "every sequence of label and named-graph operations over several labels and handles, on memory, directory and cached-directory label stores, with reopening",
  "Tests run short fixed scripts per store; the interplay of deletion and re-creation, stale label values, cleared heads, handles obtained earlier and reopening is not explored.",
  ["src/storage/directory.rs", "src/storage/memory.rs", "src/storage/label.rs", "src/store/mod.rs"],
  [("compare-and-set on the whole label value", "src/storage/directory.rs set_label_option"), ("ancestor check in set_head", "src/store/mod.rs set_head")],
  [("label", "name, optional layer id, version", "src/storage/label.rs")], ["NamedGraph", "Store::create/open/delete/labels", "LabelStore"])

p("C12", "Concurrent label operations are linearizable",
  "When several clients operate on the same labels concurrently, through one store object or several opened on the same path, each operation's outcome and the final state are the same as if the operations had run one at a time in some order consistent with real time. In particular no head update is lost, two creations of one label never both succeed, no reader ever observes a malformed or partial label, and clients waiting for each other always get their turn. An operation abandoned halfway takes full effect or none, and leaves the label usable. (A checked head move that lost against an overlapping change may be refused without effect; a listing reads each label at some moment, it is not a snapshot of all of them.)",
  ["schedules"], "every interleaving of the storage accesses, and every point of abandoning an operation, of concurrent create/read/set/force/delete operations on labels",
  "The tests are sequential; lost updates and torn reads need a specific interleaving between one client's read and another's write.",
  ["src/storage/directory.rs", "src/storage/locking.rs", "src/storage/memory.rs", "src/store/mod.rs"],
  [("file locks on label files", "src/storage/locking.rs"), ("version compare-and-set and retry", "src/store/mod.rs")],
  [], ["NamedGraph::set_head", "NamedGraph::force_set_head_version", "Store::create", "LabelStore"])

p("C13", "A crash at any point leaves a consistent store with all acknowledged work",
  "If the process dies at any storage access, or the machine loses data not yet flushed, reopening the store finds every layer, label, head and rollup that was acknowledged before the crash with unchanged contents. The interrupted operation is either completely visible or has no effect on what labels and previously existing layers show, and the store remains usable for reading and for new work.",
  ["crash_points", "histories"], "every storage access of every operation as a crash point, including partially performed writes and loss of unflushed data",
  "No test injects crashes; the window between truncating and rewriting a file, or between dependent files, is invisible to them.",
  ["src/storage/directory.rs", "src/storage/archive.rs", "src/storage/layer.rs", "src/storage/locking.rs", "src/storage/delta.rs"],
  [("layers become reachable only through labels set after their files are synced", "src/store/mod.rs"), ("fsync before acknowledging", "src/storage/layer.rs, src/storage/archive.rs, src/storage/directory.rs")],
  [], ["file system state after a cut, reopened through open_directory_store/open_archive_store"])

p("C14", "A failing storage access surfaces as an error and harms nothing else",
  "If any single storage access fails during an operation, that operation returns an error or completes with its full, correct effect; it never reports success with missing or wrong data, never panics, and never blocks for ever. All earlier data stays intact and readable, labels show the old or the new value, and the same store object keeps working once the fault is gone.",
  ["fault_sequences", "histories"], "every storage access of every operation as a failure point, for failing reads, writes, opens, syncs and directory operations",
  "No test injects I/O errors; swallowed errors, poisoned caches and half-registered objects only appear under faults.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/layer.rs", "src/storage/cache.rs", "src/storage/locking.rs", "src/store/mod.rs"],
  [("io::Result propagation", "src/storage"), ("cache entries created only after success", "src/storage/archive.rs LruArchiveBackend, src/storage/cache.rs")],
  [], ["results of operations under injected errors; reads through the same store and a fresh one afterwards"])

p("C15", "A builder commits exactly what was requested, once",
  "A layer builder accepts additions and removals by value or by id, in any order and with repetitions, and the committed layer depends only on the resulting sets: triples both added and removed in one builder are left as the parent has them. Applying another layer's delta replays exactly its changes, applying a diff makes the result equal to the other layer by value, and after the first commit every further change or commit on that builder is refused with an error and no effect.",
  ["inputs"], "every multiset and order of builder calls, every parent, every other layer used as delta or diff source",
  "Tests use each builder call once or twice; cancellation, repetition, mixed id/value addressing of one triple and terms that end up unused interact only in unusual sequences.",
  ["src/layer/simple_builder.rs", "src/layer/builder.rs", "src/store/mod.rs"],
  [("sort, dedup and cancellation at commit; unused term removal", "src/layer/simple_builder.rs commit"), ("apply_delta/apply_diff", "src/store/mod.rs"), ("builder taken on commit", "src/store/mod.rs with_builder")],
  [], ["StoreLayerBuilder"])

p("C16", "Concurrent use of one store equals some sequential use",
  "Any number of tasks may share a store, its layers and even one builder: concurrent builder calls all take effect, concurrent commits each yield a complete layer, a builder is committed exactly once, and concurrent loads, rollups, squashes and queries of the same layers return the same answers as when run alone. No interleaving deadlocks, panics or exposes a half-written layer.",
  ["schedules"], "every interleaving at storage accesses of concurrently running builder, commit, load, rollup, squash and query operations",
  "The tests run operations one after another on one task.",
  ["src/store/mod.rs", "src/storage/cache.rs", "src/storage/layer.rs", "src/storage/archive.rs", "src/storage/memory.rs"],
  [("locks around builder and caches", "src/store/mod.rs, src/storage/cache.rs"), ("construction map of archive layers", "src/storage/archive.rs")],
  [], ["Store", "StoreLayer", "StoreLayerBuilder"])

p("C17", "The archive cache is transparent and bounded",
  "A store reading layers through the archive cache returns exactly the bytes and errors the underlying storage would return, for whole layers and for single parts, from any read offset, under any interleaving of concurrent, cancelled and failing requests. The cache never holds more than its configured size, whatever is requested or stored, and a size of zero means nothing is retained.",
  ["schedules", "inputs", "configurations"], "every sequence and interleaving of cache requests, cancellations and backend failures, every cache size",
  "Tests never exceed the cache or cancel a request, and read every layer through a large cache.",
  ["src/storage/archive.rs"],
  [("LRU map of resolving/resolved entries with waiters", "src/storage/archive.rs LruArchiveBackend"), ("size accounting", "src/storage/archive.rs")],
  [], ["LruArchiveBackend", "LruMetadataArchiveBackend"])

p("C18", "The store enumerates exactly what it contains",
  "Listing labels yields exactly the labels that exist. Listing layers yields every committed layer (including those produced by squash, merge, rollup and import) exactly once and nothing that was neither committed nor being built, on every storage kind and after reopening. Looking up an id that was never created yields nothing, and a layer whose builder was not committed is never returned as a layer.",
  ["histories", "configurations"], "every history of layer and label creation and deletion on every storage kind",
  "Only label listing is tested, on tiny stores; layer listing on the persistent kinds is untested.",
  ["src/storage/layer.rs", "src/storage/directory.rs", "src/storage/archive.rs", "src/storage/memory.rs", "src/storage/cache.rs"],
  [("directory listing", "src/storage/directory.rs directories, src/storage/archive.rs get_layer_names")],
  [], ["LayerStore::layers", "Store::labels", "Store::get_layer_from_id"])

p("C19", "Lineage is reported faithfully",
  "For every layer, the reported parent is the layer it was built on, the reported stack of names is the path from its base layer to itself, and ancestor tests hold exactly between a layer and the layers on its path. These answers hold for loaded, unloaded, squashed, imported and rolled-up layers alike.",
  ["histories"], "every tree of layers and every pair of layers, before and after rollups, imports and reopening",
  "Tests check one parent link; rolled-up layers report a different physical parent internally and bounds are computed on long chains only in particular cases.",
  ["src/storage/layer.rs", "src/storage/cache.rs", "src/layer/internal/mod.rs", "src/layer/internal/rollup.rs", "src/store/mod.rs"],
  [("parent files and rollup wrappers", "src/storage/layer.rs"), ("retrieve_layer_stack_names*, layer_is_ancestor_of", "src/storage/layer.rs")],
  [], ["StoreLayer::parent", "StoreLayer::retrieve_layer_stack_names", "LayerStore::layer_is_ancestor_of"])

p("C20", "Malformed packs are rejected without damage",
  "Importing arbitrary, truncated or corrupted bytes as a pack, or asking for the parents recorded in them, ends with a result or an error and never a crash, never writes outside the store, and never makes a requested layer appear committed if the import failed. Whatever the bytes, layers and labels that existed before keep their exact contents.",
  ["inputs"], "every byte string, in particular mutations and truncations of valid packs and archives with hostile entry names",
  "Tests only import well-formed packs.",
  ["src/storage/pack.rs", "src/storage/archive.rs", "src/storage/directory.rs", "src/storage/memory.rs"],
  [("entry filtering by requested ids", "src/storage/pack.rs")],
  [], ["Store::import_layers", "pack_layer_parents"])

p("C21", "The synchronous interface mirrors the asynchronous one",
  "Every operation of the synchronous wrapper has exactly the effect and the result of the asynchronous operation of the same name, from plain threads and from several threads at once. A store written through one interface reads identically through the other.",
  ["inputs", "histories"], "every operation of the synchronous interface on every state reachable by a history",
  "The synchronous tests cover a few calls; each of some fifty forwarding functions could forward to the wrong place.",
  ["src/store/sync.rs", "src/store/mod.rs"],
  [("block_on forwarding", "src/store/sync.rs")],
  [], ["SyncStore", "SyncNamedGraph", "SyncStoreLayer", "SyncStoreLayerBuilder"])

p("C22", "Stored files come back exactly as written, whole or in part",
  "On every storage kind, each file of a layer, however many there are, whatever their sizes (empty included) and however the writes were cut up, reads back exactly as written: mapped, streamed, or read from any offset, before and after the layer is finalized, through old and new handles and after reopening. Its existence and size are reported exactly, files that were not written are reported absent, parent and rollup names read back as stored, and no layer's files affect another's.",
  ["inputs", "histories"], "every set of files per layer and every contents, write granularity, read offset and order of creating, writing, finalizing, storing, reading and reopening, on memory, directory, archive and cached archive storage",
  "Tests store complete layers with few small files. An archive packs up to 57 files behind a presence bitmap and an offset array; wrong ranks, offsets, slice ends or header widths need particular combinations of present, absent, empty and large files, and offsets inside them.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/memory.rs", "src/storage/layer.rs", "src/storage/consts.rs"],
  [("archive format: presence header, offsets, data", "src/storage/archive.rs build_archive, ArchiveHeader"), ("slice readers", "src/storage/archive.rs ArchiveSliceReader, ConstructionFile"), ("files by name in a directory per layer", "src/storage/directory.rs")],
  [("layers under construction", "files of archives not yet written out", "src/storage/archive.rs ArchiveLayerStore::construction")],
  ["PersistentLayerStore", "FileLoad", "FileStore", "ArchiveBackend", "ArchiveMetadataBackend", "Archive", "ArchiveHeader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

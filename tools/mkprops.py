#!/usr/bin/env python3
"""Single source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "include/z5/"
PY = "src/python/module/z5py/"
LIB = "src/python/lib/"

prop("C01", "Region reads return the last written values; writes touch only their region",
 "After any sequence of region writes, scalar writes, chunk writes and chunk removals, reading any region of a dataset returns for every element the value most recently written to it, or the fill value if it was never written or its chunk was removed. A write changes exactly the elements of the addressed region and nothing else, also when it covers chunks only partially, touches clipped border chunks or lands in a sharded dataset. This holds for every container format, data type, codec and codec setting, rank, chunk and shard shape, fill value and thread count.",
 ["histories", "inputs", "configurations"],
 "All operation histories on all datasets: format (N5, Zarr v2, Zarr v3, v3 sharded) x dtype x codec x rank x shape/chunk/shard shape x fill value x region geometry x thread count.",
 "Tests write whole arrays or a few fixed regions once on a handful of shapes with one dtype/codec combination each and read them straight back; multi-step overlapping histories with partial border chunks, non-zero fill and mixed operations are not enumerated.",
 [I+"multiarray/array_access.hxx", I+"multiarray/array_util.hxx", I+"multiarray/broadcast.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"util/format_data.hxx", I+"util/blocking.hxx", I+"compression/"],
 [("chunk-wise region write with read-modify-write of partially covered chunks", I+"multiarray/array_access.hxx"),
  ("strided copies between request view and chunk buffer", I+"multiarray/array_util.hxx"),
  ("buffer <-> stored bytes (padding, endianness, codec)", I+"util/format_data.hxx")],
 [("stored chunks", "chunk id -> stored bytes, absent = fill", "chunk files / shard files below the dataset directory")],
 ["z5::multiarray::{readSubarray,writeSubarray,writeScalar}", "z5py.Dataset indexing"])

prop("C02", "Only chunks holding non-fill data occupy storage, and presence queries agree",
 "A regular chunk is present in storage exactly if at least one of its elements differs from the fill value: writing only fill values into a chunk leaves (or makes) it absent, and removing a chunk makes it read as fill. The chunk-presence query of every API layer agrees at all times with what is in storage, and a shard object exists only while at least one of its chunks is present.",
 ["histories", "inputs", "configurations"],
 "All operation histories (region/scalar/chunk writes, removals, reopen) for every format, dtype, fill value, chunk and shard shape.",
 "Tests check one all-zero write on one shape; that a partial overwrite which turns the last non-fill element into fill erases the chunk, also in border chunks, in shards and with non-zero fill, is a history property.",
 [I+"util/format_data.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"util/sharding.hxx", I+"filesystem/store.hxx"],
 [("all-fill detection before encoding", I+"util/format_data.hxx"),
  ("erase on all-fill; erase empty shard", I+"generic/dataset.hxx, "+I+"generic/sharded_dataset.hxx"),
  ("presence query", "chunkExists in "+I+"generic/*.hxx and "+I+"filesystem/store.hxx")],
 [("chunk/shard objects", "set of files below the dataset directory", "dataset directory")],
 ["chunkExists / z5py chunk_exists", "directory listing"])

prop("C03", "A reopened dataset is the same dataset",
 "Closing and reopening a dataset, through any API layer, mode, process or pickled copy, gives back the same format, shape, chunk shape, shard shape, data type, codec and codec settings, fill value, chunk-key scheme and contents it was created with, and the copy and the original stay interchangeable. Creating with the options reported by an existing dataset yields an equivalent dataset, opening or unpickling never truncates or alters anything, and a container whose directory was moved or renamed is the same container.",
 ["configurations", "histories"],
 "All creation parameters (format x dtype x codec x settings x fill incl. NaN, infinities and integer limits x shapes x key scheme x shards) followed by any history and any number of reopen/pickle steps.",
 "Tests reopen a few default datasets and compare shape and dtype; metadata round trip of codec settings, special fill values, key separators and shard settings, and interchangeability after further writes are a product space.",
 [I+"metadata.hxx", I+"filesystem/metadata.hxx", I+"generic/metadata.hxx", I+"types/types.hxx", I+"factory.hxx", I+"filesystem/factory.hxx", PY+"dataset.py", PY+"file.py"],
 [("metadata to/from JSON", I+"metadata.hxx"), ("open path", I+"filesystem/factory.hxx"), ("pickle by reopen", PY+"file.py, "+PY+"dataset.py")],
 None, ["z5::openDataset", "z5py.Dataset properties", "metadata files"])

prop("C04", "Stored layout follows the N5, Zarr v2 and Zarr v3 specifications",
 "Every file written for a dataset has the name, byte layout and metadata the format specification prescribes: chunk keys and separators, axis order, N5 chunk headers and big-endian payload, full padded row-major chunks for Zarr, the declared codec stream, and the shard index with offsets, lengths and checksum. Conversely data laid out by the specification by another implementation, including chunks, defaults and optional metadata that z5 itself would not write, reads back as the same array; what is not supported (other byte or memory orders, codecs or filters) is refused, never misread.",
 ["inputs", "configurations"],
 "All dtypes, ranks, shapes, chunk/shard shapes, codecs, key encodings, fill values and array contents, in both directions (z5 writes / z5 reads).",
 "Tests compare with zarr/n5 libraries on single arrays; a symmetrical error on both read and write sides passes every round-trip test, and border chunks, key separators, ranks and dtypes multiply.",
 [I+"handle.hxx", I+"util/format_data.hxx", I+"util/sharding.hxx", I+"util/crc32c.hxx", I+"metadata.hxx", I+"types/types.hxx", I+"compression/"],
 [("chunk keys", "getChunkKey in "+I+"handle.hxx"), ("N5 header, endianness, padding", I+"util/format_data.hxx"), ("shard layout", I+"util/sharding.hxx")],
 None, ["files below the dataset directory"])

prop("C05", "A shard keeps its chunks independent and is never trusted when damaged",
 "Updating or removing one chunk of a shard leaves every other chunk of that shard readable with its old contents, whatever the order of updates, and after every completed operation the shard file is well formed: index at the end with a valid checksum, in-bounds non-overlapping extents, absent slots marked absent. A shard whose index is damaged or truncated is reported as an error by reads and by partial updates and is never silently treated as empty or overwritten.",
 ["histories", "inputs", "fault_sequences"],
 "All histories of chunk/region writes and removals over all shard geometries and codecs, and all truncations / byte damages of the shard index.",
 "Tests write a sharded array once or twice; surviving neighbours after arbitrary update/removal orders and every index corruption are history and fault quantifiers.",
 [I+"generic/sharded_dataset.hxx", I+"util/sharding.hxx", I+"util/crc32c.hxx", I+"multiarray/array_access.hxx"],
 [("shard read-modify-write", I+"generic/sharded_dataset.hxx"), ("index parse/build with checksum and bounds", I+"util/sharding.hxx")],
 [("shard object", "slot -> encoded chunk or absent", "shard file")],
 ["shard files", "read/write results"])

prop("C06", "The container behaves as a faithful tree of named groups and datasets",
 "At any time the set of groups and datasets that listing, membership, lookup and recursive traversal report is exactly the set that was created (with the missing parents of a nested path as groups) minus what was deleted, each with its right kind. Deleting a node removes it and everything below it and nothing else, names that are absent raise errors, creating over an existing name fails without changing it, and absolute or slash-decorated paths address the same node inside the container.",
 ["histories", "inputs"],
 "All histories of create/require group/dataset, lookup, membership, listing, traversal, deletion, reopen on N5, Zarr v2 and Zarr v3 containers with nested paths.",
 "Tests build one fixed small hierarchy; listing/lookup agreement after arbitrary interleavings of nested creation and deletion is a history property.",
 [PY+"group.py", PY+"file.py", PY+"dataset.py", I+"filesystem/handle.hxx", I+"s3/handle.hxx", I+"factory.hxx", I+"util/functions.hxx", LIB+"handles.cxx"],
 [("group/dataset creation and lookup", PY+"group.py"), ("key listing and kind detection", I+"filesystem/handle.hxx"), ("deletion", PY+"group.py, "+I+"util/functions.hxx")],
 [("tree", "path -> group/dataset", "directories + marker files")],
 ["z5py File/Group API", "z5::createGroup/isSubGroup/keys"])

prop("C07", "Access modes are honoured: read-only handles never modify storage",
 "Through a handle opened read-only, and every group, dataset or attribute handle derived from it, no operation ever changes anything in storage: each mutating operation raises an error and leaves every file as it was. 'r' and 'r+' require an existing container, 'w-'/'x' a missing one, 'a' accepts both and keeps existing data, and 'w' starts empty; a request for a format, version or mode that does not exist is refused before anything is touched; removal and creation are refused wherever the mode does not permit them.",
 ["histories", "configurations"],
 "All sequences of API operations under every mode (r, r+, w, w-, x, a), for File/Group/Dataset/attribute handles in all formats and API layers, plain and sharded.",
 "Tests open a read-only file and try one or two operations; the guarantee quantifies over every mutating entry point and every derived handle.",
 [I+"util/file_mode.hxx", I+"filesystem/handle.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"generic/attributes.hxx", I+"attributes.hxx", PY+"file.py", PY+"attribute_manager.py"],
 [("mode bits", I+"util/file_mode.hxx"), ("mode checks on create/remove/write", I+"filesystem/handle.hxx, "+I+"generic/*.hxx, "+I+"attributes.hxx")],
 None, ["directory snapshots before/after", "exceptions"])

prop("C08", "Attributes are a persistent map that cannot damage the node's metadata",
 "The attributes of a file, group or dataset behave as a map of JSON values: set, update, delete, lookup, membership, length and iteration always reflect exactly the preceding operations, for this node only, and survive reopening, also through user-supplied JSON encoders and decoders. Attribute operations never change the node's own metadata (shape, type, chunking, codec, version markers), which can neither be written nor deleted as an attribute and is not listed for datasets, and data operations never change attributes.",
 ["histories", "inputs"],
 "All histories of attribute operations over arbitrary JSON values and keys (including keys that collide with metadata names) on all node kinds and formats, interleaved with data operations and reopen.",
 "Tests set and read a few attributes; merge/overwrite/delete sequences, nested values, reserved keys and non-interference with inline metadata are history properties.",
 [I+"attributes.hxx", I+"generic/attributes.hxx", I+"filesystem/attributes.hxx", LIB+"attributes.cxx", PY+"attribute_manager.py"],
 [("read-merge-write of the attribute document", I+"generic/attributes.hxx"), ("reserved keys", I+"attributes.hxx"), ("python mapping", PY+"attribute_manager.py")],
 [("attribute document", "JSON map per node", ".zattrs / attributes.json / zarr.json")],
 ["z5py attrs mapping", "attribute files"])

prop("C09", "Parallel access gives the result of some sequential execution",
 "Any region operation gives the same result for every number of threads, and threads that concurrently write or remove different chunks of one dataset, including (by chunk operations through one dataset object) different chunks of the same shard, lose no update and disturb no other chunk. Concurrent reads of quiescent data return exactly that data, and a read that runs concurrently with writes of the same whole chunk returns its contents before or after one of these writes, never a mixture.",
 ["schedules", "inputs"],
 "All interleavings of threads executing reads, writes and removals on a shared dataset object, all thread counts, formats, chunk and shard shapes.",
 "Tests run a fixed thread count once and compare the result; lost updates and shared-buffer races need particular schedules.",
 [I+"multiarray/array_access.hxx", I+"generic/sharded_dataset.hxx", I+"generic/dataset.hxx", I+"util/threadpool.hxx", I+"filesystem/store.hxx"],
 [("per-shard read-modify-write under a lock", I+"generic/sharded_dataset.hxx"), ("per-thread chunk buffers", I+"multiarray/array_access.hxx"), ("one task per chunk/shard", I+"multiarray/array_access.hxx")],
 [("shard object", "slot -> chunk", "shard file")],
 ["contents after join", "interleaved storage calls (I/O shim)"])

prop("C10", "Parallel loops run each item once, finish before returning, report errors",
 "A parallel loop calls its function exactly once per item for every number of threads and items (including none), with a thread id below the number of threads that is never used by two calls at the same time, and returns only after all started calls have finished. If calls throw, one of those exceptions reaches the caller after all started work has ended, and neither loop nor pool ever hangs, crashes or loses a queued task; a task submitted to the pool delivers its result or exception through its future, or a broken promise if the pool is destroyed before the task was started; destroying a pool waits for the tasks that run. (Loops and waits issued from inside a task of the same pool are not covered: they may block on the very worker that runs them.)",
 ["schedules", "inputs", "fault_sequences"],
 "All interleavings, item counts (empty, one, fewer/more than threads), iterator kinds, thread counts (0, 1, many) and all subsets of throwing items.",
 "Tests sum a range with a few thread counts; double execution, early return, id sharing and error paths are schedule- and fault-dependent.",
 [I+"util/threadpool.hxx", I+"util/for_each.hxx"],
 [("work queue with condition variables", I+"util/threadpool.hxx"), ("partitioning of the items and future collection", "parallel_foreach in "+I+"util/threadpool.hxx")],
 [("queue/busy/stop", "pool state", I+"util/threadpool.hxx")],
 ["z5::util::ThreadPool", "z5::util::parallel_foreach"])

prop("C11", "Invalid requests are rejected without any effect",
 "A request that does not fit the dataset - region reaching outside the array in any axis, wrong number of axes (of the array or, through Python, of the offset alone), empty extent, wrong element type, wrong amount of chunk data, chunk position outside the grid - raises an error, for reads and writes and for arbitrarily large offsets and extents. A rejected request reads or writes no memory outside the caller's buffer, leaves storage byte-for-byte unchanged, and the dataset stays usable.",
 ["inputs", "histories"],
 "All region/chunk/type requests at and beyond every boundary (up to the full range of the index type) in all API layers, between arbitrary valid operations.",
 "Tests try one out-of-range region; boundary, overflow, rank and type combinations per entry point are an input quantifier.",
 [I+"dataset.hxx", I+"multiarray/array_access.hxx", I+"multiarray/broadcast.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"util/blocking.hxx", LIB+"dataset.cxx", PY+"dataset.py"],
 [("request shape/type checks", I+"dataset.hxx"), ("chunk position check", I+"util/blocking.hxx, "+I+"generic/*.hxx"), ("binding-level checks", LIB+"dataset.cxx")],
 None, ["exceptions", "directory snapshots"])

prop("C12", "Damaged storage and failing writes raise errors and stay contained",
 "Reading a chunk whose stored bytes are truncated, empty, of another length, or declare a shape inconsistent with the array raises an error or (when every data byte is intact) returns the right data, never other values, and the rest of the dataset stays readable and writable; the damaged chunk can be replaced or removed. An operation whose storage write fails (disk full, quota, permission) reports an error instead of success, a request to an object store that fails is never taken for an absent object, and after the process dies at any point in an operation every chunk, node and attribute the operation did not address is unchanged, and every chunk it did address holds its old or its new contents.",
 ["fault_sequences", "crash_points", "inputs"],
 "All truncation points of stored chunks for each codec and format; all positions of a failing or killing system call within every mutating operation.",
 "Tests never inject faults: no test truncates a chunk, fills the disk or kills the process.",
 [I+"filesystem/store.hxx", I+"util/format_data.hxx", I+"compression/", I+"filesystem/metadata.hxx", I+"filesystem/attributes.hxx", I+"generic/dataset.hxx", I+"s3/handle.hxx", I+"s3/store.hxx"],
 [("stream state check after write", I+"filesystem/store.hxx"), ("decoded size checks", I+"compression/*.hxx, "+I+"util/format_data.hxx")],
 None, ["results under LD_PRELOAD fault injection", "results on truncated files"])

prop("C13", "Array-style indexing selects and assigns exactly what numpy would",
 "For every supported index expression (integers, negative integers, unit-step slices with open, negative or too large bounds, ellipsis, fewer indices than axes), reading a dataset returns an array with the same shape, type and values as the same expression on a numpy array of equal contents, and assignment of a scalar or array changes exactly the elements numpy would change. Unsupported or out-of-range expressions and non-matching values raise an error and change nothing. Two documented limits: a slice whose start lies before the first element (below -n) selects nothing, and array values are only matched up to leading and trailing singleton axes - any other numpy broadcasting may be refused, but is never half or wrongly applied.",
 ["inputs", "histories"],
 "All index tuples over all ranks and shapes, for reads and for scalar, exact-shape and singleton-axis assignments.",
 "Tests list a few dozen index expressions on one 3-d shape; the normalisation case analysis multiplies per axis.",
 [PY+"shape_utils.py", PY+"dataset.py"],
 [("index normalisation", PY+"shape_utils.py"), ("read/assign with squeezed axes", PY+"dataset.py")],
 None, ["z5py.Dataset.__getitem__/__setitem__"])

prop("C14", "Chunk-level access agrees with region access; N5 variable-length chunks survive",
 "Writing a chunk through the chunk interface is seen by region reads and vice versa, with each chunk's position, clipped extent and row-major order as the format defines, and raw chunk reads decode to the same data. A variable-length N5 chunk of any length reads back with exactly that length and data and is reported as variable-length, regular chunks are not, and rewriting, removing or reading one leaves all other chunks alone.",
 ["histories", "inputs", "configurations"],
 "All interleavings of chunk and region operations on all chunk positions, formats, dtypes, codecs, and variable lengths from one element up.",
 "Tests exercise chunk read/write on full interior chunks and one varlen chunk; mixing with region operations, border chunks and overwrites between both kinds is a history property.",
 [I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"util/format_data.hxx", I+"filesystem/store.hxx", I+"filesystem/handle.hxx", LIB+"dataset.cxx", PY+"dataset.py"],
 [("chunk codec path and N5 header mode", I+"util/format_data.hxx"), ("header reads", I+"filesystem/store.hxx"), ("python chunk API", LIB+"dataset.cxx")],
 None, ["readChunk/writeChunk/readRawChunk/checkVarlenChunk/getChunkShape", "z5py read_chunk/write_chunk"])

prop("C15", "Chunk iteration and dataset utilities cover the data exactly once",
 "The chunk grid partitions the array: every element lies in exactly one chunk, the chunks reported for a region are exactly those intersecting it, with the exact overlap in array, request and chunk coordinates, and chunk numbers and positions map one to one. Parallel chunk/block loops visit exactly the existing or all intersecting blocks once each for any block shape, region and thread count; unique values and counts equal those of the elements in stored chunks; removing trivial chunks removes exactly the stored chunks that hold one single value, removing a dataset exactly that dataset.",
 ["inputs", "configurations", "histories"],
 "All shapes, chunk/block shapes, regions, ranks, thread counts and contents; for the utilities all sets of stored chunks.",
 "Tests use a few divisible shapes; exact overlaps for every region/shape combination are an input quantifier.",
 [I+"util/blocking.hxx", I+"util/for_each.hxx", I+"util/functions.hxx", I+"util/util.hxx"],
 [("grid geometry", I+"util/blocking.hxx"), ("loops", I+"util/for_each.hxx"), ("utilities", I+"util/functions.hxx")],
 None, ["Blocking API", "parallel_for_each_*", "unique/uniqueWithCounts/removeTrivialChunks/removeDataset"])

prop("C16", "Creation delivers what was asked for or fails leaving nothing behind",
 "Creating a dataset either yields a dataset with exactly the requested shape, type, chunks, shards, codec, key scheme and fill that can be opened again, or raises an error and leaves the container as it was, so that the name stays free and usable. Requiring a dataset or group returns the existing node untouched when it matches the request, creates it when missing, and raises an error without side effects when it exists with different shape, incompatible type or kind.",
 ["inputs", "configurations", "histories"],
 "All parameter combinations, valid and invalid (zero or mismatched extents, unknown types, codecs or settings, bad shards), in any container state.",
 "Tests create valid datasets and one or two invalid ones; whether every rejection path runs before side effects is an input x path quantifier.",
 [PY+"dataset.py", PY+"group.py", I+"factory.hxx", I+"filesystem/factory.hxx", I+"metadata.hxx", I+"types/types.hxx", LIB+"factory.cxx"],
 [("parameter validation", PY+"dataset.py, "+I+"metadata.hxx"), ("directory + metadata creation", I+"filesystem/factory.hxx"), ("require semantics", PY+"group.py, "+PY+"dataset.py")],
 None, ["create_dataset/require_dataset/require_group", "directory snapshots"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

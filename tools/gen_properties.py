#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

W=["src/api.rs","src/executor.rs","src/io.rs","src/visitor_impls.rs","src/map.rs","parcode-derive/src/lib.rs"]
R=["src/reader.rs","src/rt.rs","parcode-derive/src/lib.rs"]

p("C01","Whatever is saved is what is loaded",
  "For every value of a supported type, writing it with any of the write entry points (save, write, serialize, their synchronous forms, with or without global compression) and eagerly loading it with any of the read entry points (load, load_bytes, open/open_bytes then load) returns a value equal to the original, bit for bit for floats; references, as the root or as items of a vector, are stored as what they refer to. Saving to a path that already holds a file, shorter or longer, leaves exactly the newly saved value. The value being written is not modified.",
  ["inputs","configurations","histories"],
  "all supported value shapes (scalars, strings, vectors of any length, structs with local, chunkable, compressed and map fields, nested to any depth), every pair of write/read entry points, compression on/off, any history of saves to one path",
  "The tests round-trip about a dozen hand-picked values, almost all through one entry point; none covers shard-boundary sizes, empty or tiny maps, map values with remote fields, NaN payloads, 128-bit integers or overwriting.",
  W+R+["src/compression.rs","src/format.rs"],
  [("writers: graph construction and sharding","src/visitor_impls.rs, parcode-derive generate_visitor"),("eager readers: ParcodeNative / ParcodeItem","src/reader.rs, parcode-derive generate_native_reader, generate_parcode_item"),("parallel reconstruction of vectors","src/reader.rs decode_parallel_collection")],
  ["values returned by Parcode::load, load_bytes, ParcodeFile::load","bytes of the saved file"])

p("C02","A lazy view shows the same data as the value it was saved from",
  "For every saved value, each local field visible in its lazy mirror, and every result of load, get, iter, len, is_empty, first, last, get_lazy and iter_lazy on its promises, recursively, equals the corresponding part of the original value. Indexes outside a collection yield an error, never a wrong item; iterators yield every item exactly once, in order, and report the exact number remaining.",
  ["inputs","histories"],
  "all supported value shapes, every access path through the mirror, any order and repetition of accesses, any index",
  "The tests look at a few fields and at items 0, middle and last of two or three collections; they never vary shard boundaries, item kinds with several remote fields, or index overflow.",
  ["src/rt.rs","src/reader.rs","parcode-derive/src/lib.rs"],
  [("lazy mirror generation","parcode-derive generate_lazy_mirror"),("collection promise and lazy iterator","src/rt.rs ParcodeCollectionPromise, ParcodeLazyIterator"),("index arithmetic over run-length shard table","src/reader.rs resolve_rle_index, locate_shard_item, get"),("streaming iterator","src/reader.rs ChunkIterator")],
  ["values returned by promises and iterators"])

p("C03","Map lookups find exactly the stored entries",
  "For every saved hash map, whether stored sharded or as a single blob, loading it (eagerly or through its promise) yields exactly the original entries; get and get_lazy return the stored value for every key present and None, without error, for every key absent. This holds for empty maps, for keys whose hashes collide, and for values that have chunkable fields of their own.",
  ["inputs"],
  "all maps: any key type, any size (around every bucket-count boundary), any collision pattern, any value shape; any present or absent key",
  "The tests look up a few keys in a couple of maps of primitive-like values; no collisions, no empty map, no values with remote fields, no absent-key sweep.",
  ["src/map.rs","src/rt.rs","src/reader.rs","src/visitor_impls.rs"],
  [("hash distribution into buckets","src/visitor_impls.rs HashMap::visit"),("structure-of-arrays shard layout","src/map.rs MapShardJob"),("lookup by hash with key verification","src/rt.rs ParcodeMapPromise::get, get_lazy"),("map reconstruction","src/reader.rs HashMap::from_node, read_map_entry")],
  ["results of get, get_lazy, load"])

p("C04","Every file written conforms to the documented V4 format",
  "Every successful write produces a file an independent decoder of the documented V4 format can read back to the original value: a valid trailer at the very end, the root chunk last before it, chunks that tile the file without gaps or overlap, every child before its parent, payloads laid out as documented (length and run-length tables, hash/offset tables, local fields in order, children in field order), and compression flags matching what was requested. Vectors are cut into consecutive shards and maps into hash-selected buckets.",
  ["inputs","configurations","schedules"],
  "all supported values, with and without compression, serial and parallel writers, any schedule",
  "Round-trip tests use the crate's own reader, so a matching change in writer and reader, or wasted and overlapping bytes, goes unnoticed and breaks files already on disk.",
  W+["src/format.rs","src/compression.rs"],
  [("trailer and chunk layout","src/format.rs, src/executor.rs"),("payload layouts","src/visitor_impls.rs VecContainerJob, VecShardJob, MapContainerJob; src/map.rs; parcode-derive")],
  ["bytes of the written file"])

p("C05","Any conforming V4 file is readable, not only the writer's own layouts",
  "A file that follows the documented V4 format is read back to the value it encodes, by eager and lazy access alike, however its producer split vectors into shards (any run lengths, including single items), chose the number of map buckets, ordered chunks in the file, left unused bytes between them or mixed compression from chunk to chunk.",
  ["inputs","configurations"],
  "all conforming encodings of all supported values: shard sizes, run-length tables, bucket counts, chunk placement, gaps, per-chunk compression",
  "The tests only read files the same build has just written, whose layout depends on the machine's core count; files from other machines or versions use other splits.",
  R+["src/format.rs","src/compression.rs"],
  [("chunk resolution by offset/length","src/reader.rs get_chunk, get_child_by_index"),("run-length table interpretation","src/reader.rs decode_parallel_collection, resolve_rle_index"),("bucket selection","src/rt.rs ParcodeMapPromise::get")],
  ["values returned by load and by promises"])

p("C06","Parallel writing is schedule-independent and always finishes",
  "For every value, under every thread-pool size and interleaving, a parallel write terminates and its output describes exactly the same chunk tree (payloads, child order, compression) as the synchronous write of the same value, differing only in where chunks are placed; in particular no chunk is lost, duplicated, overwritten or attached to the wrong parent, and a parent always lies after its children.",
  ["schedules","inputs"],
  "all interleavings of worker threads at all pool sizes, with arbitrary delays inside user serialization code and in the destination; all values",
  "A test run sees a handful of natural schedules of small graphs on one machine and only checks that loading works.",
  ["src/executor.rs","src/io.rs","src/graph/core.rs","src/graph/id.rs"],
  [("dependency countdown triggers parents","src/executor.rs process_node; src/graph/core.rs atomic_deps"),("slot-addressed child results","src/graph/core.rs register_child_result"),("serialised sequential writer assigning offsets","src/io.rs SeqWriter::write_all")],
  ["chunk tree of the output, by offset","order of chunks (schedule witness)","termination"],
  [("atomic_deps","children still missing","src/graph/core.rs"),("completed_children","results by slot","src/graph/core.rs"),("current_offset","next free byte","src/io.rs")])

p("C07","A write that fails says so, promptly, and never passes for success",
  "If the destination fails, accepts no more bytes, or user serialization code returns an error or panics, at any point of a write, the call returns an error (or propagates the panic) carrying the original cause, without hanging; and if the call returns Ok, the destination has accepted and been flushed of every byte of a complete file. Destinations that accept bytes a few at a time or are interrupted do not disturb the result, and a destination left behind by a failed write is never mistaken for a complete file of another value.",
  ["fault_sequences","crash_points","schedules"],
  "every byte position and every kind of fault (I/O error kinds, zero-length writes, failing flush, disk limits, serialization errors, panics), serial and parallel, all interleavings",
  "No test injects a failing or slow destination, and only in-memory buffers and healthy files are written.",
  ["src/executor.rs","src/io.rs","src/api.rs","src/error.rs"],
  [("first-error capture and abort flag","src/executor.rs ExecutionContext"),("final header write and flush","src/api.rs"),("error classification","src/error.rs")],
  ["result of write/save/serialize","bytes and flushes seen by the destination","wall-clock and CPU progress"])

p("C08","No undefined behaviour, data race or uninitialised read",
  "No use of the library, successful or failing, from one thread or many, executes undefined behaviour: no out-of-bounds or dangling access, no invalid aliasing, no data race, no read of uninitialised memory, no value dropped twice, on well-formed and on malformed input alike.",
  ["inputs","schedules","fault_sequences"],
  "all writes, eager and lazy reads, partial failures of parallel reconstruction, panicking user code; all interleavings",
  "The one Miri test reconstructs a single small vector on one schedule with aliasing checks off; nothing runs under the sanitizers and no error path is covered.",
  ["src/reader.rs","src/executor.rs","src/rt.rs"],
  [("unsafe destination-passing reconstruction","src/reader.rs decode_parallel_collection, decode_shard_into_buffer, read_into_slice, read_slice_from_shard"),("memcpy path for bytes","src/reader.rs impl_primitive_parcode_item"),("memory map","src/reader.rs ParcodeFile::open")],
  ["Miri, AddressSanitizer, ThreadSanitizer and MemorySanitizer reports"])

p("C09","Malformed input is answered with an error, never a crash or a hang",
  "Opening, loading, lazily exploring, iterating or inspecting arbitrary bytes as any non-recursive type (whose collection items occupy at least one byte each) returns a result or an error; it never panics, aborts, exhausts the stack or the memory, runs without end, or reads outside the given bytes.",
  ["inputs"],
  "all byte strings, in particular files with corrupted trailers, chunk references, child counts, lengths, run-length tables, hash/offset tables, compression flags and payloads, and files holding a different type than requested",
  "The tests try a few corruptions of the trailer; the reachable space of inconsistent metadata is unbounded.",
  R+["src/inspector.rs","src/compression.rs","src/format.rs"],
  [("bounds-checked chunk resolution","src/reader.rs get_chunk, get_child_by_index"),("metadata cross-checks","src/reader.rs decode_parallel_collection"),("inspection budget","src/inspector.rs inspect_node"),("decompression size check","src/compression.rs")],
  ["process exit status, panic hook, allocator, watchdog, sanitizer reports"])

p("C10","Incomplete or foreign files are refused",
  "A file cut short at any byte, with more bytes after its end, with a wrong magic number, an unsupported version, or a root reference outside the file is refused with an error when it is opened or first read, whichever entry point is used. No part of its contents is presented as data.",
  ["crash_points","inputs"],
  "every strict prefix of every written file, as left by a crash or an interrupted copy; every value of the trailer's fields",
  "The tests truncate one file at one point.",
  ["src/reader.rs","src/format.rs","src/api.rs"],
  [("trailer validation","src/reader.rs ParcodeFile::init"),("trailer written last, only after success","src/api.rs, src/executor.rs"),("chunk bounds check","src/reader.rs get_chunk")],
  ["result of open, root_node, load on each prefix"])

p("C11","Lazy access reads only what it needs",
  "Opening a file, creating the lazy mirror and reading local fields touch only the trailer and the metadata chunks on the path, whatever the size of the remote data; fetching one item or one key touches, besides those, only the one shard that holds it and what hangs from that shard, and a stream consumed up to some item reads the contents of no shard beyond that item's. For uniformly sized items and well-spread keys that shard's size is bounded independently of the length of the collection (for maps, up to two million entries).",
  ["inputs","histories"],
  "all file sizes and shapes, every lazy access path, any index or key",
  "Tests check returned values, not which bytes were read to produce them; an implementation that loads everything passes them all.",
  ["src/reader.rs","src/rt.rs","src/visitor_impls.rs","parcode-derive/src/lib.rs"],
  [("memory map and bounds-resolved chunks","src/reader.rs"),("shard/bucket selection","src/reader.rs locate_shard_item, src/rt.rs get"),("adaptive sharding","src/visitor_impls.rs")],
  ["pages of the mapped file actually touched by each operation"])

p("C12","Streaming a collection needs memory for one shard, not for all",
  "While a collection is traversed with a streaming or lazy iterator, at most one shard's items are alive beyond those the caller keeps, and the memory held stays bounded by a small multiple of the largest shard (and the table of shards), however long the collection is.",
  ["inputs"],
  "all collections and shard sizes, with and without compression, for the whole traversal including early stop",
  "Tests check the items that come out, not what stays resident while they do.",
  ["src/reader.rs","src/rt.rs"],
  [("one-shard buffer","src/reader.rs ChunkIterator"),("active payload of the lazy iterator","src/rt.rs ParcodeLazyIterator")],
  ["live heap bytes and live items at every step"])

p("C13","The inspector reports the file as it is",
  "For every well-formed file the inspection report lists every chunk exactly once in tree order with its true offset, length, payload size, child count and compression, recognises exactly the non-empty vector and map containers (as far as the bytes can tell) with their true item, shard and bucket counts, and renders and serializes without loss or failure.",
  ["inputs","configurations"],
  "all well-formed files nested at most 512 deep, from any writer layout, compressed or not",
  "The tests print one or two reports and compare a few numbers.",
  ["src/inspector.rs","src/reader.rs"],
  [("recursive walk","src/inspector.rs inspect_node"),("payload classification","src/inspector.rs analyze_payload")],
  ["DebugReport fields and rendering"])

p("C14","Files and behaviour do not depend on build options or machine",
  "A file written by any build (parallel or serial, memory-mapped or not, with LZ4 or without) on a machine with any number of cores is read identically by every other build that has the compression algorithms the file uses; a build lacking one reports an error for the affected data rather than wrong data, and asking such a build to compress stores the data uncompressed.",
  ["configurations","inputs"],
  "all pairs of feature combinations and core counts, all values",
  "The tests run in one feature combination on one machine at a time.",
  ["Cargo.toml","src/reader.rs","src/executor.rs","src/compression.rs","src/visitor_impls.rs"],
  [("feature-gated serial and parallel paths","src/executor.rs, src/reader.rs"),("compressor registry and fallback","src/compression.rs, src/executor.rs"),("core-count dependent sharding","src/visitor_impls.rs")],
  ["values and errors across builds"])

p("C15","Concurrent use gives the same results as sequential use",
  "Any number of threads may share one open file and its lazy views, and write or load independent values at the same time, inside or outside thread pools; each operation returns what it would return alone, none blocks the others for ever, and reading never changes the file.",
  ["schedules","histories"],
  "all interleavings of reads on shared handles and of concurrent writes and loads, all pool configurations",
  "No test uses the library from more than one thread.",
  ["src/reader.rs","src/rt.rs","src/executor.rs","src/io.rs"],
  [("immutable shared source","src/reader.rs DataSource, ParcodeFile"),("per-call graph and writer","src/api.rs")],
  ["results per thread, file bytes before and after, ThreadSanitizer reports"])

p("C16","Every value the library creates is released exactly once",
  "Every element materialised while loading, iterating or looking up is handed to the caller or dropped exactly once, whether the operation succeeds, fails half-way in one of several shards, or is abandoned; every temporary copy made while writing is released, also when the write fails.",
  ["inputs","fault_sequences","schedules"],
  "all loads and writes, with failures injected at every element, serial and parallel",
  "Tests never count drops; buffers of uninitialised memory make both leaks and double drops silent.",
  ["src/reader.rs","src/rt.rs","src/executor.rs","src/graph/core.rs"],
  [("guards over partially filled buffers","src/reader.rs read_into_slice, decode_parallel_collection"),("ownership of jobs","src/graph/core.rs")],
  ["creations and drops per element identity"])

p("C17","Compression is transparent, honoured and reversible",
  "Every registered compressor restores exactly the bytes it was given, appends only after existing output, and answers damaged input with an error rather than with a panic; compressing a whole file or single fields changes only the stored size: the loaded value is the same, the requested fields (or all chunks) carry the requested algorithm and the others none, and compressible data gets smaller. Selecting an algorithm that is not registered is reported as an error on reading.",
  ["inputs","configurations"],
  "all byte strings and lengths, all values and placements of the compression attribute, compression on/off globally",
  "The tests compress a few friendly buffers and never damage them or check where the attribute took effect.",
  ["src/compression.rs","src/executor.rs","parcode-derive/src/lib.rs","src/rt.rs","src/visitor_impls.rs"],
  [("compressor implementations and registry","src/compression.rs"),("compression selection per chunk","src/executor.rs"),("configuration propagation to shards","src/visitor_impls.rs, src/rt.rs ConfiguredJob")],
  ["bytes, chunk flags, sizes, errors"])

p("C18","The derive macro is right for every struct it accepts",
  "For every struct the derive macro accepts, with any number, order and mix of local, chunkable, map and compressed fields, of any supported field types and names, nested structs included, the generated code writes and reads it eagerly and lazily without loss, whether it is the root, a field, a vector item or a map value.",
  ["programs","inputs"],
  "all struct definitions over the supported attributes and field types, and all their values",
  "The tests derive about a dozen structs with one or two remote fields each, in declaration orders that hide ordering mistakes.",
  ["parcode-derive/src/lib.rs","src/rt.rs","src/reader.rs"],
  [("attribute parsing","parcode-derive parse_attributes"),("visitor, job, reader, item and mirror generators","parcode-derive")],
  ["behaviour of generated programs"])

p("C19","Synchronous writes are deterministic, single-threaded and equal in size",
  "Writing the same value twice through the synchronous entry points produces identical bytes; user serialization code and the destination are used only from the calling thread; and a parallel write of the value produces a file of the same length.",
  ["inputs","schedules"],
  "all values, any thread pool surroundings, any repetition",
  "The tests write synchronously once or twice and only read the result back.",
  ["src/executor.rs","src/api.rs","src/io.rs"],
  [("serial executor","src/executor.rs execute_graph_serial"),("synchronous entry points","src/api.rs")],
  ["bytes written, thread ids observed in user code"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

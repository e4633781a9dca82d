"""The checks: how each property's monitors are built and run, and what their evidence means."""
import os
import re
import shutil
import sys


def simple(binary, args=(), flavour="dev"):
    def run(c):
        d = c.build(c.HARNESS, flavour, [binary])
        return c.run([c.job(f"{d}/{binary}", args=args)])

    return run


def c09(c):
    dev = c.build(c.HARNESS, "dev", ["c09"])
    jobs = c.run([c.job(f"{dev}/c09", "checked")])
    rel = c.build(c.HARNESS, "release", ["c09"])
    return jobs + c.run([c.job(f"{rel}/c09", "release", seed=c.seed + 7919)])


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=0"},
    "tsan": {"TSAN_OPTIONS": "allocator_may_return_null=1:exitcode=0:history_size=4:detect_deadlocks=1"},
    "msan": {"MSAN_OPTIONS": "allocator_may_return_null=1"},
}


def c08(c):
    feats = ["parallel", "lz4"]

    def warm():
        # Compiles everything for the interpreter, so that the runs below only run.
        cmd, env = c.miri(c.HARNESS, "c08", feats, ["--budget", "0", "--part", "none"])
        import subprocess

        p = subprocess.run(cmd, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise c.BuildBroken(p.stdout[-4000:])

    # And the crate without threads of its own, whose decoding is other code.
    *dirs, serial, _ = c.together(*[lambda f=f: c.build(c.HARNESS, f, ["c08"]) for f in SAN_ENV], lambda: c.build(c.HARNESS, "asan", ["c08"], ["mmap", "lz4"]), warm)
    secs = 1500 if c.thorough else 100
    jobs = []
    for f, d in zip(SAN_ENV, dirs):
        jobs.append(c.job(f"{d}/c08", f, args=["--budget", secs, "--width", 3 if c.thorough else 2], env=SAN_ENV[f], report=c.sanitizer_report))
    jobs.append(c.job(f"{serial}/c08", "asan-serial", args=["--budget", secs // 2, "--part", "Lies,Hostile,SpyFail,Abandon"], env=SAN_ENV["asan"], report=c.sanitizer_report, seed=c.seed + 4243))
    parts = ["RoundTrip,Layout", "Lies", "Hostile,Abandon", "Share", "SpyFail,WriteFail,Layout"]
    for k in range(4 if c.thorough else 1):
        for i, part in enumerate(parts):
            cmd, env = c.miri(c.HARNESS, "c08", feats, [])
            env["MIRIFLAGS"] += f" -Zmiri-seed={c.seed * 100 + k * 10 + i} -Zmiri-preemption-rate={(0.01, 0.1)[i % 2]}"
            env["RAYON_NUM_THREADS"] = "2"  # idle workers spinning for work cost the interpreter dearly
            jobs.append(c.job(cmd, f"miri-{k}-{part}", args=["--budget", secs + 10, "--part", part], env=env, report=c.sanitizer_report,
                              seed=c.seed * 1000 + k * 10 + i, cwd=c.HARNESS))
    return c.run(jobs, 8)


ZOO_RULE = ("Cases are (type, value) pairs: ~75 root types (every supported primitive, vectors, maps, derived structs with all "
            "attribute mixes, nesting) x values generated from the seed, mostly small and regularly large enough for many shards. ")



def parts(binary, n):
    """Single-threaded monitors (their ledgers are per process), several processes with different cases."""
    def run(c):
        d = c.build(c.HARNESS, "dev", [binary])
        return c.run([c.job(f"{d}/{binary}", f"part{k}", args=["--part", k]) for k in range(n)], n)

    return run


def c16(c):
    """As `parts`, and one more process with a build of the crate that decodes without threads."""
    full, serial = c.together(lambda: c.build(c.HARNESS, "dev", ["c16"]), lambda: c.build(c.HARNESS, "dev", ["c16"], ["mmap", "lz4"], jobs=4))
    jobs = [c.job(f"{full}/c16", f"part{k}", args=["--part", k]) for k in range(5)]
    return c.run(jobs + [c.job(f"{serial}/c16", "serial", args=["--part", 5])], 6)


def c15(c):
    try:
        return parts("c15", 2)(c)
    except c.BuildBroken as ex:
        # The harness shares files and lazy views between threads; a tree that forbids it breaks the property.
        m = re.search(r"error.*\n?.*cannot be (?:shared|sent) between threads safely", str(ex))
        if not m:
            raise
        c.extra_fails.append({"kind": "not shareable", "case": "build", "detail": str(ex)[:1500]})
        return []


def c14(c):
    combos = [("parallel", "mmap", "lz4"), ("parallel",), ("mmap",), ("lz4",)]
    if c.thorough:
        combos += [("parallel", "mmap"), ("parallel", "lz4"), ("mmap", "lz4"), ()]
    dirs, broken = {}, {}

    def one(f):
        # The full combination is the usual build; the others get directories of their own.
        try:
            dirs[f] = c.build(c.HARNESS, "dev", ["c14"], None if len(f) == 3 else list(f), jobs=3)
        except c.BuildBroken as ex:
            broken[f] = str(ex)

    for i in range(0, len(combos), 4):
        c.together(*[lambda f=f: one(f) for f in combos[i:i + 4]])
    if combos[0] in broken:
        raise c.BuildBroken(broken[combos[0]])
    for f, m in broken.items():
        c.extra_fails.append({"kind": "build", "case": f"features {f}", "detail": f"this combination of features no longer builds: {m[-1200:]}"})
        combos.remove(f)
    rec = os.path.join(c.work, "records")
    os.makedirs(rec, exist_ok=True)
    tag = lambda f: "+".join(f) or "none"
    emit = [(f, n) for f in combos for n in (1, 2, 64)]
    path = lambda f, n: os.path.join(rec, f"{tag(f)}@{n}.rec")
    jobs = c.run([c.job(f"{dirs[f]}/c14", name=f"write {tag(f)} on {n}", args=["--cpus", n, "--rounds", 60 if c.thorough else 6, "--emit", path(f, n)]) for f, n in emit], width=4)
    for j in jobs:
        if j.inconclusive:
            return jobs
    files = ",".join(path(f, n) for f, n in emit if os.path.exists(path(f, n)))
    jobs += c.run([c.job(f"{dirs[f]}/c14", name=f"read {tag(f)} on {n}", args=["--cpus", n, "--verify", files]) for f in combos for n in ((1, 2, 64) if c.thorough else (1, 64))], width=8)
    c.extra_counts["feature_combinations"] = len(combos)
    c.extra_counts["writer_reader_pairs"] = len(emit) * len(combos) * (3 if c.thorough else 2)
    return jobs


def c18(c):
    sys.path.insert(0, os.path.join(c.VERIF, "tools"))
    import gen_types

    # The monitors themselves first: if those do not build, that says nothing about random programs.
    c.build(c.HARNESS, "dev", ["c01"])
    crate = os.path.join(c.HARNESS, "target", "programs")
    jobs, programs, structs = [], 8, 9
    for batch in range(8 if c.thorough else 1):
        shutil.rmtree(crate, ignore_errors=True)
        gen_types.random_crate(f"{c.seed}/{batch}", programs, structs, crate)
        d = None
        try:
            d = c.build(crate, "dev", [f"p{k}" for k in range(programs)], target=c.target_dir(c.HARNESS, "dev", None), locked=False)
        except c.BuildBroken as ex:
            c.extra_fails.append({"kind": "rejected", "case": f"batch {batch}", "detail": f"valid derived structs do not compile: {str(ex)[:1500]}"})
            continue
        jobs += c.run([c.job(f"{d}/p{k}", name=f"program {batch}/{k}", args=["--program", f"{c.seed}/{batch}/{k}", "--budget", 60 if c.thorough else 14]) for k in range(programs)], 4)
        c.extra_counts["programs"] = c.extra_counts.get("programs", 0) + programs
        c.extra_counts["structs"] = c.extra_counts.get("structs", 0) + programs * structs
    return jobs


CHECKS = {
    "C01": {
        "bin": "c01", "run": simple("c01"), "level": "exploration",
        "technique": "runtime monitoring: bit-exact round-trip oracle over all write and read entry points",
        "note": "Any loss or change on the sampled values and entry points is seen, because values are compared bit by bit with the original by independent code; values not generated are not covered.",
        "rule": ZOO_RULE + "Each is written with several of 14 write entry points and read with several of 8 read entry points; plus vectors of millions of small items, maps whose keys crowd into a few of their buckets, vectors of references, and sparse files of more than 4 GiB. Distinct and "
                "non-trivial: different (type, writer, reader, sizes of every chunk), chunk tree with more than one node or non-empty payload.",
        "must": ["roundtrips", "overwrites_of_longer_files", "huge_files", "million_item_values", "crowded_maps", "reference_vectors"],
        "assumptions": ["values are compared bit by bit by code that shares nothing with the crate"],
    },
    "C02": {
        "bin": "c02", "run": simple("c02"), "level": "exploration",
        "technique": "runtime monitoring: online oracle comparing every lazy observation with the saved value",
        "note": "Every accessor of the lazy API is exercised at boundary and random positions on each sampled file and compared with the original value.",
        "rule": ZOO_RULE + "Each file's lazy view is walked recursively and every observation compared with the original. Distinct: (type, chunk sizes).",
        "must": ["lazy_gets", "lazy_items_iterated", "lazy_structs"],
        "assumptions": [],
    },
    "C03": {
        "bin": "c03", "run": simple("c03"), "level": "exploration",
        "technique": "runtime monitoring: lookup oracle over present and absent keys with adversarial hashes",
        "note": "All stored keys (sampled in large maps) and absent keys are looked up in maps around every bucket-count boundary and with forced hash collisions.",
        "rule": "Maps of several key and value types, sharded and blob, sizes around every bucket boundary, with constant, colliding and spread "
                "key hashes, up to over two million entries in the most buckets there are; every key present and sampled absent keys are looked up. Distinct: (type, size, key distribution).",
        "must": ["map_hits", "map_misses", "giant_maps", "giant_queries"],
        "assumptions": [],
    },
    "C04": {
        "bin": "c04", "run": simple("c04"), "level": "exploration",
        "technique": "runtime monitoring: offline conformance checker (independent V4 decoder) over written files",
        "note": "Every byte of each written file is accounted for by an independent decoder; trusts the transcription of the documented format.",
        "rule": ZOO_RULE + "Each written file is decoded by an independent decoder and compared chunk by chunk with the documented shape; plus vectors of millions of small items and sparse files of more than 4 GiB. "
                "Distinct: (type, compression, entry point, chunk sizes).",
        "must": ["files_parsed", "huge_files", "million_item_values"],
        "assumptions": ["the reference decoder (harness/src/refdec.rs) transcribes the documentation in src/format.rs and docs correctly"],
    },
    "C05": {
        "bin": "c05", "run": simple("c05"), "level": "exploration",
        "technique": "runtime monitoring: differential oracle over files from an independent encoder",
        "note": "Layout freedom (shard runs, buckets, order, gaps, compression) is sampled at random per file and cross-checked by the reference decoder.",
        "rule": ZOO_RULE + "Each value is laid out by the reference encoder twice with random shard splits, bucket counts, chunk order, gaps and "
                "compression; plus more than 65 536 shards or buckets, and chunks beyond 4 GiB of unused bytes. Distinct: (type, chunk sizes, layout).",
        "must": ["files_encoded", "shards_encoded", "wide_layouts", "far_files"],
        "assumptions": ["the reference encoder only produces conforming files (cross-checked with the reference decoder on every file)"],
    },
    "C06": {
        "bin": "c06", "run": simple("c06"), "level": "exploration",
        "technique": "runtime monitoring: schedule perturbation with offline chunk-tree equivalence and exactly-once checker",
        "note": "Schedules are perturbed and sampled, not enumerated; each observed output is judged exactly against the synchronous one.",
        "rule": "Parallel writes of arbitrary task graphs through the public job interface and of values with identity-carrying items, with chunks from a few bytes to megabytes and nodes with up to 140 000 children, in pools of 1-16 threads, the global pool and nested joins, with injected "
                "delays and slow destinations. Distinct: (type, chunk tree, order of chunks in the file), the order being the visible trace of the schedule.",
        "must": ["parallel_writes", "jobs_counted", "graphs_written", "contended_writes", "very_wide_graphs"],
        "assumptions": ["schedules are sampled, not enumerated"],
    },
    "C07": {
        "bin": "c07", "run": simple("c07"), "level": "fault_enumeration",
        "technique": "runtime monitoring: fault injection at destination and serializer with online protocol monitor and hang watchdog",
        "note": "One injected fault per run at every byte, call and flush for small values and sampled for larger ones; hangs are decided by absence of progress.",
        "rule": "One fault plan per write: destination error/zero write/panic at a byte, call or flush, transient or permanent, short and interrupted "
                "writes, failing or panicking user serialization by identity or from the n-th call on, plus real full disks, size limits (over older, complete files too), bad paths and "
                "vanishing peers. Distinct: (type, fault, error kind, entry point, progress at the fault).",
        "must": ["writes_ok", "writes_failed", "writes_panicked", "destination_faults_write", "destination_faults_flush", "leftovers_refused", "system_faults", "failed_overwrites", "passing_zero_writes"],
        "assumptions": ["hangs are decided by absence of progress (all threads asleep, or CPU time without events), not by a deadline"],
    },
    "C08": {
        "bin": "c08", "run": c08, "level": "exploration",
        "technique": "runtime monitoring: AddressSanitizer, ThreadSanitizer, MemorySanitizer and the Miri interpreter over successful, failing, abandoned, concurrent and hostile use",
        "note": "Undefined behaviour on the executed paths is decided by four independent instruments; paths and interleavings not executed are not covered. mmap is outside the interpreter (sanitizers cover it).",
        "rule": "Eight workloads (round trips, foreign layouts, containers that lie about their sizes, damaged files, shared files with a writer at work, "
                "user decoding failing or panicking at a random item, abandoned iterators and lazy views, failing writes) over ~27 structurally different types under "
                "each instrument; the hostile and failing ones also on the build without threads, under AddressSanitizer. Distinct: (workload, type, file bytes).",
        "must": ["hostile_files", "decode_panics", "decode_errors", "shared_files", "abandoned_walks", "writes_failed", "mapped_files", "multi_shard_files"],
        "assumptions": ["ThreadSanitizer reports whose both accesses lie inside crossbeam's work-stealing queue are not counted (fences it does not model)",
                        "hostile files use types without String (known finding of C09: bincode allocates a declared length)"],
    },
    "C09": {
        "bin": "c09", "run": c09, "level": "exploration",
        "technique": "runtime monitoring: structure-aware hostile files in supervised worker processes with panic, abort, memory-cap and hang monitors",
        "note": "Millions of damaged files per run through the whole reading API in checked and in release builds; arbitrary bytes are sampled, not enumerated. Out-of-bounds reads that do not crash are C08's sanitizers' part.",
        "rule": "Well-formed files of ~67 types (written, or laid out by the reference encoder) taken apart, edited in 1-5 places (counts, run tables, bucket tables, "
                "offsets, child references incl. cycles and wraps, flags, payload bytes, trailer) and reassembled; raw damage; files of other types. Each is loaded, "
                "explored, iterated, looked up, inspected and navigated. Distinct: (type, file bytes), counted in a 4M-slot table (a lower bound).",
        "must": ["files_accepted", "structured_edits", "raw_damage", "wrong_types", "mapped_files"],
        "assumptions": ["a file of at most 60 KB that needs over 256 MiB at once, 6 GiB in total, or 40 s and again 80 s of processor time, exhausts resources",
                        "recursive types and items of zero bytes are outside the property (a hostile count or depth is then a legitimate huge value)"],
    },
    "C10": {
        "bin": "c10", "run": simple("c10"), "level": "fault_enumeration",
        "technique": "runtime monitoring: refusal oracle over every prefix and trailer damage, and over files left by processes killed at a chosen byte",
        "note": "All strict prefixes of small files (structural and sampled cuts of larger ones), all versions, damaged magic, roots outside the file and real kills in the middle of a save; contents that embed a complete trailer of their own are outside the property.",
        "rule": "Files of ~75 types from all writers and from the reference encoder; cut at every byte, zero-filled from random bytes, padded and continued after their end, with each magic byte damaged, every version number, "
                "root references outside the file; foreign formats and non-files; and saves killed by SIGXFSZ at a random byte over nothing, a shorter or a longer file. Nine entry points. "
                "Distinct: (type, file bytes) plus (value, kill point, entry point, what was there before).",
        "must": ["prefixes", "versions", "roots_outside", "killed_while_writing", "refused_at_first_read", "all_versions", "longer_files"],
        "assumptions": ["contents do not themselves contain a complete trailer at the cut (the format has no checksum to tell)"],
    },
    "C11": {
        "bin": "c11", "run": parts("c11", 7), "level": "exploration",
        "technique": "runtime monitoring: page-fault tracer over the mapped file and poisoning of every byte an operation has no business with",
        "note": "Two independent monitors per operation: pages of the file really touched (mapping made inaccessible, faults recorded) and invariance of the result when all other bytes are garbage; the entitled bytes come from an independent decoder.",
        "rule": "Large documents (scalar vectors, vectors and maps of structs with remote fields, nested remote structs, blobs, compression) laid out by the writer or with every chunk on pages of its own; "
                "pages the kernel is asked to fetch (populating maps, advice, locks) counting as touched; single operations and short histories of all lazy accessors at first, last and random positions, on mapped files and on the caller's buffer. "
                "Distinct: (operation, pages touched, bytes entitled to).",
        "must": ["operations_traced", "pages_touched", "poison_runs", "files_mapped", "files_in_memory", "chunk_aligned_files", "shard_bounds"],
        "assumptions": ["page granularity: a stray read within a page that holds entitled bytes is seen only by poisoning, if it changes the result, or in page-aligned layouts",
                        "reads through system calls are seen as a total per operation"],
    },
    "C12": {
        "bin": "c12", "run": parts("c12", 5), "level": "exploration",
        "technique": "runtime monitoring: live-instance ledger and counting allocator read at every step of every traversal",
        "note": "After and within every single step the number of live items and of live heap bytes is compared with what the item's shard holds (known from an independent decoder) plus what the caller keeps.",
        "rule": "Collections of 15 item types (scalars, strings, structs with nested remote collections and maps, identity-carrying items) in 1-400 shards, written by the crate or laid out by the reference encoder, "
                "compressed or not, mapped or in memory; promise.iter, node.iter and iter_lazy; whole traversals and early stops; the caller keeps none, the last few, some or all items. "
                "Distinct: (type, way, stop, length, shards, weight of the largest shard).",
        "must": ["steps", "full_traversals", "early_stops", "telling_by_bytes", "telling_by_items", "mapped", "in_memory", "compressed_chunks"],
        "assumptions": ["heap bound: three times the largest shard (items, stored and restored payloads, 256 bytes per chunk) plus 256 bytes per shard, eight times the run table, and 96 KiB"],
    },
    "C13": {
        "bin": "c13", "run": simple("c13"), "level": "exploration",
        "technique": "runtime monitoring: every inspection report compared field by field with an independent decoder's view of the file",
        "note": "Millions of chunks per run, both from the crate's writers and from arbitrary foreign layouts; the rendered and the serialized report are compared too.",
        "rule": ZOO_RULE + "Each written by a random writer or laid out by the reference encoder, plus arbitrary task graphs of up to 400 nodes and chunks labelled with algorithms of the future; "
                "inspected through two of six entry points, rendered and serialized. Distinct: (type, file bytes).",
        "must": ["reports", "chunks_compared", "lines_compared", "vec_containers", "map_containers", "other_nodes", "leaves", "foreign_layouts", "graphs", "unknown_algorithms", "far_files"],
        "assumptions": ["chunks carry no type: local data that is byte for byte a consistent run table or bucket count for its number of children counts as one"],
    },
    "C14": {
        "bin": "c14", "run": c14, "level": "exploration",
        "technique": "runtime monitoring: cross-build differential runs, every build and processor count reading what every other wrote, judged against the original values and an independent decoder",
        "note": "Quick: four feature combinations covering every pair of settings; thorough: all eight. The values are regenerated from the seed in the reading process, so nothing but the file passes between builds.",
        "rule": ZOO_RULE + "Written by each build on 1, 2 and all processors through a random entry point (with and without compression), read by each build on 1 and all processors through two entry points, lazily, "
                "chunk by chunk and by the inspector, plus foreign layouts, prefixes and a file with strings of up to 40 MiB. Distinct: (type, reading build, writing build, processors, file bytes).",
        "must": ["feature_combinations", "writer_reader_pairs", "files_read", "values_read", "lz4_files", "refused_without_lz4", "chunks_refused", "chunks_restored", "values_laid_out_differently", "foreign_layouts", "prefixes", "large_files"],
        "assumptions": ["processor counts are set by affinity; other machines (byte order, 32 bits) are not available here"],
    },
    "C15": {
        "bin": "c15", "run": c15, "level": "exploration",
        "technique": "runtime monitoring: concurrent histories over shared files and views in nested pools, every operation judged by its own sequential oracle, with a hang watchdog",
        "note": "Reads of immutable files commute with everything, so each operation is compared with what it returns alone; ThreadSanitizer runs over the same kind of sharing are part of C08.",
        "rule": "Rounds of 2-12 threads, each doing 2-6 of 18 kinds of operations (loads, fresh reads, lazy walks, one lazy view shared by several threads, iterators moved between threads, bursts of short queries of a few chunks, queries of twin files that differ only in payloads, inspection, navigation, "
                "writes, failing and panicking writes, decoding that panics at one item, values whose items use the library themselves, wrong types, truncated files) on 1-3 shared files of one type, directly, inside pools of 1-7 threads or side by side in one pool, with delays in user code. "
                "Distinct: (operation, kinds of operations under way when it began), (type, threads, file sizes).",
        "must": ["rounds", "operations", "overlapping_operations", "in_pool", "side_by_side", "chunks_navigated", "short_queries", "nested_uses", "small_rounds", "large_rounds", "panicking_reads", "twin_sets", "twin_queries", "twins_over_each_other"],
        "assumptions": ["hangs are decided by absence of progress (all threads asleep, or CPU time without finished operations), not by a deadline"],
    },
    "C16": {
        "bin": "c16", "run": c16, "level": "fault_enumeration",
        "technique": "runtime monitoring: identity ledger (created, alive, dropped) and counting allocator around every operation, with a failure or panic injected at each item",
        "note": "Every instance of the identity-carrying item types is followed individually; decoding is made to fail and to panic at every item of small values and at sampled items of larger ones, serially and in pools.",
        "rule": "15 value shapes of identity-carrying items (structs, nested vectors, maps with colliding keys, blobs, recursive trees) in files of any layout; loads through 8 entry points, lazy walks, failing and panicking decoding, "
                "containers that lie about their contents, damaged files, failing and panicking writes; one process of six runs on the build that decodes without threads; repeated operations, and failing writes of more than the writer's buffer, must not grow the heap. Distinct: (type, failing item, mode, file), (file), (value, writer).",
        "must": ["balances", "decode_errors", "decode_panics", "lying_files_that_created_items", "writes_failed", "leak_checks", "large_leak_checks", "multi_shard_files", "mapped_files", "failing_walks"],
        "assumptions": ["one injected fault at a time: user code that panics while another panic unwinds ends the process"],
    },
    "C17": {
        "bin": "c17", "run": parts("c17", 4), "level": "exploration",
        "technique": "runtime monitoring: compressors driven against an independent LZ4 codec with a damage oracle, and chunk-by-chunk comparison of files written with and without compression",
        "note": "Every chunk of every file is compared with its uncompressed twin and with where compression was asked for; damaged blocks must be refused or restore exactly what they declare.",
        "rule": ZOO_RULE + "Each value is written by two random writers, one of them compressing; plus byte strings of seven textures up to 300 KB (3 MB) through both compressors and both codecs, "
                "twelve damaged variants of each, random registries of user compressors, random task graphs asking for any algorithm, and chunks relabelled with algorithms nobody registered. "
                "Distinct: (compressor, data), registries, (type, chunk contents).",
        "must": ["compressions", "damaged_inputs", "damage_refused", "shrunk", "registry_lookups", "graphs", "files_compared", "compressed_chunks", "unknown_algorithm_refused", "shrinking_files"],
        "assumptions": ["an LZ4 block carries no checksum: damage that yields another well-formed block of the declared size cannot be told"],
    },
    "C18": {
        "run": c18, "level": "exploration",
        "technique": "runtime monitoring: random derived programs run under round-trip, lazy-view, file-shape and foreign-layout oracles",
        "note": "Programs are generated at random from the seed (order, mix, names, visibility, spelling and nesting of fields); each is compiled against the tree and judged by the oracles of C01, C02, C04 and C05 on its own types.",
        "rule": "Random programs of 9 structs each with 0-40 fields of random types, attributes and names (those of the generated code's variables included), in modules and through macros, "
                "using each other; each as root, vector item and map value. Distinct: (program, type, chunk sizes).",
        "must": ["programs", "lazy_structs", "foreign_layouts"],
        "assumptions": ["values are compared field by field by code generated from the same description as the struct, not from the struct"],
    },
    "C19": {
        "bin": "c19", "run": parts("c19", 4), "level": "exploration",
        "technique": "runtime monitoring: byte-equality oracle over repeated synchronous writes, with thread recorders in user serialization, visitor and job code and in the destination",
        "note": "Every entry into user code and every use of the destination is recorded with its thread; bytes are compared exactly between repetitions, entry points and surroundings.",
        "rule": ZOO_RULE + "Plus identity-carrying items, keys with user-written hashing and arbitrary task graphs through the public job interface. Each value is written synchronously 2-5 times (four entry points; "
                "own thread, fresh thread, pool worker; short writes; delays; parallel writers at work meanwhile) and twice in parallel for its length. Distinct: (type, file length).",
        "must": ["sync_writes", "repetitions", "user_code_entries", "parallel_lengths", "probe_graphs", "in_pool"],
        "assumptions": ["the same value: one object, since two equal hash maps may iterate in different orders"],
    },
}

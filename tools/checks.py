import os

# One entry per property with a check. `units` are compiled against /repo's working tree.
SCHED = dict(
    flags=["-O1", "-fsanitize=thread"],
    extra=[dict(src="mc/sched/vs_rt.cpp", flags=["-O2"])],
    linkflags=["-Wl,--wrap=munmap", "-rdynamic"],
)
SCHED_TRUST = (
    "scheduling points are all atomics, mutexes, condition variables, thread start/join, futures and pauses; "
    "plain accesses between them are checked for data races with vector clocks on every schedule, so the "
    "enumeration under sequential consistency is sound for race-free code; weak-memory reorderings of "
    "relaxed atomics are not modelled; scheduler and race detector in mc/sched are trusted"
)
SHIM = ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "shim")]
ASAN2 = ["-O2", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"]
ASAN = ["-O1", "-g1", "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]

CHECKS = {
    "C01": dict(
        units=[dict(src="pool.cpp", **SCHED)],
        technique="stateless model checking of the real pool under a controlled scheduler (preemption-bounded, state-cached)",
        note="exhaustive over schedules within the preemption bound for the listed drivers; " + SCHED_TRUST,
        bounds=dict(
            quick="all schedules with <=2 preemptions (1 for 3 participants) of assign/run/resize/move/shutdown/destroy drivers, 1-3 participants, spin 1-2, free preemption at blocking points, spurious wake-ups",
            thorough="as quick with one more preemption",
        ),
    ),
    "C02": dict(
        units=[dict(src="pool_fail.cpp", **SCHED)],
        technique="stateless model checking of the real pool under a controlled scheduler, all failing subsets of participants",
        note="exhaustive over schedules within the preemption bound and over all failing subsets and exception kinds; " + SCHED_TRUST,
        bounds=dict(
            quick="pool sizes 1-4, every subset of failing participants, std and non-std exceptions, empty and ordinary messages, two jobs in sequence, <=1-2 preemptions",
            thorough="as quick with one more preemption",
        ),
    ),
    "C03": dict(
        units=[dict(src="partition.cpp", **SCHED)],
        technique="exhaustive enumeration of range lengths, team sizes, grains and worker orders on the real partition code",
        note="every case of the bounded domain is executed on the real thunks and compared with a set of visited indices; dynamic schedules under the controlled scheduler: " + SCHED_TRUST,
        bounds=dict(quick="see counters: range lengths x team sizes x grains x claim orders", thorough="larger ranges and teams"),
    ),
    "C04": dict(
        units=[dict(src="locks.cpp", **SCHED)],
        technique="stateless model checking of the real lock and shared-value code under a controlled scheduler with race detection",
        note="exhaustive over schedules within the preemption bound; " + SCHED_TRUST,
        bounds=dict(quick="2-3 threads, <=3 operations each, <=3 preemptions", thorough="one more preemption"),
    ),
    "C05": dict(
        units=[dict(src="concurrent.cpp", **SCHED)],
        technique="stateless model checking of the real builder, pool and indexes under a controlled scheduler with race detection",
        note="exhaustive over schedules within the preemption bound for the listed drivers; " + SCHED_TRUST,
        bounds=dict(
            quick="2-3 workers; one batch over 3-5 points (4 shapes, 3 degree bounds, <=3 preemptions), reversal of every 3-node graph and of stars, two-bucket overflow, edge collection, whole constructions (first schedule only), batch searches, callers sharing an index, parameters changed during searches, dynamic add/delete/consolidate/compact/search (<=1 preemption)",
            thorough="as quick with one more preemption",
        ),
    ),
    "C06": dict(
        units=[dict(src="search_buffer.cpp", flags=ASAN2)],
        technique="exhaustive enumeration of operation histories on the real buffer against a reference list",
        note="every history of the alphabet up to the depth is executed on the real buffer; ids beyond the alphabet are not explored",
        bounds=dict(
            quick="all histories of <=7 operations (6 ids with ties, next, clear; <=6 with resizes), capacities 1..4, windows 1..capacity, both orders; filter histories of 3 operations over 10 colliding keys; runs of up to 40 equal distances, every entry inserted again after every insertion",
            thorough="as quick with histories of <=9 (7 with resizes) operations and filter histories of 4",
        ),
        assumptions=["an identifier always comes with the same distance within one search"],
    ),
    "C07": dict(
        units=[dict(src="mutable_buffer.cpp", flags=ASAN2)],
        technique="exhaustive enumeration of operation histories on the real buffer against a reference list",
        note="every history of the alphabet up to the depth is executed on the real buffer for all liveness masks; ids beyond the alphabet are not explored",
        bounds=dict(
            quick="all histories of <=6 operations, 7 liveness masks, capacities 1..3, targets 1..capacity, both orders; floods of up to 66000 deleted candidates; capacities to 65535",
            thorough="as quick with histories of <=8 operations",
        ),
        assumptions=["liveness of an identifier does not change within one search"],
    ),
    "C08": dict(
        units=[dict(src="traversal.cpp", flags=["-O2", "-D_GLIBCXX_ASSERTIONS"])],
        technique="exhaustive enumeration of small graphs, data, queries and search settings on the real greedy search against a reference traversal",
        note="every case of the bounded domain is executed on the real search with the real buffers, filter and prefetch settings; graphs larger than the bound are not explored",
        bounds=dict(quick="see counters: all directed graphs on few nodes x entry points x windows x capacities x filter and prefetch settings x metrics", thorough="one more node, more settings"),
    ),
    "C09": dict(
        units=[dict(src="batch.cpp", flags=["-O2", "-D_GLIBCXX_ASSERTIONS"])],
        technique="exhaustive enumeration of small indexes, query batches and parameter histories on the real index against reference answers",
        note="every case of the bounded domain is executed on the real static index; single-worker runs of the dynamic index are covered by C12; the controlled schedules of several workers by C05",
        bounds=dict(quick="see counters: datasets and graphs on few nodes x batches x k x windows x capacities x thread counts x parameter-change histories x metrics x element types", thorough="more points, longer histories"),
    ),
    "C10": dict(
        units=[dict(src="prune.cpp", flags=["-O2", "-D_GLIBCXX_ASSERTIONS"])],
        technique="exhaustive enumeration of candidate lists and slacks on the real pruning code against a reference pruning",
        note="every case of the bounded domain is executed on both real pruning strategies",
        bounds=dict(quick="see counters: all point tuples of a small grid x degrees x slacks x metrics x earlier output contents", thorough="larger point sets"),
    ),
    "C11": dict(
        units=[dict(src="build.cpp", flags=["-O2", "-D_GLIBCXX_ASSERTIONS"])],
        technique="exhaustive enumeration of small datasets, entry points and build parameters on the real builder with structural and reachability checks on every built graph",
        note="every case of the bounded domain is built with the real builder (twice) and, for a part, through the public build and save functions; schedules of several workers are covered by C05",
        bounds=dict(
            quick="every tuple of <=5 points of a 5-6 point grid x 8 parameter sets x every entry point (n<=4) x L2/IP/cosine; every split into two construction ranges; 7-150 points in 6 shapes, 3 element types",
            thorough="tuples of 6 points and all parameter sets",
        ),
    ),
    "C12": dict(
        units=[dict(src="dynamic.cpp", flags=["-O2"]), dict(src="repair.cpp", flags=["-O2"])],
        technique="exhaustive enumeration of operation histories on the real dynamic index against a reference set; of graphs, deletions and batch sizes on the real consolidation",
        note="every history of the alphabet up to the depth is executed on the real index, histories reaching the same complete state (slots, graph, vectors, identifiers) are continued once; identifiers outside the alphabets are not explored",
        bounds=dict(
            quick="6 identifiers, batches of 1-3 additions, 1-all deletions, consolidate, compact(1/1000): all histories of <=5 operations (4 configurations), <=4 (2) and <=2 (1, two workers), 3 metrics, block sizes 1-4; full invariant, graph and search comparison after every operation; consolidation of all graphs on 3-4 nodes x every set of deleted nodes x batch sizes x degrees x slacks; all histories of 2-3 bulk operations (7 kinds) on 1203 and 2001 points with 1-3 workers, crossing the built-in batch and block sizes",
            thorough="two more operations; bulk histories of 4",
        ),
    ),
    "C13": dict(
        units=[dict(src="dynamic.cpp", tag="refuse", flags=["-O2", "-DPROP=13"])],
        technique="exhaustive enumeration of refused requests after every operation history on the real dynamic index, compared with the untouched index",
        note="every refused request of the alphabet in every state reached by histories up to the depth, each followed by every valid operation; results compared with an index that never saw the request",
        bounds=dict(quick="histories of <=3 operations, 4-14 refused requests, every following operation, 3 configurations", thorough="histories of <=4 operations"),
    ),
    "C14": dict(
        units=[dict(src="translator.cpp", flags=ASAN2)],
        technique="exhaustive enumeration of operation histories on the real identifier map against a reference bijection",
        note="every history of the alphabet up to the depth is executed on the real map, including refused operations and save/load round trips",
        bounds=dict(quick="see counters: all histories of insertions, removals and remappings over few identifiers and slots", thorough="one more operation"),
        assumptions=["identifiers and slots fit the 32/64-bit types of the map"],
    ),
    "C15": dict(
        units=[dict(src="flat.cpp", flags=ASAN2)],
        technique="exhaustive enumeration of insertion sequences, small datasets, batches, filters and batch sizes on the real flat index against exact answers",
        note="every case of the bounded domain is executed on the real index and the real top-k structures",
        bounds=dict(
            quick="all sequences of <=6 insertions of 4-5 values, k<=5; all tuples of <=4 of 5 points x k x data and query batch sizes x every filter x 3 metrics; every data batch size for 37-257 points; 1-8 threads; 100k-200k points with the default batch",
            thorough="sequences of <=8 insertions, tuples of 5 points",
        ),
    ),
    "C18": dict(
        units=[dict(src="containers.cpp", flags=ASAN)],
        technique="exhaustive enumeration of operation histories, compactions, views and assignments on the real containers against plain lists",
        note="every history of the alphabet up to the depth is executed on the real containers under AddressSanitizer; larger containers only through address arithmetic",
        bounds=dict(
            quick="contiguous and blocked (1, 2, 4 per block), 6 element types/extents: all histories of <=3 operations (set, resize to 0-9, shrink, copy/move, compact) from 3-6 sizes, each followed by a rewrite of every place; every increasing list over <=8 vectors x every batch size x 1-3 workers; every view list of <=3 positions, valid or not; arrays of rank 1-4 with lengths <=4; 7 assignment forms x 4 allocator policies; failed allocations",
            thorough="histories of <=4 operations, lists over 10 vectors",
        ),
        assumptions=["compaction lists are strictly increasing, as documented by the code's assertion"],
    ),
    "C19": dict(
        units=[dict(src="graph.cpp", flags=ASAN)],
        technique="exhaustive enumeration of the contents and operation histories of small graphs on the real graph classes against lists of lists",
        note="every reachable content of the small graphs with every operation on it, and every history up to the depth, is executed on the real classes under AddressSanitizer",
        bounds=dict(
            quick="0-3 nodes, degree limits 0-3: every content x every operation (edges to every node and one beyond, every replacement list up to limit+1, clear, reset, resize); all histories of <=4 (2 nodes) and <=3 (3-4 nodes) operations; 4 index widths, 3 layouts; lists up to 2 beyond limits 0-127; equality of every pair of 7^3 graphs",
            thorough="one more operation",
        ),
    ),
    "C20": dict(
        units=[dict(src="distance.cpp", tag=t, flags=["-O2", f"-DPAIRS={i}"], variants=["v2", "v3", "v4novnni", "v4"], thorough_variants=[[], [], ["v2"]][i] + ([] if i == 1 else ["v4novnni"])) for i, t in enumerate(["float", "same", "mixed"])],
        technique="exhaustive enumeration of lengths, coordinate positions, 8/16-bit values and type pairs on the real kernels of every instruction set against the definition in double precision",
        note="every case of the bounded domain is executed on the real functions between inaccessible pages, for four instruction-set levels (those with AVX-512 only where the processor has it)",
        bounds=dict(
            quick="16 type pairs x 3 metrics x lengths 1-145 and 11 longer ones (to 960), run-time and (6-21) compile-time lengths, both mixed; every coordinate alone; all 8-bit pairs, every finite half against 16 partners; NaN and infinity at every place of 1-140 coordinates; all values of a fixed grid for ordering",
            thorough="every length to 300 and 15 longer ones to 4095",
        ),
        assumptions=["lengths for which sums of 8-bit products fit 32 bits (below 33025)"],
    ),
    "C21": dict(
        units=[dict(src="convert.cpp", flags=["-O2"], variants=["v2", "v3", "v4", "v4novnni"], thorough_variants=["v4novnni"])],
        technique="exhaustive enumeration of all half- and single-precision bit patterns and of integer values on the real conversions against exact arithmetic",
        note="every bit pattern is converted with the instructions and the software path of each instruction set; 32- and 64-bit integers and doubles only around powers of two, rounding and range boundaries",
        bounds=dict(
            quick="all 65536 halves, all 2^32 singles, checked narrowing among 11 types (8/16-bit types completely, others at +-3 around every power of two and 1.5 times it, and -70000..70000), size helpers over grids; 3 instruction sets",
            thorough="as quick, one more instruction set",
        ),
    ),
    "C27": dict(
        units=[dict(src="names.cpp", flags=["-O1"])],
        technique="exhaustive enumeration of texts over small alphabets and of values on the real parsers and printers against independent parsers",
        note="every text of the bounded alphabet and every bounded value goes through the real parser and printer",
        bounds=dict(
            quick="see counters: version texts over a small alphabet up to length 7, all single-character damages of identifier texts, every data type and distance name with every one-character damage, every typed pointer against every type",
            thorough="same",
        ),
    ),
    "C30": dict(
        units=[dict(src="recall.cpp", flags=ASAN2)],
        technique="exhaustive enumeration of small result and ground-truth tables on the real recall function against set intersection",
        note="every pair of tables of the bounded domain is evaluated by the real functions",
        bounds=dict(
            quick="see counters: all rows of <=3-4 identifiers over small sets (with values that collide modulo 2^32), every k and n, every mixture of identifier types and argument kinds",
            thorough="same",
        ),
    ),
    "C28": dict(
        units=[dict(src="dispatch.cpp", flags=["-O1"])],
        technique="exhaustive enumeration of registration orders, match-score tables and argument values on the real dispatcher against the documented selection rule",
        note="every registration sequence and score table of the bounded domain is dispatched by the real code",
        bounds=dict(
            quick="1 argument: all sequences of <=4 of 4 targets x all tables of 7 scores (13 without repeats); 2 arguments: <=3 of 3 targets x 4 scores, 4 targets x 3 scores; 3 arguments: <=3 of 3 targets x 3-4 scores; variants of 3 alternatives by value/reference x all pairs of 7 support masks x 16 scores; all lists of <=4 extents, loaders, all subsets of 11 element types; 120 orders of a mixed dispatcher",
            thorough="repeated registrations and more scores",
        ),
    ),
    "C26": dict(
        units=[dict(src="saving.cpp", flags=["-O1"])],
        technique="exhaustive enumeration of boundary values, texts, damaged objects and schema/version pairs on the real saving and loading code",
        note="every value and object of the bounded domain is written and read by the real code, in memory and through the file",
        bounds=dict(
            quick="8/16-bit integers completely, wider ones at +-3 around all powers of two, read as 8 types; floats/doubles: all exponents x 96-212 mantissas; all texts of <=2 bytes and of 3 of 22 symbols; 15 kinds x 15 readers; 8 schemas x 60 versions x 2 acceptors; 7 parameter objects with every entry removed, retyped (13 ways) and set to 11 values; legacy versions; every prefix of a description",
            thorough="texts of 4 symbols",
        ),
    ),
    "C25": dict(
        units=[dict(src="files.cpp", flags=ASAN)],
        technique="exhaustive enumeration of file shapes, element types, limits, cuts, extensions and header alterations on the real readers and writers, against a plain encoder and decoder of the formats",
        note="every listed file is written to disk and read by the real readers under address and undefined-behaviour sanitizers; the decoder in the harness is trusted",
        bounds=dict(
            quick="4 formats x 9 element types x n<=4 x d<=9 x 3 value patterns, read as every element type with every limit; cuts at every byte (headers: every byte up to 80, then every 64th), 20 extensions, every header byte set to 11 values, 144 header sizes; every pair of element types x ~30 boundary values written",
            thorough="n<=12, d<=17, cuts at every byte, two more element types for damage",
        ),
    ),
    "C24": dict(
        units=[dict(src="damage.cpp", flags=ASAN)],
        technique="exhaustive fault injection into saved state: every cut, replacement and alteration of description entries, and every interruption point of a save recorded from the real writes",
        note="every damaged state is written to disk and loaded by the real loaders under address and undefined-behaviour sanitizers; the record of writes is validated by replaying it completely and comparing the loaded object",
        bounds=dict(
            quick="49 objects (datasets of 4 element types, graphs, maps, blobs, 4 parameter kinds, clusterings, whole static and dynamic indexes) of <=4 entries, up to 3 loaders each; every file cut at every byte, lengthened, removed, a directory, replaced by each other kind; every description entry removed, retyped, set to ~13-45 values; every object as every other kind; parts of different indexes mixed; every prefix of every write of a save (into an empty directory; over another dataset or graph) and every combination of 9 states per file",
            thorough="larger datasets, 2 more element types, all pairs of saves",
        ),
    ),
    "C22": dict(
        units=[
            dict(src="roundtrip.cpp", tag="f", flags=["-O0", "-DPART=0"]),
            dict(src="roundtrip.cpp", tag="i", flags=["-O0", "-DPART=1"]),
            dict(src="roundtrip.cpp", tag="w", flags=["-O0", "-DPART=2"]),
            dict(src="roundtrip.cpp", tag="g", flags=ASAN + ["-DPART=3"]),
            dict(
                src="save_names.cpp",
                flags=["-O1", "-fsanitize=thread"],
                extra=[dict(src="mc/sched/vs_rt.cpp", flags=["-O2"])],
                linkflags=["-Wl,--wrap=munmap", "-rdynamic"],
            ),
        ],
        technique="exhaustive enumeration of save/load pairs (source layout x destination layout x type x shape), bundles of objects, file renamings and identifier maps on the real code",
        note="every case saves with the real code, reloads through every loader and compares bit by bit with the content as plain rows; wrong types and dimensions must be refused",
        bounds=dict(quick="11 element types, n in {0,1,2,3,5}, d in 13 values up to 129, 9 sources x 26 loaders, all bundles of <=3 of 6 kinds with all file permutations, all injections of <=4 identifiers, all sequences of <=4 requests for file names written at once or later, up to 3 threads asking under all schedules (3 preemptions)", thorough="n in 11 values, d in 1..72 and 12 more, bundles of <=4, injections of <=6"),
    ),
    "C16": dict(
        units=[dict(src="clusters.cpp", tag="cluster", flags=["-O1", "-DPROP=16"])],
        technique="exhaustive enumeration of hand-made clusterings under every size limit and of centroid sets of small datasets under a parameter grid, on the real code against a reference assignment",
        note="every case runs the real clustering code; where distances tie or meet a bound within rounding only the invariants are checked, otherwise the exact assignment",
        bounds=dict(quick="all clusterings of <=3 centroids (and 4 with 3 leaves) with <=4-6 leaves in any nonempty subset of clusters, all limits; 6 datasets of 5-6 points, every nonempty set of centroids x 66 parameter settings x 2 metrics x 1-2 threads", thorough="one more leaf, datasets of 7-8 points"),
    ),
    "C17": dict(
        units=[dict(src="clusters.cpp", tag="search", flags=["-O1", "-DPROP=17"])],
        technique="exhaustive enumeration of centroid sets, search settings and queries on the real inverted index against the reference list of probed clusters",
        note="the clusters that a search may probe are computed from an identically built primary index; clusters exactly on the bound may be probed or not",
        bounds=dict(quick="6 datasets of 5-6 points, every nonempty set of centroids (also unsorted) x 3 clusterings x 2 metrics x 2 storage strategies x 16 search settings x 3 result sizes x 4-5 queries, batches and singles, 1 and 3 threads", thorough="datasets of 7-8 points"),
    ),
    "C23": dict(
        units=[dict(src="reload.cpp", tag="dyn", flags=["-O1", "-DPART=0"]), dict(src="reload.cpp", tag="static", flags=["-O1", "-DPART=1"])],
        technique="exhaustive enumeration of update histories with a save after every prefix; original, saved and reloaded index explored in lockstep with a model",
        note="every history of the alphabet up to the depth runs on the real index; the reloaded index continues with every enabled operation and must agree with the model and the original",
        bounds=dict(quick="dynamic: histories of <=3 operations (alphabet of adds, deletes, consolidation, compaction), 4 configurations; static: 6 element/metric combinations x parameters; inverted: 4 sizes x 3 centroid shares x slack x replicas x limits x 2 strategies", thorough="histories of <=4 operations"),
    ),
    "C29": dict(
        units=[dict(src="calibrate.cpp", flags=["-O0"])],
        technique="exhaustive enumeration of recall tables and of run-time tables (under a virtual clock) on the real calibration code",
        note="the calibration code runs behind a stand-in index with every monotone recall table of the bounded size and under a clock that advances as the enumerated run times say; real indexes bind the stand-in to the code",
        bounds=dict(quick="all monotone tables for windows <=5 and capacities <=7, all option combinations, 4 limits, 3 presets, reranking or not; all tables of three run times for lookahead <=8 (one step) and <=4 (two steps); static, dynamic and type-erased indexes of 12 and 30 points", thorough="windows <=6, lookahead <=9 and <=5, 60 points"),
    ),
    "C31": dict(
        units=[dict(src="centres.cpp", flags=["-O1"])],
        technique="exhaustive enumeration of small datasets, selections, worker counts and summation settings, and of small k-means trainings, on the real code against exact arithmetic and a plain re-computation of every mini-batch",
        note="every case runs the real code; where two centroids are equally near the re-computation stops and only the invariants are checked",
        bounds=dict(
            quick="all datasets of <=3 vectors of 1-2 coordinates (4 of one) of a 4-letter alphabet with every selection, 3 element types, 60 settings in turn; lengths up to 33 with all settings (workers 1-7); coordinates up to 3e38; all training sets of <=4 points of 2 alphabets with 0..n+2 clusters x batch 1..n+1 x 0-3 epochs x 3-12 seeds; 6 sizes up to 513 x 4 batch sizes; random selections of k of n",
            thorough="4 vectors of 2 coordinates, 2 of 3, 6 of 1; lengths up to 80; training sets of <=5 points",
        ),
    ),
    "C32": dict(
        units=[
            dict(src="memory.cpp", flags=["-O1", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS"], linkflags=["-Wl,--wrap=mmap,--wrap=munmap,--wrap=open,--wrap=close,--wrap=lseek,--wrap=write"]),
            dict(
                src="memory_sched.cpp",
                flags=["-O1", "-fsanitize=thread"],
                extra=[dict(src="mc/sched/vs_rt.cpp", flags=["-O2"])],
                linkflags=["-Wl,--wrap=munmap", "-rdynamic"],
            ),
        ],
        technique="exhaustive enumeration of allocation, container and mapping histories on a stand-in kernel with every combination of refused calls, and of all schedules of concurrent allocations under a controlled scheduler",
        note="the real allocators, containers and mapper run; mmap, munmap, open, close, lseek, write and operator new are replaced at link time by versions that account for every byte and refuse as enumerated; released mappings become inaccessible",
        bounds=dict(
            quick="hugepage allocator: all histories of 4 operations over 4 sizes, forced or not, 12 refusal points; 2 operations over 13 boundary sizes (up to the whole address space), ordinary memory refused at each of the first 12 allocations; 3 container kinds x histories of 3 operations on 2 objects x 6 refusal points; 9 ordinary allocators; per-thread values of 1-9 threads resized to 0-9; 2 permissions x 3 policies x 8 file states x 9 lengths x 5 refusal points; mapping pointers: all histories of 4 of 14 operations; schedules of 2-3 threads x 330 programs with <=3 preemptions",
            thorough="container histories of 4, mapping histories of 5, 4 preemptions",
        ),
    ),
    "C33": dict(
        units=[
            dict(src="erased.cpp", tag="static", flags=["-O0", "-DPART=0"]),
            dict(src="erased.cpp", tag="dynamic", flags=["-O0", "-DPART=1"]),
            dict(src="erased.cpp", tag="rest", flags=["-O0", "-DPART=2"]),
        ],
        technique="exhaustive enumeration of operation histories, query types, parameter settings and reconfigurations: a concrete index and a type-erased one holding its identical twin are driven in lockstep and compared bit by bit",
        note="the concrete index is the reference; operations and query types outside the supported ones must be refused by the type-erased index and leave it unchanged",
        bounds=dict(quick="static: 4 element types x 3 metrics x 3 sizes x 3 lists of query types, 11 query types, 10+ parameter settings x 2-3 result sizes; dynamic: all histories of 3 operations out of 10 incl. refused ones; flat and inverted indexes, 12 pointer types against each other", thorough="8-9 sizes, histories of 4 operations, both kinds of search history"),
    ),
    "C34": dict(
        units=[dict(src="lvq.cpp", tag="codes", flags=["-O1", "-DPART=0"] + SHIM)]
        + [dict(src="lvq.cpp", tag=f"kinds{g}", flags=["-O1", "-DPART=1", f"-DGROUP={g}"] + SHIM) for g in (0, 1)]
        + [dict(src="lvq.cpp", tag=f"data{g}", flags=["-O1", "-DPART=2", f"-DGROUP={g}"] + SHIM) for g in (0, 1, 2)]
        + [dict(src="lvq.cpp", tag=f"index{g}", flags=["-O1", "-DPART=3", f"-DGROUP={g}"] + SHIM) for g in (0, 1, 2, 3)],
        technique="exhaustive enumeration of codes, lengths, arrangements, placements at the edge of mapped memory, operations on compressed datasets and update histories of indexes over them, on the real code against plain arithmetic on the codes",
        note="the EVE vector library is absent; a lane-by-lane stand-in for its operations is part of the trusted base",
        bounds=dict(quick="widths 3-8 signed and unsigned, sequential and turbo, lengths to 49 and beyond, every code in every place; 9 kinds of datasets x sizes <=4 x dimensions to 40; indexes of <=9 vectors, all histories of 2-3 of 7 operations", thorough="lengths to 200, histories of 4 operations"),
    ),
}

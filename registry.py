"""Which scenarios decide which property.

runs: list of (harness, scenario, build variants)."""
FS = ("fast", "san")
F = ("fast",)
S = ("san",)


def mc(runs, note, technique=None, assumptions=()):
    return dict(level="model_checking", runs=runs, note=note,
                technique=technique or "exhaustive bounded exploration of the real code against a reference model",
                assumptions=list(assumptions))


PROPS = {}
PROPS["F01"] = mc(
    [("fst", "fst_step", FS), ("fst", "fst_history", FS)],
    "Every map of the bounded key range x every operation and parameter, and all histories to a depth, on the real "
    "code, compared key by key with a plain array; keys and values outside the small domain are not explored.")
PROPS["F02"] = mc(
    [("fst", "fst_step", F), ("fst", "fst_raw_history", FS), ("fst", "fst_history", F)],
    "As F01, with every hint and with tree builds interleaved; tree search is compared with the reference after every "
    "operation whenever the tree claims to be valid.")
PROPS["F03"] = mc(
    [("fst", "fst_step", F), ("fst", "fst_history", FS)],
    "As F01; leaves, segments, both iteration directions and equality (against independently built equal and minimally "
    "different trees) are compared with the canonical form computed from the reference.")

SEG = [("segtree", "seg_step", FS), ("segtree", "seg_multi", FS), ("segtree", "seg_keys", FS), ("segtree", "seg_history", FS)]
PROPS["S01"] = mc(
    SEG, "All segment sequences over a small key range, built or not, x every operation, and all two-tree histories to a "
    "depth; every stabbing query (also outside the range) is compared with a scan of the stored list.")
PROPS["S02"] = mc(
    SEG, "As S01; after every operation size, emptiness, boundary keys, all queries of both objects, and equality with "
    "independently built equal and minimally different trees are compared with the stored list.")

QUAD = [("quad", "quad_history", FS), ("quad", "quad_wide", FS), ("quad", "quad_shape", FS), ("quad", "quad_pair", FS)]
PROPS["Q01"] = mc(
    QUAD, "All insert/overwrite/remove histories over small coordinate grids up to a depth (pruned by tree structure), all "
    "insertion orders of fixed point sets with every removal sequence, and two-tree histories; every point and every "
    "search rectangle of the grid and its surroundings is queried and compared with a std::map.")
PROPS["Q02"] = mc(
    QUAD, "As Q01; after every operation the tree is walked from its root, every point must lie in the quadrant each "
    "ancestor dictates and be reached once, equality is compared with independently built trees, and every execution "
    "must release all nodes and values.")

RT = [("rtree", "rt_points", FS), ("rtree", "rt_bin", FS), ("rtree", "rt_24", FS), ("rtree", "rt_24n", FS),
      ("rtree", "rt_37", FS), ("rtree", "rt_history", FS), ("rtree", "rt_bulk", FS)]
RTP = [("rtree", "rt_pair", FS)]
PROPS["R01"] = mc(
    RT, "Base trees of every size up to a bound in four extent patterns (inserted, bulk loaded, copied) x every operation "
    "sequence x three draining orders, all histories from the empty tree, and bulk loads of every size, for five node "
    "capacity/dimension/reinsertion settings; searches of both kinds with boxes and points on stored, touching and "
    "distant extents are compared with a linear scan.")
PROPS["R02"] = mc(
    RT + RTP, "As R01; after every operation the node structure is read back from the textual export and walk(): equal value "
    "depth, capacity limits, tight extents and parent links (check_integrity), at every intermediate tree of every drain.")
PROPS["R03"] = mc(
    RTP + RT, "All two-tree histories of copy, move, assign, self-assign, swap, clear, bulk load, insert and erase; both trees "
    "are compared with their own reference after every operation, with counted values (copyable, move-only, copy-only) "
    "that must all be released.")

TS = [("trie", "trie_sets", FS), ("trie", "trie_deep", FS), ("trie", "trie_chain", FS)]
TH = [("trieh", "trie_history", FS), ("trieh", "trie_history3", FS)]
TP = [("trieh", "trie_pair", FS)]
PROPS["T01"] = mc(
    TH + TS + TP, "Every subset of all keys up to a length over small alphabets (including zero and negative units and the empty "
    "key) and all insert/overwrite/erase/clear histories over them, and two-trie histories, for string, u16string, vector "
    "and minimal key types; every key and prefix up to one unit longer is looked up and compared with a std::map.")
PROPS["T02"] = mc(
    TS + TH, "As T01; full iteration, every prefix search, and iteration from every found key are walked forward and backward "
    "from every position and compared with the reference order; results are also copied, moved and assigned.")
PROPS["T03"] = mc(
    TS + TP + [("triew", "trie_width", FS)],
    "Every key set packed by all routes (trie, moved values, sorted entries, copies, moves, assignment) and read back key by "
    "key and node by node; sizes 0..n in four shapes for 8/16/32/64-bit units with acceptance decided from the layout.")
PROPS["T04"] = mc(
    [("tries", "trie_state", FS), ("tries", "trie_long", FS)],
    "Every key set x five value types x unit widths: round trips, every truncation and three kinds of damage of every byte, and "
    "values of lengths around powers of two; "
    "the receiving trie must be equal or the load must fail and leave it unchanged.")

PROPS["M01"] = mc(
    [("ssmap", s, FS) for s in ("ss_sets", "ss_values", "ss_sizes", "ss_constexpr")],
    "Every table over all strings of length <= 2 of two alphabets, every assignment of shared values to a small table, and "
    "every table size up to a bound x every query (each overload, exact and longer buffers) x every value, for five value "
    "types and both key finders, against a std::map.")


def both(h, scen, var):
    """the same scenario for both layouts"""
    return [(f"{h}s", f"soa_{scen}", var), (f"{h}a", f"aos_{scen}", var)]


MSTEP = both("mtv", "step", FS) + both("mtv", "steps", FS)
MHIST = both("mtv", "step3", F) + both("mtv", "history", FS)
MPAIR = both("mtvp", "pair", FS) + both("mtvp", "pairs", FS)
MPAIR3 = both("mtvp", "pair3", FS)
MCOPY = both("mtvp", "copy", FS) + both("mtvp", "clone", FS)
PROPS["V01"] = mc(
    MSTEP + MHIST,
    "Every shape over {empty, int, string, managed object} up to a length x every operation with every position, length, "
    "type and hint, all sequences of two operations, and all histories from the empty container; types, values, lookups "
    "and block structure are compared with a plain array after every operation. Both layouts.")
PROPS["V02"] = mc(
    MPAIR + MPAIR3,
    "Every pair of shapes x every source range x every destination position (also out of range), with every hint, and all "
    "sequences of two such operations in both directions; both containers are compared with plain arrays.")
PROPS["V03"] = mc(
    both("mtvp", "position", FS) + both("mtv", "step", F) + both("mtv", "steps", F) + both("mtvp", "pair", F) + both("mtvr", "huge", FS),
    "After every operation of V01/V02 the block iteration in all four directions, the returned iterator (stepped to both "
    "ends) and all lookups are compared with the run decomposition of the array; every stepping distance over every shape, "
    "and containers beyond 32-bit positions.")
PROPS["V04"] = mc(
    both("mtv", "step", FS) + both("mtvp", "pair", F) + both("mtvr", "range", FS) + both("mtvp", "position", F),
    "Every hint (each block and the end) of every hinted operation on every shape; the outcome must be that of the array, "
    "which does not depend on the hint.")
PROPS["V05"] = mc(
    MSTEP + MPAIR + MCOPY + both("mtv", "history", F),
    "Managed objects are counted and poisoned on destruction; after every operation of V01, V02 and V14 the objects alive "
    "are exactly those the arrays hold plus those released to the caller, whose values are read.")
PROPS["V06"] = mc(
    MSTEP + MPAIR + MCOPY + both("mtv", "history", F),
    "A ledger of acquired and released blocks, per event handler, is compared with the blocks the containers expose after "
    "every operation of V01, V02 and V14; handlers read the block they are told about.")
PROPS["V12"] = mc(
    both("mtvr", "range", FS) + both("mtv", "step", F) + both("mtvp", "pair", F) + both("mtvr", "huge", F),
    "Every operation, with every hint, at positions around the boundaries of the container, of 32-bit and of the size "
    "type; the array decides whether it must throw, and all containers must be unchanged when it does.")
PROPS["V14"] = mc(
    MCOPY + both("mtvp", "copy2", FS) + both("mtvp", "equal", FS) + both("mtvp", "equal_nc", FS) + both("mtvp", "construct", FS),
    "Every shape (and destination shape) x twelve ways of copying, cloning, moving, assigning and swapping, then every "
    "operation on either side; equality of all pairs of contents up to a length; every constructor.")

LU = ["none", "lu4", "lu8", "lu16", "lu32"]
SSE = ["sse2_x64", "sse2_x64_lu4", "sse2_x64_lu8", "sse2_x64_lu16"]
AVX = ["avx2_x64", "avx2_x64_lu4", "avx2_x64_lu8"]
PROPS["V15"] = mc(
    [("mtvls", "soa_lu_" + f, FS if f == "lu8" else F) for f in LU] + [("mtvla", "aos_lu_" + f, FS if f == "lu8" else F) for f in LU] +
    [("mtvle", "soa_" + f, FS) for f in SSE] + [("mtvlx", "soa_" + f, FS) for f in AVX] +
    [("mtvlo", "soa_omp_" + f, F) for f in LU + SSE] + [("mtvlp", "aos_omp_" + f, F) for f in LU],
    "Containers of every number of blocks up to more than twice the largest stride x every block-moving operation at every "
    "position, for every factor (plain, SSE2, AVX2) and, with OpenMP, for several teams whose parts run in different orders; "
    "block positions, lookups and values are compared with a plain array. AVX2 only on machines that have it.")

PROPS["D01"] = mc(
    [("ddv", s, FS) for s in ("ddv_int", "ddv_string", "ddv_bool", "ddv_two", "ddv_two_int", "ddv_deep")],
    "All histories of one vector, of two vectors, and longer histories of pushes and removals at the front; after every "
    "operation size, elements, both iteration directions, bounds-checked access, data() and equality are compared with a "
    "std::vector.")

PROPS["V13"] = mc(
    [("mtvx", s, FS) for s in ("soa_policy_copy", "soa_policy_copy2", "soa_policy_clone", "soa_policy_value", "soa_policy_equal",
                               "soa_policy_step")],
    "The standard algorithms are overloaded for a policy whose order of processing is chosen by the explorer (every "
    "permutation of up to four blocks or elements, function objects copied per element); contents, block structure, "
    "equality, events and object counts are compared with a plain array.")

STORE = ["step", "steps", "history", "pair", "copy"]
PROPS["V16"] = mc(
    [("mtvt%s%s" % (st[0], l[0]), "%s_%s_store_%s" % (l, st, sc), FS if (st, l) in (("vec", "aos"), ("deq", "soa"), ("bool", "aos")) else F)
     for st in ("vec", "deq", "bool") for l in ("soa", "aos") for sc in STORE],
    "The explorations of V01, V02 and V14 at smaller bounds with std::vector, std::deque and boolean/double/byte stores in both "
    "layouts (the delayed-delete store is that of V01); after every operation every accessor of every block (iteration in "
    "all directions, ranges, at, data, writes through the block) is compared with a plain array.")

PROPS["V07"] = mc(
    [("cow", s, FS) for s in ("cow_step", "cow_step_nc", "cow_history", "cow_history_nc")],
    "Three containers share blocks in every way (copied, assigned, cloned); every operation of V01 with every parameter on one "
    "of them and every history of copies, moves, swaps, mutations, transfers, releases and destructions, in every order of "
    "final destruction; all three are compared with deep-copied arrays, all objects and events are accounted for.")

PROPS["V11"] = mc(
    [("coll", f"{l}_coll_{s}", FS) for l in ("soa", "aos") for s in ("ranges", "history", "construct")],
    "Every collection of up to three vectors with every pattern of four element types x every element and collection range x "
    "three ways of stepping, every invalid range around the borders (also of the size type), all short histories of two "
    "collections and their vectors, and all lists of vector lengths; compared with the grid of types and values.")

PROPS["X01"] = mc(
    [("mtm", "mtm_" + s, FS) for s in ("step", "steps", "own", "access", "pair", "history")],
    "Every matrix of up to a number of cells with every pattern of five types x every operation with every parameter, two "
    "operations in a row, all pairs for copying, and all short histories of two matrices; all cells, typed reads, positions, "
    "predicates and equality are compared with a plain two-dimensional array.")
PROPS["X02"] = mc(
    [("mtm", "mtm_" + s, FS) for s in ("walk", "walk_two", "walk_own")],
    "Every matrix and pair of matrices (same and different sizes) with every pattern of types x every window, also one and more "
    "past the borders; the cells delivered are compared in order, type and value with the array.")
PROPS["V08"] = mc(
    [("alloc", s, FS) for s in ("soa_alloc", "soa_alloc_nc", "soa_alloc_vec", "soa_alloc_deq", "soa_alloc_ncdeq")]
    + [("allocaos", s, FS) for s in ("aos_alloc", "aos_alloc_nc", "aos_alloc_vec", "aos_alloc_deq")]
    + [("allocmtm", "mtm_alloc", FS)]
    + [("alloccow", s, FS) for s in ("cow_alloc", "cow_alloc_nc", "cow_alloc_deq", "cow_alloc_ncdeq")],
    "every shape (and, with copy-on-write, every way of sharing it) x every copying / cloning / assigning / detaching operation x every allocation "
    "of it made to fail in turn (operator new of the harness throws); the world is rebuilt for each, compared with the reference afterwards, used again and destroyed",
)

PROPS["V09"] = mc(
    [("schedcow", s, F) for s in ("cow_first_use", "cow_threads2", "cow_threads2x2", "cow_threads3")],
    "The real code, compiled with the compiler's thread instrumentation, runs under a scheduler of its own: every order of the "
    "atomic operations of two and three threads (up to a preemption bound; without one for two threads with one operation) x "
    "shapes x ways of sharing x operations; vector clocks decide every pair of accesses for data races, freed memory is kept "
    "and watched, and contents, block structure, events, objects and allocations are compared with independent arrays.")

PROPS["V10"] = mc(
    [("schedro", s, F) for s in ("readers2", "readers3", "readers2x2")],
    "The real code, compiled with the compiler's thread instrumentation, runs under a scheduler of its own: containers of every "
    "kind, built and never modified, read through const references by two or three threads: every pair and triple of their "
    "reading operations (and every two after each other in both of two threads), each in a fresh process so that anything done "
    "once is done in the threads; every order of the atomic operations up to a preemption bound; vector clocks decide every pair of "
    "accesses for data races, and every answer is compared with the one the same operation gives alone.")

import json
I="include/mdds/"
MTV=I+"multi_type_vector/"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=state
    P.append(d)
FST=[I+"flat_segment_tree.hpp",I+"flat_segment_tree_def.inl"]
p("F01","Flat segment tree is a total key-to-value map under every history",
"After any history of segment insertions (from the front, from the back, or at a position hint), left and right shifts, clears, copies, moves, assignments and swaps, the flat segment tree maps every key of its range to exactly the value a plain per-key array receives from the same history, and every key outside the range is reported as not found. Segment bounds reported by a lookup are the maximal run of that value around the key, clipped to the range.",
["histories","inputs"],"All histories of mutating operations on the tree and all keys, including keys on, before and beyond the range ends and segments that are partly or wholly outside the range.",
"The unit tests replay a few dozen hand-written sequences; the defect classes (an off-by-one at a boundary leaf, a merge that swallows a neighbour, a shift that drops the last node) only show for particular combinations of existing boundaries and new segment ends.",
FST,[("segment insertion, forward and backward","flat_segment_tree_def.inl insert_to_pos / insert_segment_impl"),("shift operations","flat_segment_tree_def.inl shift_left / shift_right / shift_leaf_key_*"),("linear lookup","flat_segment_tree_def.inl search_impl")],["search","begin/end iteration"])
p("F02","FST tree search equals leaf search and position hints never change results",
"Whenever the tree is valid, a tree search of any key returns the same found/not-found answer, value and segment bounds as a linear leaf search, also after further histories in which the tree is rebuilt, copied, moved or swapped; after any mutation that changes the map the tree is never reported as valid while stale. Supplying any position hint, including the end position or one taken from elsewhere in the container, never changes what a search or an insertion does.",
["histories","inputs"],"All histories interleaving mutations, tree builds, copies/moves/swaps with searches of all keys, and all position hints.",
"Tests compare the two searches on a couple of trees and never vary the hint exhaustively; staleness needs a particular mutate-after-build sequence.",
FST+[I+"node.hpp"],[("balanced tree over the leaves","node.hpp tree_builder / connect_node"),("tree descent","flat_segment_tree_def.inl search_tree_for_leaf_node"),("validity flag","flat_segment_tree.hpp is_tree_valid / m_valid_tree")],["search_tree","search","is_tree_valid"])
p("F03","FST segments stay canonical, and iteration and equality reflect the map",
"After any history the iterated leaves are strictly increasing keys from the range start to the range end with no two neighbouring segments of equal value; forward, reverse and segment iteration describe the same segments. Two flat segment trees compare equal exactly when they have the same range and map every key to the same value, whatever histories produced them.",
["histories","inputs"],"All pairs of histories that do or do not produce the same map.",
"Canonical form is a global invariant over all histories; tests assert a few end states and equality of a few hand-made pairs.",
FST+[I+"flat_segment_tree_itr.hpp"],[("neighbour merging","flat_segment_tree_def.inl insert_to_pos / append_new_segment / shift_leaf_key_left"),("equality","flat_segment_tree_def.inl operator==")],["begin","end","rbegin","rend","begin_segment","operator=="])
ST=[I+"segment_tree.hpp",I+"segment_tree_def.inl",I+"node.hpp"]
p("S01","Stabbing queries on the segment tree return exactly the covering segments",
"For any collection of inserted segments (duplicates, nested, touching, overlapping) and any key, a search of the built tree yields every inserted segment whose half-open interval contains the key exactly once per insertion, and nothing else. Empty or inverted segments are never stored, and a tree that has been changed since it was last built is not reported as valid.",
["inputs","histories"],"All multisets of segments over a bounded key domain, all insertion orders and insert/erase/build/clear histories, and all query keys.",
"The covering-node marking has many shape-dependent cases; tests cover a handful of fixed segment sets.",
ST,[("marking of covering nodes","segment_tree_def.inl build_tree / descend_tree_and_mark"),("query descent","segment_tree_def.inl search / node.hpp descend_tree"),("balanced tree construction","node.hpp tree_builder")],["search","valid_tree"])
p("S02","Segment tree erasure, copies, moves and equality follow the stored segments",
"Conditional erasure removes exactly the segments satisfying the predicate; size, emptiness and boundary keys always describe the stored segments. A copy, move or swap transfers exactly the contents and answers the same queries without affecting or being affected by the other object, and two trees in the same built state are equal exactly when they store the same multiset of segments with values, in whatever order these were inserted.",
["histories","inputs"],"All pairs of segment multisets and all histories of insert, erase, build, copy, move, swap, clear.",
"Multiset equality is a relation over all pairs (symmetry, duplicates); tests compare a few pairs.",
ST,[("equality","segment_tree_def.inl operator=="),("erase_if","segment_tree_def.inl erase_if"),("special members","segment_tree_def.inl")],["operator==","size","boundary_keys","erase_if"])
QT=[I+"point_quad_tree.hpp",I+"quad_node.hpp"]
p("Q01","Point quad tree is an exact map from points to values",
"After any history of insertions, overwrites, removals, clears, copies, moves, assignments and swaps, an exact lookup finds precisely the points a plain map would hold with the latest value, and throws or reports not-found for every other point. A region search returns exactly the stored points inside the closed search rectangle, each once, and the reported size matches.",
["histories","inputs"],"All insertion/removal histories over small grids (all insertion orders, removal of root, inner and leaf nodes) and all query points and rectangles.",
"Removal re-inserts orphaned quadrants in a shape-dependent way; tests remove from a few fixed trees.",
QT,[("quadrant descent and insertion","point_quad_tree.hpp insert_node / insert"),("removal and re-insertion","point_quad_tree.hpp remove / find_replacement_node / adjust_quad / set_new_root"),("region search","point_quad_tree.hpp search_region_node")],["insert","remove","find","search_region","size"])
p("Q02","Quad tree structure, node traversal and value semantics stay consistent",
"Walking the tree from its root by quadrant reaches every stored point exactly once, each in the quadrant its coordinates dictate relative to every ancestor, and no node reachable from the root is its own ancestor. Copies are equal and independent, equality is by stored points and values, self-assignment changes nothing, and no node is leaked or freed twice.",
["histories","inputs"],"All histories up to a bound including self-assignment, moved-from reuse and removal of every kind of node.",
"Structural damage after removal only surfaces in later operations; tests do not inspect the structure.",
QT,[("copying of the node graph","point_quad_tree.hpp copy constructor / insert_data_from"),("reference counted nodes","quad_node.hpp intrusive_ptr"),("equality","point_quad_tree.hpp operator==")],["get_node_access","operator==","copy/move/swap"])
RT=[I+"rtree.hpp",I+"rtree_def.inl"]
p("R01","R-tree searches agree with brute force after any insert and erase history",
"After any history of insertions, erasures, clears and bulk loads, a search for overlap or for exact match with any box or point returns exactly the stored objects a linear scan would select, each once with its value, extent and depth, for mutable and immutable searches alike. Size, emptiness, walking and the root extent describe the same set of objects.",
["histories","inputs","configurations"],"All histories over small integer grids with node capacities small enough to force splits, forced reinsertion and underflow; all search boxes.",
"Splits, reinsertion and node dissolution depend on the exact history; tests run a few scripted ones.",
RT,[("insertion with split and forced reinsertion","rtree_def.inl insert / split_node / perform_forced_reinsertion"),("erasure","rtree_def.inl erase_impl / shrink_tree_upward / dissolve"),("search","rtree_def.inl search_descend")],["search","erase","walk","size","extent"])
p("R02","R-tree nodes keep tight extents, capacity limits and equal leaf depth",
"After any history of insertions, erasures and bulk loads every directory's extent is exactly the bounding box of its children, no directory holds more than the maximum number of children, every non-root directory of a tree built by insertions and erasures holds at least the minimum (a bulk load may underfill some), all values sit at the same depth, and the built-in integrity check accepts the tree.",
["histories","inputs","configurations"],"All histories over small grids and small node capacities, including erasing the last child of a directory and loads of every size.",
"A loose or wrong extent is invisible to most searches; the integrity check is only run on a few fixed trees.",
RT,[("tight packing","rtree_def.inl node_store::pack / pack_upward"),("integrity check","rtree_def.inl check_integrity"),("bulk loading","rtree_def.inl bulk_loader::pack_level / pack")],["check_integrity","walk","extent"])
p("R03","R-tree copies, clones, moves and bulk loads preserve contents independently",
"A copied or moved tree answers every query as its source did, shares nothing mutable with it, and leaves a moved-from tree empty and usable; a bulk-loaded tree holds exactly the loaded objects. Destroying any of them in any order releases every stored value exactly once, including for values that can only be moved or only be copied.",
["histories","inputs"],"All small trees, all special-member operations followed by further mutation of either side, all load sizes.",
"Tests copy or move a few trees and check a few queries afterwards.",
RT,[("special members","rtree_def.inl rtree(const rtree&) / rtree(rtree&&) / clone / swap"),("bulk loader","rtree_def.inl bulk_loader")],["copy, move, clone, swap","bulk_loader"])
p("M01","Sorted string map finds exactly its keys and round-trips values to keys",
"For every sorted entry table and every query string (given as view, pointer or length-limited buffer, with shared prefixes, embedded length limits, empty strings), a lookup returns the entry's value when the string equals a key and the null value otherwise. A reverse lookup returns a key stored for the value and an empty view when there is none, and size is the number of entries.",
["inputs","configurations"],"All sorted tables over a small alphabet of short keys, all key counts including one, all query strings and prefixes, and both key-finder strategies.",
"Tests check a few tables; binary search end points, prefix comparisons and the hash/linear reverse finders have corner cases tied to table size.",
[I+"sorted_string_map.hpp",I+"sorted_string_map_def.inl"],[("binary search over entries","sorted_string_map_def.inl find"),("reverse finders","sorted_string_map.hpp linear_key_finder / hash_key_finder")],["find","find_key","size"])
TR=[I+"trie_map.hpp",I+"trie_map_def.inl",I+"trie_map_itr.hpp"]
p("T01","Trie map behaves as an ordered map from keys to values under any history",
"After any history of insertions, overwrites, erasures, clears, copies, moves and swaps the trie holds exactly the keys and latest values a plain ordered map would hold, finds exactly those keys (never a proper prefix or extension of a query), and reports the right size and erase results. Keys may be empty, be prefixes of each other and contain any unit value.",
["histories","inputs"],"All histories over all keys of bounded length on a small alphabet (including the zero unit and units with the high bit set), all queries.",
"Tests use fixed word lists; prefix relations between query and keys, erasing an inner key and the empty key are only partly covered.",
TR,[("insertion and lookup","trie_map_def.inl insert_into_tree / find_prefix_node"),("erase with pruning","trie_map_def.inl erase / find_prefix_node_with_stack")],["insert","find","erase","size"])
p("T02","Trie iteration visits every key in order in both directions, also for prefixes",
"Iterating the trie or its packed form from begin to end yields every key once in ascending unit order with its value, and iterating backwards from any position yields exactly the reverse. A prefix search yields exactly the keys that start with the prefix, in the same order, and an iterator returned by a lookup continues the iteration from that key in both directions.",
["inputs","histories"],"All key sets over bounded keys, all start positions, all prefixes, and all back-and-forth walks of bounded length.",
"Only some shapes are walked in tests, mostly forwards; backward stepping from inner nodes depends on the position of siblings.",
TR,[("iterator stepping","trie_map_itr.hpp iterator_base increment / decrement"),("prefix ranges","trie_map_itr.hpp search_results / packed_search_results")],["begin","end","prefix_search","find","operator++","operator--"])
p("T03","A packed trie answers every query as the source it was packed from",
"For every key set, the packed trie, whether packed from a trie or constructed from sorted entries, and for every supported offset-unit width that accepts it, finds the same keys with the same values, yields the same iteration and prefix searches and the same size as the source; a packing that does not fit its width is refused, not corrupted. Copies, moves, swaps and equality of packed tries follow the contents.",
["inputs","configurations"],"All key sets over bounded keys, both construction routes, all offset-unit widths.",
"Index encoding depends on trie shape; tests pack a few word lists.",
TR,[("packing","trie_map_def.inl pack / compact_node / push_child_offsets"),("child lookup","trie_map_def.inl find_prefix_node"),("construction from entries","trie_map_def.inl traverse_range / traverse_buffer")],["packed_trie_map::find, begin, prefix_search, operator=="])
p("T04","Saved trie state loads back identically and damaged input is rejected safely",
"Loading a saved state reproduces an equal packed trie for every key set and value type supported by the serializers. Loading any truncated stream, or one whose header or value section was damaged detectably, ends with an exception in bounded time and leaves the receiving trie as it was.",
["inputs","crash_points","fault_sequences"],"All key sets over bounded keys with fixed- and variable-size values; all truncation points of the saved stream; all single-byte header corruptions.",
"Tests round-trip a few tries and never feed short or damaged streams.",
TR,[("state writer and reader","trie_map_def.inl save_state / load_state"),("value serializers","trie_map_def.inl numeric_value_serializer / variable_value_serializer")],["save_state","load_state"])
S=[MTV+"soa/main.hpp",MTV+"soa/main_def.inl",MTV+"aos/main.hpp",MTV+"aos/main_def.inl",MTV+"types.hpp",MTV+"block_funcs.hpp"]
MTVH=[I+"multi_type_vector.hpp"]
p("V01","Multi-type vector contents follow a plain array under every operation history",
"After any history of set, range set, push_back, emplace_back, insert, insert_empty, set_empty, erase, resize, release and clear with elements of mixed types, every position holds exactly the type and value a plain array of variants holds after the same history, and size is the array's length. This holds for both storage layouts.",
["histories","inputs","configurations"],"All container shapes up to a bound times all operations, positions, lengths and types, and operation sequences to a depth; both layouts.",
"Each mutator has a dozen branches chosen by how the target range meets existing block boundaries and neighbour types; tests hit them by hand-picked examples.",
S,[("single-cell set","soa/main_def.inl, aos/main_def.inl set_impl / set_cell_to_*"),("range set","soa/main_def.inl set_cells_*"),("insert, erase, set_empty","soa/main_def.inl insert_cells_impl / erase_impl / set_empty_impl")],["get","get_type","size","is_empty","iteration"])
p("V02","Transfer and swap between containers move exactly the requested ranges",
"Transferring a range moves exactly those elements to the destination position and leaves the source range empty; swapping ranges exchanges exactly the two ranges, for every combination of block boundaries on both sides; all other elements of both containers are untouched. Managed elements keep a single owner throughout.",
["inputs","histories","configurations"],"All pairs of container shapes up to a bound times all source ranges and destination positions; both layouts.",
"The two-container code paths multiply both sides' boundary cases; tests cover a few dozen pairs.",
S,[("transfer","soa/main_def.inl transfer_impl / transfer_single_block / transfer_multi_blocks"),("swap","soa/main_def.inl swap_impl / swap_single_block / swap_single_to_multi_blocks / swap_multi_to_multi_blocks")],["transfer","swap"])
p("V03","Blocks stay canonical, and iterators and positions describe the contents",
"After any operation the block iteration is the canonical run decomposition of the contents: blocks are non-empty, contiguous, cover the whole container, and neighbours differ in type; forward, reverse and const iteration agree. The iterator a mutating call returns designates the block holding the affected position, position lookups resolve every index to its block and offset, and stepping positions by any distance lands on the corresponding index.",
["histories","inputs","configurations"],"All shapes up to a bound, all operations, all positions and step distances; both layouts.",
"A missed merge with a neighbour or a stale position array only appears for particular neighbourhoods; tests assert block counts in selected cases.",
S+[MTV+"soa/iterator.hpp",MTV+"aos/iterator.hpp",MTV+"util.hpp"],[("block merging","soa/main_def.inl merge_with_adjacent_blocks / append_to_prev_block / merge_with_next_block"),("position adjustment","soa/block_util.hpp, aos/block_util.hpp adjust_block_positions"),("position stepping","soa/main_def.inl advance_position / next_position")],["begin/end/rbegin/rend","position","next_position","advance_position","block_size"])
p("V04","Position hints never change the outcome of a multi-type vector operation",
"Every operation that accepts a position hint leaves the container in the same state, returns the same block and raises the same exceptions for every valid iterator of the container passed as hint, including the end iterator and hints behind the target position, as the variant without a hint.",
["inputs","configurations"],"All shapes up to a bound, all hinted operations, all valid hint iterators including end; both layouts.",
"A wrong forward scan start only matters for particular hint/target block relations; tests use hints in a few sequences, always well-placed ones.",
S,[("hinted lookup","soa/main_def.inl, aos/main_def.inl get_block_position(const iterator&, size_type)")],["set/insert/set_empty/transfer/position with hint"])
p("V05","Managed elements have exactly one owner and are destroyed exactly once",
"Every pointer handed to a managed element block is owned by exactly one container until it is released, transferred, overwritten, erased or the container is destroyed or cleared, and is destroyed exactly once, never while still reachable and never leaked. Released elements are never destroyed by the container, and copying a container of managed elements clones each of them.",
["histories","inputs","configurations"],"All histories up to a bound over containers mixing managed and plain elements: set, overwrite, insert, erase, resize, clear, release variants, transfer, swap, clone, move; both layouts.",
"A double delete or leak needs the particular branch in which a block is split, partially overwritten or moved; tests only sample these.",
S,[("managed element blocks","types.hpp managed_element_block / base_element_block overwrite_values / resize"),("release operations","soa/main_def.inl release / release_range / release_impl")],["release","release_range","set","erase","destructor"])
p("V06","Block acquire and release events pair up with the blocks the container owns",
"For every history, each element block the container comes to own triggers exactly one acquired notification and each block it gives up or destroys exactly one released notification, for that very block and while it is accessible; hence at any time the blocks acquired but not released are exactly those the container holds, and none remain after destruction.",
["histories","inputs","configurations"],"All shapes times all operations (including two-container operations, copy, move, clear, destruction) in both layouts.",
"Tests count events for a few operations; every branch that creates, splits, merges or transfers a block must notify.",
S,[("event handler calls","soa/main_def.inl, aos/main_def.inl m_hdl_event.element_block_acquired / element_block_released")],["event_func callbacks"])
p("V07","Copy-on-write copies behave as deep copies",
"With copy-on-write enabled, after any history of copies, assignments, mutations through either side, reads, swaps, transfers and destructions, every container holds exactly the elements it would hold had every copy been deep; a mutation is never visible through another container, and a block still shared is never freed or modified.",
["histories","inputs"],"All histories up to a bound over a family of two or three containers sharing blocks.",
"Sharing state (owner, borrower, last borrower) depends on the copy/destroy/mutate order; tests exercise some orders.",
[MTV+"soa/main.hpp",MTV+"soa/main_def.inl",MTV+"soa/block_util.hpp",MTV+"types.hpp"],[("sharing of blocks","soa/block_util.hpp / soa/main_def.inl share and detach of element blocks"),("detach before mutation","soa/main_def.inl")],["copy, mutate, destroy"])
p("V08","An allocation failure during copy, clone or detach leaks and corrupts nothing",
"If memory allocation fails at any point while a multi-type vector or matrix is copied, cloned, assigned, or a shared block is detached for writing, the exception propagates, the source and all other containers keep their contents, every block and managed element is still destroyed exactly once, and no memory is leaked.",
["fault_sequences","inputs","configurations"],"All container shapes up to a bound and every allocation index at which the failure may occur, in both layouts and with copy-on-write on and off.",
"No test injects allocation failures.",
S+[MTV+"soa/block_util.hpp"],[("rollback while cloning","soa/main_def.inl blocks_type clone constructor, aos/main_def.inl clone construction")],["copy constructor","clone","assignment","mutating a shared copy"])
p("V09","Copy-on-write containers can be used from different threads without interference",
"When copies sharing blocks are handed to different threads before these start, and each thread reads, mutates and destroys only its own container, every interleaving gives each thread the results it would get from a deep copy, and there is no data race, double free or use after free.",
["schedules","histories"],"All thread interleavings, up to a preemption bound, of two and three threads with one to three operations each on copies that share blocks.",
"The tests for thread safety run a free-running schedule; the races are between the last-owner check of one thread and the detach of another.",
[MTV+"soa/main_def.inl",MTV+"soa/block_util.hpp"],[("shared ownership bookkeeping","soa/block_util.hpp, soa/main_def.inl")],["concurrent mutate/destroy of copies"])
p("V10","Concurrent read-only use of one container is race free",
"Any number of threads may perform read-only operations (lookups, searches, iteration, comparison, size queries) on one container that nobody modifies, and each gets the answer it would get alone, without data races, in every interleaving. This applies to every container of the library once any required tree is built.",
["schedules"],"All interleavings, up to a preemption bound, of two threads doing read-only operations on a shared container of each kind.",
"Tests read from one thread; a cache or lazily built index written in a const operation is invisible to them.",
FST+ST[:2]+QT[:1]+RT+TR+MTVH+[I+"multi_type_matrix.hpp",I+"sorted_string_map.hpp"],[("const operations without mutable state","all containers")],["const member functions from two threads"])
p("V11","Side-by-side collection traversal visits every element in order",
"Traversing a collection of equally sized multi-type vectors visits every position of every member exactly once, position by position and vector by vector, with the right type, value, vector index and position. Restricting the traversal to element and collection sub-ranges visits exactly those, invalid ranges are rejected with an exception, and copies and swaps of a collection traverse the same.",
["inputs","configurations"],"All tuples of up to three vectors with all shapes up to a bound and all sub-ranges.",
"Tests traverse a few fixed collections.",
[MTV+"collection.hpp"],[("side iterator stepping","collection.hpp side_iterator"),("range checks","collection.hpp set_collection_range / set_element_range")],["begin","end","set_collection_range","set_element_range"])
p("V12","Out-of-range requests throw and leave the containers unchanged",
"Every multi-type vector operation given a position, range or destination outside the container (including empty containers, reversed ranges, the one-past-the-end position, and values near the maximum of the size type) throws the documented exception and changes nothing in either container; every in-range request does not throw.",
["inputs","configurations"],"All shapes up to a bound including the empty container, all operations with or without hints, all positions including boundary and overflow values; both layouts.",
"Tests try a few invalid positions; overflow and the empty container with a hint are not tried.",
S,[("range checks","soa/main_def.inl, aos/main_def.inl get_block_position / throw_block_position_not_found / check_block_integrity")],["all mutators and accessors"])
p("V13","Execution policies never change results of the structure-of-arrays vector",
"With any execution policy configured, including one that processes the affected blocks in an arbitrary order or concurrently, every operation of the structure-of-arrays multi-type vector gives the same contents, block structure, equality results and lookups as without a policy.",
["configurations","schedules","inputs"],"All shapes up to a bound, all operations that adjust block positions or compare or copy blocks, and all orders in which a policy may process elements.",
"Tests run one policy under one schedule.",
[MTV+"soa/block_util.hpp",MTV+"soa/main_def.inl"],[("policy-driven position adjustment","soa/block_util.hpp adjust_block_positions specialisations")],["insert, erase, operator==, copy"])
p("V14","Copy, clone, move, swap and equality of multi-type vectors are exact",
"Copies, clones and assignments give equal, independent containers; moves and swaps transfer contents exactly and leave a moved-from container empty and usable; self-assignment changes nothing. Two containers are equal exactly when they have the same size and the same type and value at every position.",
["inputs","histories","configurations"],"All shapes and all pairs of shapes up to a bound, followed by further mutation of either side; both layouts and copy-on-write.",
"Tests check selected pairs; equality over all pairs (e.g. equal prefixes, same types with different values) is a relation tests cannot enumerate.",
S,[("special members","soa/main_def.inl, aos/main_def.inl"),("equality","soa/main_def.inl blocks_type::equals, block_funcs.hpp equal_block")],["operator==","copy/move/clone/swap"])
p("V15","The loop-unrolling factor never changes any result",
"For every supported loop-unrolling factor and both layouts, every operation that shifts block positions leaves the same contents, block structure and position lookups, for containers with any number of blocks before, at and after the unrolled stride.",
["configurations","inputs"],"All unrolling factors (0, 4, 8, 16, 32, and SSE2/AVX2 variants the compiler enables), all block counts up to beyond twice the largest stride, all operation positions.",
"Remainder handling depends on block count modulo the stride; tests use one factor per build and few block counts.",
[MTV+"soa/block_util.hpp",MTV+"aos/block_util.hpp"],[("unrolled position adjustment","soa/block_util.hpp, aos/block_util.hpp adjust_block_positions")],["insert, erase, set with many blocks"])
p("V16","The element store type never changes multi-type vector results",
"Whether an element block stores its elements in a vector, a deque or the delayed-delete vector, and whether or not it stores booleans, every operation gives the same contents, and element access through blocks (iteration, range access, data pointers where offered) yields the same elements.",
["configurations","histories"],"All operation histories up to a bound for each store type, in both layouts.",
"Store-specific code (front deletion, capacity trimming, boolean vectors) is tested on a few examples.",
[MTV+"types.hpp",MTV+"delayed_delete_vector.hpp"],[("store-independent block operations","types.hpp element_block")],["get, block iteration, data"])
p("D01","The delayed-delete vector behaves as a standard vector",
"After any history of construction, push_back, emplace, insert, erase (front, middle, back, ranges), assign, resize, reserve, shrink_to_fit, copies, moves and swaps, the delayed-delete vector has the same size, elements, iteration in both directions, bounds-checked access and equality as a standard vector after the same history.",
["histories","inputs"],"All operation histories up to a depth over small sizes, for two vectors.",
"The hidden front offset makes the state depend on history; tests exercise it in one short file.",
[MTV+"delayed_delete_vector.hpp"],[("front offset","delayed_delete_vector.hpp m_front_offset / clear_removed")],["all members"])
MM=[I+"multi_type_matrix.hpp",I+"multi_type_matrix_def.inl"]
p("X01","Multi-type matrix operations follow a plain two-dimensional array",
"After any history of set (single value, column run, from another matrix), set_empty (cell, run, column, row), copy with or without overlap, resize with or without fill, transpose, clear, swap, copies and moves, every cell of the matrix has the type and value a plain two-dimensional array has after the same history. Numeric predicates, size, equality, typed reads and position objects agree with it; reading a value as another type, and access at a position past the last cell, is rejected with an exception.",
["histories","inputs"],"All matrix shapes up to a bound, all cell type patterns (empty, numeric, integer, boolean, string), all operations and their parameters, sequences up to a depth.",
"Copying and resizing between different shapes and integer elements are covered by few tests.",
MM,[("matrix operations over the column-major vector","multi_type_matrix_def.inl set / set_row_empty / copy / resize / transpose")],["get, get_type, numeric, size, operator=="])
p("X02","Matrix walks visit exactly the requested cells in column-major order",
"Walking a matrix, a window of it, or two matrices side by side delivers every cell of the requested region exactly once in column-major order with the right type and value, in blocks of a single type, for every window. Windows outside either matrix are rejected with an exception.",
["inputs"],"All matrix shapes and type patterns up to a bound, all windows, all pairs of matrices.",
"Tests walk a few fixed windows; the synchronised two-matrix walk has a case per relative block boundary.",
MM,[("block walk functors","multi_type_matrix.hpp walk_func / walk_data / walk")],["walk"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)

"""What each check runs: bounds and options (texts of the properties are in properties.jsonl).

bounds/outside describe the quick tier; the thorough tier adds the harnesses named cNNt_*.
"""
ANY = "'any' = each operation is insert, remove or get_or_insert (symbolic kind) with a fresh symbolic index over the whole range"
MT = ("model trees: leaves with an arbitrary symbolic 64/128/256-bit mask for every node on the visited root-to-leaf paths, exact and inexact hierarchies, "
      "arbitrary symbolic query path; they stand for every tree of that depth and width")
FEW = "iteration: every pair/triple of leaves with up to 2 indices each at any two symbolic paths (parting at any level; inexact: also branches that end early)"
PROPS = {
"C01": dict(max_steps=20000000,
  bounds="DenseTree depth 1, 2: every 3 operations (" + ANY + "), 4 for ii.rr/irir; depth 3, 4, 6, 9: every 2 to 4 operations; nodes pre-filled to 7, 31 and 63 children (capacity borders of both block kinds) and then one operation of any kind on any child; grids of 8 and 16 indices (two digits on every one of 2 to 4 levels, depth 2-4, 6, 9) inserted in 4, 8 or 16 orders and then 1 to 3 operations at any of them; 4 neighbouring nodes or subtrees of which any 2 are emptied in any order, then 2 operations; 300 items and 150 removals. After each: every query index.",
  outside="histories longer than 4 symbolic operations beyond the pre-filled states; depths 5, 7, 8 (same generic code); thorough: 70000 items in depth 4"),
"C02": dict(max_steps=100000000,
  bounds="all 24 configurations: every 3 operations (" + ANY + ") and every query index; 4 operations for w64/w256 depth 2 and w128/w256 depth 1, 5 for w64 depth 1; writes through get_mut; nodes pre-filled with 31, 126, 130 children, then one operation; grids of 4 to 16 indices (two digits on every one of 2 to 4 levels) inserted in any of 4 to 16 orders, then up to 3 operations at any of them; 3 or 4 neighbouring nodes or subtrees of which any 2 or 3 are emptied in any order, then 2 or 3 operations of any kind; 300 to 65700 items and as many removals.",
  outside="longer symbolic histories; other fill levels"),
"C03": dict(
  bounds="contents of any 2 or 3 operations on DenseTree depth 1-5, 7, 9 and SparseTree 64/128/256-wide of depth 1-4, 6, 8 (for 128/256 wide nodes at depth >= 2: the indices differ in one level's digit, every level tried); full nodes with any one child removed; chains of neighbours over node borders plus one or two operations; grids of 8 and 16 indices on all widths (depth up to 9) and 4 emptied and refilled neighbouring subtrees, then 1 or 2 operations; restart of an iterator while another is half way.",
  outside="more than 3 symbolic indices; 256-wide trees whose symbolic indices differ on several levels at once (thorough: depth 2)"),
"C04": dict(
  bounds="contents of any 2 to 5 operations on DenseTree and SparseTree of all widths; then one write through key_values_mut at any position, followed by further operations; grids of 8 and 16 indices and emptied and refilled neighbouring nodes, then 2 operations.",
  outside="longer symbolic histories"),
"C05": dict(
  bounds="contents of any 2 to 4 operations, DenseTree depth 1-4, 6, 9, SparseTree of all widths depth 1-8 (samples); then every bit of the node of every level on the way to every query index; pairs of different histories with the same contents; grids of 4 to 8 indices and emptied subtrees, then up to 4 operations; claims of EXACT_HIERARCHY: 19 expressions (every lazy operation, mixed exact/inexact operands, nestings) over model trees (arbitrary symbolic masks on an arbitrary path, 64-bit depth 1-3, 5, 128/256-bit depth 2).",
  outside="longer symbolic histories"),
"C06": dict(bounds=MT + "; get/get_unchecked and cursors for 64-bit depth 1, 2, 3, 5, 9, 128-bit depth 1, 2, 4, 8, 256-bit depth 1, 2, 4, 8; " + FEW + " (64-bit depth 1-3, 128-bit depth 2); the same tree as several operands (up to 2 indices); real containers with 2-3 symbolic indices, also mixed dense/sparse, by value and by reference.",
  outside="iteration over more than 2 candidate indices on model trees (the real containers add a few)"),
"C07": dict(bounds=MT + "; depths and widths as C06; " + FEW + " (64-bit depth 1, 2, 3, 5, 128-bit depth 2); the same tree as several operands (up to 2 indices); real containers with 2-3 symbolic indices, mixed kinds, by value and by reference.",
  outside="iteration over more than 2 candidate indices on model trees"),
"C08": dict(bounds=MT + "; depths and widths as C06; the number of calls of the function is counted; " + FEW + "; real containers with 2-3 symbolic indices, all three spellings.",
  outside="iteration over more than 2 candidate indices on model trees"),
"C09": dict(bounds=MT + ", 0 to 3 trees, 64-bit depth 1-4, 128/256-bit depth 1-2; 4, 8, 9, 16, 31 and 32 trees at depth 1-3, 256-bit depth 2 (beyond 4: two arbitrary symbolic trees among full and empty ones); " + FEW + "; the same tree as several operands (up to 2 indices); real containers.",
  outside="5 to 32 arbitrary symbolic trees at once; more than 32 trees (not supported by the library); iteration over more than 2 candidate indices"),
"C10": dict(bounds=MT + ", 0 to 3 trees, 64-bit depth 1-3, 128/256-bit depth 1-2; 4, 8, 9, 16, 31 and 32 trees at depth 1-3, 256-bit depth 2 (beyond 4: two arbitrary symbolic trees among full and empty ones); " + FEW + "; the same tree as several operands (up to 2 indices); real containers.",
  outside="5 to 32 arbitrary symbolic trees at once; more than 32 trees (not supported by the library); iteration over more than 2 candidate indices"),
"C11": dict(bounds=MT + ", 0 to 3 trees, unions and intersections, depth 1-3; 8, 31 and 32 trees at depth 2 and 3 (two arbitrary symbolic ones among full and empty ones); calls of init and of the fold function are counted; " + FEW + "; the same tree as several operands (up to 2 indices); real containers.",
  outside="more than 3 arbitrary symbolic trees at once"),
"C13": dict(bounds="18 nested expressions (every operation under and over every other kind, depth of nesting up to 4) over 4 model-tree leaves (" + MT + "), 64-bit depth 2; " + FEW + ", depth 1 and 2.",
  outside="other nestings; other depths and widths (thorough: depth 3, 128 bit)"),
"C14": dict(bounds="every two-path schedule: a cursor walks down a first symbolic path to any level (checked, unchecked or mixed), is re-positioned at any level and walks down a second symbolic path; all operations over model trees of depth 1-3 (64/128/256-bit), operands of the multi operations read after the second walk too (hop schedules, depth 3, thorough 5); containers after 0 to 3 symbolic operations.",
  outside="more than two re-positionings (the state after a re-positioning depends only on the selected levels); deeper trees"),
"C17": dict(bounds="blocks u8, u16, u32, u64, usize and arrays of 1, 2, 4 u64 and 16 bit arrays; scripts of up to 4 calls of next/trim_to (n symbolic) over every block value (arrays: one word symbolic, the others fixed and dense); whole consumption over every block with up to 3 set bits, traverse with every break point; every single-bit block.",
  outside="whole consumption of blocks with more symbolic set bits; longer scripts"),
"C18": dict(bounds="u64, 128 and 256-bit blocks: every block value and every index for set_bit/get_bit/is_zero/equality/operators/as_array; counting and traversal of every block with up to 2-3 set bits and of every single-bit and full block.",
  outside="traversal of blocks with more symbolic set bits"),
"C23": dict(bounds="every pair of bounds 0..9 (monomorphised), every break position; the constants 0..9 and MAX; arrays of length 0..8 with symbolic elements of several layouts (zero-sized, one-byte to 1.6 kB, over-aligned, with and without a destructor).",
  outside="larger bounds"),
"C12": dict(bounds="sources with up to 2 indices at any two symbolic paths: model trees exact and inexact (branches ending early), intersections, unions, folded multi operations over them, depth 1-3, plain sources up to depth 9, empty sources of depth 1-9; real containers; nodes with 1 to 64 children; then 0 to 2 operations of any kind (symbolic index) on the new container and get/masks of any index, iteration or key_values.",
  outside="sources with more symbolic indices; longer histories afterwards; SparseTree and other FromHibitTree targets (the library has only DenseTree)"),
"C15": dict(builds=[("sym", "", "", ""), ("sym", "", "", "may_dangle")],
  bounds="any 2 to 4 operations (also writes through get_mut / key_values_mut; symbolic kinds and indices), then drop: DenseTree depth 1-4, 6, SparseTree 64/128/256-wide depth 1, 2, 4 with and without ReqDefault; zero-sized, one-byte, large and over-aligned values; nodes with 7-9 values; containers made by materialize from maps, intersections, unions, folds with 3 symbolic indices, then one operation and drop in either order; items lazy operations create. After every operation the set of live values is compared with the contents. Both with and without feature may_dangle.",
  outside="longer histories; other fill levels; panics (C24)"),
"C16": dict(
  bounds="value types: zero-sized, u8, 64-byte aligned, 264 bytes, Box, Vec, tuple with an owning field; any 2 or 3 operations (symbolic kinds and indices), then get/get_unchecked, iteration or key_values_mut, then drop; nodes grown to 10-64 children and emptied in rotated orders; all lazy operations over containers with 3 symbolic indices; materialize and further operations. Every access, deallocation and unsafe precondition on every path is checked (the checks of the other properties do the same).",
  outside="longer histories; values that are themselves shared between threads; aliasing rules (Stacked/Tree Borrows) are not modelled"),
"C19": dict(builds=[("symu", "", "", "")],
  bounds="all 33 configurations (DenseTree depth 1-9, SparseTree 64/128/256-wide depth 1-8): every usize as index of insert, remove, get_or_insert, get, get_mut, Index::from (caught panics; the tree, which holds one element, is compared afterwards); get of every lazy operation over model trees; get_or_default; any two indices that differ in one bit are different elements, by usize or Index.",
  outside="trees that hold more elements when the index is rejected (the check precedes any access to the tree); indices differing in several digits (C01, C02)"),
"C20": dict(max_steps=400000000,
  bounds="a node of any of the levels (DenseTree depth 1-3, SparseTree 64/128/256-wide depth 1-4) filled with all its children in four orders, then any one child removed and inserted again, and every child queried; filled, emptied and refilled in different orders; whole trees: 4096 (64-wide depth 2), 16384 (128-wide depth 2), 65536 (256-wide depth 2), 262144 elements (64-wide depth 3), every element queried (the two largest: elements of the first and last terminal node).",
  outside="other orders of insertion; thorough: every element of the largest trees, 262144 elements of a 256-wide depth 3 tree"),
"C21": dict(
  bounds="contents of any 2 or 3 operations, DenseTree depth 1-9, SparseTree 64/128/256-wide depth 1-8 (samples), every index; get_mut_unchecked with a write, then every other index; every operation of a container by an Index made with new_unchecked; 12 expressions (every lazy operation and nestings) over model trees (arbitrary symbolic node masks on an arbitrary symbolic path, 64-bit depth 1, 2, 4, 9, 128-bit depth 2, 256-bit depth 1, 3) and over three containers with 2 symbolic indices.",
  outside="longer histories; more than 3 trees; unchecked access to indices that are not contained (the caller's contract)"),
"C22": dict(
  bounds="1 to 4 trees of which any subset contains the index, passed by 5 kinds of iterators (slice, reversed, filtered, chained, flat_map); items from get, get_unchecked, cursor data, cursor data_unchecked and iteration; 0 to all + 1 calls of next with size_hint (and len) looked at after each, then fold, for_each, count, nth + last, or next past the end; depth 1-3, 64/128/256 bit; also three containers.",
  outside="more than 4 trees; iterators over the trees that are not fused"),
"C24": dict(builds=[("symu", "", "", "")],
  bounds="one panic, caught, at any of: Default in get_or_insert; the drop of a value insert replaces; the drop of any value while the container is dropped; Default while a ReqDefault container is made; the n-th call (n up to 3) of the function or init of map / multi_map_fold in get, iteration and materialize. Containers with 1 to 3 values at symbolic indices before, any one operation and any query after it, then drop: DenseTree depth 1-4, SparseTree 64/128/256-wide depth 1, 2, 4, with and without ReqDefault. Values have an identity and own memory; every drop is checked.",
  outside="two panics in one history; panics in Clone or iterators the caller passes in; memory leaked by a panic (allowed)"),
"C25": dict(builds=[("sym", "-C target-feature=+sse3,+ssse3,+sse4.1,+sse4.2,+popcnt,+lzcnt,+bmi1,+bmi2,+avx,+avx2", "", "")], 
  bounds="built for the engine with SSE4.2, AVX2, POPCNT, LZCNT, BMI1 and BMI2 enabled, so the code these features select (also inside the vector types) is what is executed: any 2 to 4 operations and every query on DenseTree depth 1-3, 5, 9 and SparseTree of all widths (samples of depth), nodes pre-filled to 31, 63 and 64 children, iteration, node masks, every lazy operation over model trees, materialize, and every value of the 64/128/256-bit blocks. Same oracles as in the portable build.",
  outside="other combinations of features; other architectures"),
"C26": dict(
  bounds="SparseTree with ReqDefault, 64-wide depth 1-8, 128/256-wide depth 1, 2, 5, 8: any 2 to 4 operations (insert, remove, get_or_insert, get_mut, key_values_mut; symbolic kinds and indices) on an empty container or one with 12 to 70 values; then get_or_default of any two indices, by usize and Index, get, key_values and iteration. The default differs from every value.",
  outside="longer histories"),
"C27": dict(
  bounds="All values: Primitive for u8, u16, u32, u64 and usize (any two 64-bit numbers, every shift below the width); Take of values and references; CondType of both conditions; arrays of 0, 1, 4 and 9 elements; the function traits; Borrowable of trees and of references to them.",
  outside="longer arrays"),
"C28": dict(
  bounds="DenseTree depth 1-4, 8 and SparseTree 64-wide depth 1-3, 5, 8, 128-wide depth 2, 3 and 256-wide depth 2, 4: up to 6 rounds of inserting and removing one item, up to 4 rounds of two items, or 3 to 5 moves of one item, at any indices of the range each; and 7 to 12 (thorough: 40) subtrees of one node emptied and filled again twice, from any one on. The bytes held are compared with those after (and during) a warm-up of the same size.",
  outside="more items at once; memory that the allocator itself keeps"),
"C29": dict(
  bounds="Two cursors over one operation (64-wide depth 1, 2, 128/256-wide depth 2, map also depth 4; thorough: depth 3), on any two paths and over any masks, moved level by level in every order; two iterators over every operation with up to two items per operand (depth 1, 2, thorough: 3), up to 3 symbolic steps that move either or both or call get, then drained; the same over DenseTree depth 1, 2 and SparseTree 64-wide depth 1, 2 (thorough 3), 128-wide depth 2, thorough 256-wide depth 2.",
  outside="more than two iterators at once; more items; threads (that the types may not be shared wrongly is the compiler's business)"),
}

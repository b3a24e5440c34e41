import json
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
D=["src/dense_tree.rs","src/dense_tree/node.rs"]
S=["src/sparse_tree.rs","src/sparse_tree_levels.rs","src/level/intrusive_list_level.rs","src/level/single_block_level.rs","src/level_block/block.rs","src/config.rs"]
HT=["src/hibit_tree.rs","src/lib.rs"]
out=[
P("C01","DenseTree is a map from index to value",
 "A DenseTree of any depth behaves as a map from index to value: after any sequence of insert, remove and get_or_insert, get(i) returns the last value written to i if i was not removed since, and None otherwise. insert replaces an existing value, get_or_insert returns the existing value or inserts the default, remove returns exactly the removed value (None if there was none), and no operation on one index changes what any other index maps to.",
 ["histories","inputs"],"every sequence of operations, every index of the range, every depth 1..9, every node fill level",
 "The tests insert a few dozen chosen or random keys in one or two depths; which node slots, reallocation points and swap-removals occur depends on the whole history and on key positions, which sampling covers only sparsely.",
 D,[("sorted dense child arrays addressed by popcount","NodePtr::insert / remove / get_dense_index"),("swap_remove with terminal pointer fix-up","DenseTree::remove")],
 [("root","root node of the pointer tree","DenseTree::root"),("keys, data","parallel vectors, slot 0 reserved","DenseTree")],["get","remove","get_or_insert"]),
P("C02","SparseTree is a map from index to value in every configuration",
 "A SparseTree of any configuration (64, 128 or 256-wide nodes, depth 1 to 8) behaves as a map from index to value: after any sequence of insert, remove, get_or_insert and writes through get_mut, get(i) and get_mut(i) give the last value written to i if i was not removed since, and None otherwise. insert replaces an existing value, get_or_insert returns the existing value or inserts the default, remove returns exactly the removed value (None if there was none), and no operation on one index changes what any other index maps to.",
 ["histories","inputs","configurations"],"every sequence of operations, every index, each of the 24 configurations",
 "Tests use two configurations with few keys; block free lists, index narrowing (u8/u16/u32) and swap-removal interact over long histories.",
 S,[("block free list","IntrusiveListLevel::push_empty_block / pop_empty_block"),("swap_remove with pointer fix-up","SparseTree::remove"),("index 0 is the empty block","Block::get_or_zero")],
 [("levels","blocks of each level","SparseTree::levels"),("last_level_block_indices","where the pointer to each value is","SparseTree")],["get","get_mut","remove"]),
P("C03","Container iteration yields exactly the contents, in ascending order",
 "iter() on a DenseTree or SparseTree yields every (index, value) pair the container holds exactly once, in strictly ascending index order, and nothing else, whatever history of insertions and removals built it. After the last item it keeps returning None, and a new iterator starts over from the first item.",
 ["histories","inputs"],"every reachable container state, every depth and width",
 "Tests iterate a few fixed shapes; iteration depends on node masks at every level, on bit positions up to the last bit of a node, and on removals leaving no stale bits.",
 ["src/iter.rs","src/bit_queue.rs","src/bit_utils.rs"]+D+S[:1],[("per-level bit iterators driven bottom up","Iter::next"),("index reassembly","data_block_index")],(),["iter"]),
P("C04","key_values lists exactly the contents as parallel slices",
 "key_values() of a DenseTree or SparseTree returns two slices of equal length in which each contained index occurs exactly once, together at the same position with its current value, and no placeholder or removed entry occurs. key_values_mut() returns the same, and a write through it is what get for that index returns afterwards.",
 ["histories","inputs"],"every reachable container state",
 "Few tests look at key_values and none after arbitrary removals; the slices must stay parallel through every swap_remove.",
 ["src/dense_tree.rs","src/sparse_tree.rs"],[("slot 0 is skipped","key_values"),("keys and values are swap_removed together","remove")],(),["key_values","key_values_mut"]),
P("C05","EXACT_HIERARCHY claims are true; container masks depend on contents alone",
 "A tree (container or lazy operation) whose EXACT_HIERARCHY is true has no empty nodes: wherever a cursor's mask has a bit set, the child's mask is not empty. In a DenseTree or SparseTree, the mask a cursor reports for a node has bit b set if and only if at least one contained index lies under child b of that node, at every level; so no empty nodes are reachable and an emptied container has an empty root mask. The masks therefore depend only on the current contents, not on the history that led to them.",
 ["histories","inputs"],"every history of insertions and removals, every node of every level, every lazy operation over exact and inexact trees",
 "No test reads the masks; a stale or missing bit only shows in operations that trust EXACT_HIERARCHY, for particular removal orders.",
 D+S,[("removal climbs up while nodes get empty","DenseTree::remove, SparseTree::remove"),("EXACT_HIERARCHY = true","HibitTree impls")],(),["HibitTreeCursor::select_level_node"]),
P("C06","intersection contains exactly the common indices",
 "intersection(a, b) contains an index if and only if both a and b contain it, and its item is the pair (a's value, b's value), for get, get_unchecked, iteration and cursors alike. Iteration is strictly ascending, and at every level the mask is the bitwise AND of the operands' masks.",
 ["inputs","programs"],"every pair of operand trees (of the same depth and width), by value or by reference",
 "The test has one pair of three-element trees; agreement must hold for every relative position of the operands' indices at every level.",
 ["src/ops/intersection.rs","src/iter.rs"],[("mask AND per level","Cursor::select_level_node"),("both operands consulted","Intersection::data")],(),["get","iter","select_level_node"]),
P("C07","union contains exactly the indices of either operand",
 "union(a, b) contains an index if and only if a or b contains it, and its item is (Some(a's value) or None, Some(b's value) or None) matching presence in each operand, for get, get_unchecked, iteration and cursors alike. Iteration is strictly ascending, and at every level the mask is the bitwise OR of the operands' masks, an operand that lacks the node contributing nothing.",
 ["inputs","programs"],"every pair of operand trees (of the same depth and width), by value or by reference",
 "The test has one pair of small trees; nodes missing in one operand must be handled at every level and position.",
 ["src/ops/union.rs","src/iter.rs"],[("mask OR per level through checked selects","Cursor::select_level_node_unchecked"),("pair of options","Union::data")],(),["get","iter","select_level_node"]),
P("C08","map keeps the indices and applies the function to each item once",
 "map(s, f), also as s.map(f) and s.map_ref(f), contains exactly the indices of s, with f(item of s) as items, for get, get_unchecked, iteration and cursors alike. Each access applies f exactly once to an item that exists and never for an index that does not, and the node masks are those of s.",
 ["inputs","programs"],"every source tree and every index",
 "The test maps one small tree; calls of f for absent items or twice per item are not observed.",
 ["src/ops/map.rs"],[("f applied to Some only","Map::data, Cursor::data")],(),["get","iter"]),
P("C09","multi_intersection contains exactly the indices all trees share",
 "multi_intersection over any number of trees contains an index if and only if there is at least one tree and every tree contains it, and its item iterates over the values of all trees in the order of the trees, for get, get_unchecked, iteration and cursors alike. With a single tree it equals that tree, and with none it is empty.",
 ["inputs","programs"],"every list of 0..32 trees",
 "The test uses three fixed trees; the number of trees, their order and which of them lack a node at which level vary freely.",
 ["src/ops/_multi_intersection.rs"],[("AND over all cursors","Cursor::select_level_node*"),("early None","MultiIntersection::data")],(),["get","iter"]),
P("C10","multi_union contains exactly the indices of any of the trees",
 "multi_union over any number of trees contains an index if and only if at least one tree contains it, and its item iterates over the values of exactly the trees that contain it, in the order of the trees, for get, get_unchecked, iteration and cursors alike. With a single tree it equals that tree, and with none it is empty.",
 ["inputs","programs"],"every list of 0..32 trees, every depth",
 "The test uses three fixed trees; the per-level lists of non-empty trees depend on how the trees overlap at every level.",
 ["src/ops/_multi_union.rs"],[("lists of non-empty cursors per level","Cursor::lvls_non_empty_states"),("OR over cursors","select_level_node_unchecked")],(),["get","iter"]),
P("C11","multi_map_fold folds each index's values in order, starting from init",
 "multi_map_fold(m, init, f), also as m.map_fold(init, f), contains exactly the indices of m, and its item for an index is init() folded with f over m's values for that index in their order, for get, get_unchecked, iteration and cursors alike. init is evaluated anew for every item, and neither init nor f runs for an index that is not contained.",
 ["inputs","programs"],"every multi_union / multi_intersection source, every index",
 "The tests fold one fixed example; order, fresh init and absence need arbitrary overlap of the trees.",
 ["src/ops/multi_map_fold.rs"],[("fold over the data iterator","MultiMapFold::data, Cursor::data")],(),["get","iter"]),
P("C12","materialize copies the source exactly into a fully working container",
 "A DenseTree made from any tree of the same depth (materialize or from_sparse_hierarchy), including lazy sources whose masks have false bits and sources without items, contains exactly the source's indices and items, with exact node masks. It then behaves like a DenseTree built by insertions: any later insert, remove, get, iteration or drop works the same.",
 ["inputs","histories","programs"],"every source expression and contents, every depth, every history after it",
 "The tests materialize a few non-empty sources and only read them back; later mutation, empty results and empty nodes in non-exact sources are not reached.",
 ["src/dense_tree/from.rs","src/dense_tree/node.rs"],[("recursive construction, exact and non-exact","from_exact_sparse_hierarchy, from_sparse_hierarchy"),("length bookkeeping","raw_finalize, from_parts")],(),["materialize","get","iter"]),
P("C13","Nested expressions agree between get, iteration and cursors",
 "For any composition of intersection, union, map, multi_intersection, multi_union and multi_map_fold over containers, iteration yields exactly the indices i for which get(i) is Some, in strictly ascending order and each with the same item as get(i). The contents are those given by set algebra on the leaves, regardless of how deeply the operations are nested.",
 ["programs","inputs"],"every nesting of operations over every leaf contents",
 "Tests nest at most two operations over fixed data; cursor state of inner nodes that are absent in one branch only matters for particular overlaps.",
 ["src/ops/union.rs","src/ops/intersection.rs","src/ops/map.rs","src/ops/_multi_union.rs","src/ops/_multi_intersection.rs","src/ops/multi_map_fold.rs","src/iter.rs"],[("checked selects under union, unchecked under intersection","cursors")],(),["get","iter"]),
P("C14","Cursors can be re-positioned freely and agree with get",
 "After selecting a node at each level from the top down, a cursor's data(i) is what get returns for the corresponding index and its masks are those of the selected nodes, no matter which nodes it visited before; selecting a node that does not exist yields an empty mask and no data under it. The unchecked variants give the same results wherever the node or item exists, and checked and unchecked selections can be mixed.",
 ["histories","inputs","programs"],"every sequence of selections on every container and lazy operation",
 "Iteration only visits existing nodes in ascending order; going back, jumping to missing nodes, and mixing checked and unchecked selections is not tested.",
 ["src/hibit_tree.rs","src/dense_tree.rs","src/sparse_tree.rs","src/ops"],[("cached node per level, empty node for missing ones","Cursor::select_level_node"),("terminal mask cache","multi cursors")],(),["HibitTreeCursor"]),
P("C15","Every value is dropped exactly once and all memory is released",
 "Every value given to a container is dropped exactly once: by remove's caller, when insert replaces it, or when the container is dropped; a value is never dropped twice, never dropped while still contained, and the internal placeholder is never dropped as a value unless it was really created. When a container (also one made by materialize) is dropped, all memory it allocated is released.",
 ["histories","inputs"],"every history of operations and then drop",
 "The tests use plain integers, whose drops cannot be observed, and do not track memory.",
 D+S+["src/req_default.rs","src/dense_tree/from.rs"],[("manual drop skipping slot 0","drop_impl"),("recursive node deallocation","NodePtr::drop_node_with_childs")],(),["Drop"]),
P("C16","Safe use never touches memory it must not",
 "No use of the safe API reads or writes outside live allocations, reads uninitialised memory, frees with a wrong layout, or breaks a precondition of an unsafe operation, for any value type: zero-sized, byte-sized, over-aligned, large or heap-owning. This holds for containers, cursorless access, iteration, and all lazy operations, and the operations pass only existing nodes and items to the unchecked functions of their operands.",
 ["histories","inputs","programs"],"every sequence of safe operations, every value type shape",
 "Undefined behaviour often goes unnoticed by tests that happen to read the right bytes; it depends on capacities, alignment and history.",
 D+S+["src/iter.rs","src/bit_queue.rs"],[("raw allocation layouts","NodePtr::layout, insert, drop_node"),("unchecked indexing everywhere","get_unchecked")],(),["all"]),
P("C17","Bit queues pop exactly the set bits in ascending order",
 "A bit queue made from any block yields exactly the positions of the block's set bits in ascending order and then None forever, whether consumed by next, traverse (which stops exactly where the callback breaks), for_each or a mix of next and the others. trim_to(n) removes exactly the positions below n (everything if n reaches the capacity), current() never exceeds the next position to be yielded and equals the capacity once next has returned None, empty() yields nothing and filled() every position.",
 ["inputs","histories"],"every block value of 8 to 256 bits, every n, every interleaving of calls",
 "The tests use random blocks and few cut points; word boundaries and a partially consumed queue matter.",
 ["src/bit_queue.rs","src/bit_utils.rs"],[("active word copied to slot 0","ArrayBitQueue"),("lowest set bit removal","OneBitsIter::next")],(),["BitQueue"]),
P("C18","Bit blocks of 64, 128 and 256 bits behave as bit arrays",
 "For each BitBlock type, set_bit writes exactly one bit and returns its previous value, get_bit reads it, is_zero and equality compare all bits, the bitwise operators act on every bit, count_ones counts all set bits and traverse_bits visits exactly the set bits in ascending order, stopping where the callback breaks. as_array exposes the bits in order, 64 per word, and into_bits_iter yields the same bits as traverse_bits.",
 ["inputs"],"every block value, every bit index of the width",
 "Only a few positions are exercised indirectly; a mistake in one word of the wide types shows only for particular bits.",
 ["src/bit_block.rs","src/bit_utils.rs","src/utils/primitive.rs"],[("word and bit split","set_array_bit_unchecked, get_array_bit_unchecked")],(),["BitBlock"]),
P("C19","Exactly the indices of the index range are accepted",
 "For every depth and width, index_range() is 0..min(width^depth, usize::MAX), every operation taking an index accepts exactly the indices inside it and panics for any other before changing anything, and an accepted index denotes the same element in every operation (also via Index, and back to usize). No two different indices in range share an element.",
 ["inputs","configurations"],"every usize, every depth and width",
 "Tests use small indices; the limits, and aliasing between high and low digits of the index, are not tested.",
 ["src/hibit_tree.rs","src/lib.rs"],[("range assert","Index::from"),("digit split","level_indices")],(),["Index::from","index_range"]),
P("C20","Completely full nodes work in every configuration",
 "Containers keep every element distinct and retrievable when nodes are filled to their full width at any level, at any order of insertion, and emptied and refilled again. This holds for the first and last child of a node and for each supported node width, including the narrowest child index types.",
 ["inputs","configurations","histories"],"every position in and around full nodes, each width and level",
 "Tests never fill a node to its width; limits of u8/u16 indices and of capacity growth only show there.",
 ["src/config.rs","src/level_block/block.rs","src/dense_tree/node.rs"],[("child index type per level","config"),("capacity doubling","NodePtr::insert")],(),["get","iter"]),
P("C21","Unchecked access agrees with checked access",
 "For every index a tree contains, get_unchecked (on containers and on every lazy operation), get_mut_unchecked and access through Index::new_unchecked return the same item as the checked access, and leave the tree unchanged. For multi operations they yield the same sequence of values.",
 ["inputs","programs"],"every tree, every contained index",
 "Three assertions on fixed values exist; the unchecked paths are separate code in each operation.",
 ["src/hibit_tree.rs","src/sparse_tree.rs","src/dense_tree.rs","src/ops"],[("data_unchecked","HibitTree impls")],(),["get_unchecked","get_mut_unchecked"]),
P("C22","Item iterators of multi operations honour the Iterator contract",
 "The value iterators that multi_intersection and multi_union return (from get, get_unchecked and iteration) give the same sequence by next, fold and any mix of them, stay at None after the end, and their size_hint always encloses the number of values still to come, exactly for ExactSizeIterator ones. Their length matches the number of trees that contain the index.",
 ["inputs","histories"],"every list of trees, every index, every way of consuming the iterator",
 "Tests collect() them once; size_hint and partial consumption followed by fold are not tested.",
 ["src/ops/_multi_intersection.rs","src/ops/_multi_union.rs"],[("separate next, fold, size_hint implementations","CursorData, DataUnchecked")],(),["Iterator::next","Iterator::fold","Iterator::size_hint"]),
P("C23","Compile-time loops and integers visit exactly their range",
 "const_for(from, to) visits exactly from, from+1, .., to-1 in ascending order and const_for_rev exactly the same in descending order, both stop right after the visitor breaks and return its value, and visit nothing when from equals to. inc, dec and sat_dec of constant integers are plus one, minus one and minus one saturating at zero; constant arrays split off their last element correctly.",
 ["inputs","configurations"],"every pair of bounds from 0 to 9, every break position",
 "The tests print instead of asserting and use from = 0 only.",
 ["src/const_utils/const_int.rs","src/const_utils/const_array.rs","src/const_utils/cond_type.rs","src/const_utils/const_bool.rs"],[("recursion over Dec","iterate_as_range, iterate_as_range_rev")],(),["const_for","const_for_rev"]),
P("C24","A panic in user code leaves containers sound",
 "If user code called by the library panics (Default of the value type, a value's Drop, a map or fold function, or the source of materialize) and the panic is caught, no value is dropped twice, no uninitialised placeholder is dropped or read, and the containers involved can still be used and dropped safely. Elements not involved in the failed operation keep their values.",
 ["fault_sequences","histories"],"every point where user code is called, every container state",
 "No test panics inside user code; what has to be cleaned up depends on the exact point.",
 ["src/sparse_tree.rs","src/dense_tree.rs","src/dense_tree/from.rs","src/req_default.rs"],[("placeholder slot with set_len(1)","Default impls, from_sparse_hierarchy")],(),["catch_unwind"]),
P("C25","Results do not depend on enabled CPU features",
 "Built for a CPU with bit-manipulation and wide-vector instructions, containers and lazy operations give the same results as the portable build: the same map semantics, masks and iteration for every history. This covers the code selected by target features.",
 ["configurations","histories","inputs"],"x86-64 with popcnt, bmi1, bmi2, avx2 against the reference map, every key",
 "The test suite is built for the baseline CPU only, so code under cfg(target_feature) is never compiled there.",
 ["src/dense_tree/node.rs","src/bit_utils.rs","src/bit_block.rs"],[("bzhi in get_dense_index","NodeHeader::get_dense_index")],(),["get","iter"]),
P("C26","get_or_default returns the default exactly for missing items",
 "On a SparseTree constructed with ReqDefault, get_or_default(i) returns the value of i if it is contained and a default-constructed value otherwise, for every index and after any history of insertions and removals. The default can be neither reached nor changed by any other operation, and is not counted as an element.",
 ["histories","inputs","configurations"],"every history, every index, every width",
 "One test reads a handful of indices after insertions only; a stale or non-zero child index after removal would return another element.",
 ["src/sparse_tree.rs","src/req_default.rs","src/level_block/block.rs"],[("removed children point to slot 0","Block::remove_unchecked"),("slot 0 holds the default","SparseTree::default")],(),["get_or_default"]),
P("C27","Utility types are the values they wrap",
 "Primitive numbers behave as unsigned integers of their width, CondType is the one of its two values that its condition selects (also when cloned, defaulted, converted, changed and dropped), Take hands over or clones exactly once, Array::from_fn calls its function once per index in order, and the function traits call the function. A tree and a reference to it borrow as the same tree. This holds for every value.",
 ["inputs"],"every value, every shift, every array length",
 "There are no tests of these types; the trees only use a part of what they offer, on a few values.",
 ["src/utils/primitive.rs","src/utils/take.rs","src/const_utils/cond_type.rs","src/utils/array.rs","src/utils/function.rs","src/utils/borrowable.rs"],[("CondType selects one of two types at compile time","CondType"),("Primitive is implemented by macro","Primitive")],(),["Primitive","Take","CondType","Array","UnaryFunction","Borrowable"]),
P("C28","Room that removals free is used again",
 "A container that is filled and emptied again and again, at whatever indices, does not grow: it never holds more memory than it needed for its largest contents so far, and emptied it holds no more than it did emptied the first time. Reading allocates nothing that stays.",
 ["histories","inputs","configurations"],"every sequence of insertions and removals, every depth and width",
 "The tests run each container once and never look at memory; a slot or a node that is not recycled shows only as growth.",
 ["src/dense_tree.rs","src/sparse_tree.rs","src/level/intrusive_list_level.rs","src/level_block/block.rs"],[("the free list of a level","IntrusiveListLevel::allocate_block"),("emptied nodes are released","DenseTree::remove, SparseTree::remove")],(),["insert","remove","get_or_insert"]),
P("C29","Iterators and cursors over one tree are independent",
 "Any number of iterators and cursors over one tree or lazy operation, and lookups in between, can be used interleaved in any order: each yields what it would alone. An item stays valid while others move.",
 ["schedules","inputs"],"every interleaving, every tree, every operation",
 "The tests use one iterator or cursor at a time; state shared between two (a cached node, a common buffer) would not show.",
 ["src/hibit_tree.rs","src/iter.rs","src/ops/_multi_union.rs","src/ops/_multi_intersection.rs"],[("cursors hold the state of a walk, the tree holds none","HibitTreeCursor"),("iterators own their cursor","Iter::new")],(),["iter","HibitTreeCursor","get"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in out: f.write(json.dumps(p)+"\n")
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in out: jsonschema.validate(p,sc); assert p['statement'].count('. ')<=2,(p['id'],p['statement'].count('. '))
print(len(out))

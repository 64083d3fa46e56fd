#!/usr/bin/env python3
# Source of properties.jsonl (kept so that statements are edited in one place).
import json
T="The tests run a handful of fixed sizes and seeded random histories with default-sized nodes; "
def P(id,title,st,over,q,why,files,syms):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0] if len(files)==1 else " / ".join(files[:3])) for x in syms]))
D="include/bpptree/detail/"; I="include/bpptree/"
L=[
P("C01","A tree is a faithful sequence under positional edits",
 "After any history of push/pop/emplace at the ends, insertion, erasure, assignment and update through iterators, and clear, iterating the tree yields exactly the sequence that the same edits produce on a plain array, with the matching size, emptiness, front and back. Values popped are the values that were at that end.",
 ["histories","inputs","configurations"],"every edit history, every stored value, every node-size and depth configuration",
 T+"a wrong split or shift shows up only for particular fill levels and positions.",
 [I+"bpptree.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"modify.hpp",D+"operations.hpp"],["Transient","insert_split","insert_no_split","erase","DoSplit","DoReplace"]),
P("C02","Index-addressed operations behave like a vector",
 "With the indexed mixin, reading, inserting, assigning, updating and erasing at index i acts on exactly the i-th element of the sequence and on nothing else, for every index in range and for every index type. Looking up an iterator by index and asking an iterator for its index are inverse to each other, with the end position corresponding to size().",
 ["histories","inputs","configurations"],"every tree reachable by edits, every index in range, every index type",
 T+"indices near node boundaries after mixed edits are sampled, never exhausted.",
 [I+"indexed.hpp",D+"indexed_detail.hpp"],["at_index","insert_index","erase_index","assign_index","update_index","find_index","order"]),
P("C03","Ordered trees behave as a sorted map with stated duplicate policy",
 "An ordered tree built by keyed insertion always holds strictly increasing keys under its comparator; inserting a present key without assignment leaves the old value, insert-or-assign and assign replace it, update applies the updater to it, erasing removes exactly that key, and reading by key returns the most recent value. Keyed operations never change any other entry.",
 ["histories","inputs","configurations"],"every history of keyed operations, all keys and values, every comparator, extractor and search mode",
 T+"the random ordered test compares with a map for one seed and one node size.",
 [I+"ordered.hpp",D+"ordered_detail.hpp",D+"operations.hpp"],["insert_v","insert_or_assign","assign_v","update_key","erase_key","at_key"]),
P("C04","Key lookups return the correct position for every key",
 "In any ordered tree, lower_bound yields the first element whose key is not less than the argument, upper_bound the first whose key is greater, find an element with an equivalent key or the end, and contains tells whether one exists, for every argument including keys below, above and between all stored keys. The answers are the same for linear and binary search, mutable and immutable trees, and any strict weak order.",
 ["inputs","histories","configurations"],"every ordered tree (including runs of equivalent keys), every search key, both search modes, any comparator",
 "upper_bound has no tests at all (marked TODO) and the other lookups are tested on dense integer keys only.",
 [I+"ordered.hpp",D+"ordered_detail.hpp"],["lower_bound","upper_bound","find","contains","seek_key"]),
P("C05","Sums and prefix sums are exact after every edit",
 "With the summed mixin, sum() equals the sum of the extracted values of all elements, and the exclusive and inclusive prefix sums at any position equal the sums of the elements before it, or up to and including it, after any history of edits. Arithmetic is that of the sum type, including signed and wrapping unsigned values.",
 ["histories","inputs","configurations"],"every edit history, all element values, all positions, every extractor and sum type",
 T+"cached sums can go stale at one level only for particular split and carry patterns.",
 [I+"summed.hpp",D+"summed_detail.hpp"],["sum","sum_inclusive","sum_exclusive"]),
P("C06","Search by prefix sum finds the first position reaching the target",
 "For non-negative values whose total does not overflow, searching by prefix sum returns the first position whose inclusive prefix sum is at least the target, and the end position when the total is smaller, for every target and after any history of edits.",
 ["histories","inputs"],"every edit history, all non-negative element values including zeros, every target",
 "The one test searches trees of consecutive positive values; zeros, ties at node boundaries and targets past the total are not covered.",
 [I+"summed.hpp",D+"summed_detail.hpp"],["sum_lower_bound","seek_index_forward"]),
P("C07","Minimum queries are exact for the tree and for every range",
 "With the min mixin, the minimum of the whole tree and of any non-empty range given by two positions is an element of that range that no other element of the range precedes in the comparator, and the returned element position lies in the range and holds that minimum, after any history of edits.",
 ["histories","inputs","configurations"],"every edit history, all element values including ties, every non-empty range",
 T+"a cached minimum that is not refreshed needs the minimum itself to move, vanish or be overwritten in a particular node.",
 [I+"min.hpp",D+"minmax.hpp"],["min","min_element"]),
P("C08","Maximum queries are exact for the tree and for every range",
 "With the max mixin, the maximum of the whole tree and of any non-empty range given by two positions is an element of that range that precedes no other element of the range in the order, and the returned element position lies in the range and holds that maximum, after any history of edits.",
 ["histories","inputs","configurations"],"every edit history, all element values including ties, every non-empty range",
 "The max mixin has no test of its own; the random tests query whole-tree values for a few seeds.",
 [I+"max.hpp",D+"minmax.hpp"],["max","max_element"]),
P("C09","Snapshots never change",
 "A persistent snapshot taken from a mutable tree keeps its contents, size and every query answer forever, whatever is later done to the mutable tree it came from, to mutable trees made from it, or to other snapshots; and the mutable tree continues to behave as if no snapshot had been taken.",
 ["histories","inputs"],"every interleaving of edits, snapshot points and further edits",
 T+"snapshots are hardly tested; sharing bugs need a particular pattern of shared and unshared nodes along a path.",
 [I+"bpptree.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp",D+"nodeptr.hpp"],["persistent","transient","make_persistent"]),
P("C10","Operations on persistent trees return new versions and leave the old",
 "Every editing operation on a persistent tree returns a tree that equals the receiver with exactly that edit applied, while the receiver and every other version derived from it stay unchanged. Versions may be branched, combined and dropped in any order.",
 ["histories","inputs"],"every tree of versions built from persistent operations, all values and positions",
 "Only a few persistent operations are called by tests, and receivers are not re-checked.",
 [I+"bpptree.hpp",I+"indexed.hpp",I+"ordered.hpp"],["Persistent"]),
P("C11","Memory is neither leaked nor touched outside its lifetime",
 "No operation on valid arguments reads uninitialised memory, accesses memory out of bounds or after it was freed, or frees it twice, and once every tree and version sharing nodes has been destroyed all memory obtained by the library has been returned, after any history of edits, snapshots, copies and drops.",
 ["histories","inputs","configurations"],"every history mixing edits, snapshots, version drops and handle moves",
 "The suite runs without sanitizers or leak accounting, on histories that rarely share nodes.",
 [D+"nodeptr.hpp",D+"uninitialized_array.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp"],["NodePtr","UninitializedArray"]),
P("C12","Stored objects are constructed, moved and destroyed exactly once",
 "For element and key types with non-trivial copy, move and destruction, the library assigns only to live objects, constructs only in raw storage, destroys every object exactly once, and never exposes or copies a moved-from object; the number of live element objects equals the number of elements held by live nodes.",
 ["histories","inputs","configurations"],"every edit history, with and without shared nodes, for owning element and key types",
 "Tests store trivially copyable values almost exclusively, for which lifetime errors are invisible.",
 [D+"uninitialized_array.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp"],["UninitializedArray","insert_split","erase"]),
P("C13","Insert and erase leave the iterator correctly positioned",
 "After insertion through an iterator it designates the inserted element, and after erasure the element that followed the erased one in the iterator's direction (or that direction's end), for every position of every tree, so a traversal can be continued or further edits made through it in both directions.",
 ["histories","inputs"],"every tree and every position, forward and reverse iterators, repeated edits through one iterator",
 "Tested with a few loops over default-sized nodes; boundary positions after splits and removals are not exhausted.",
 [I+"bpptree.hpp",D+"iterator.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"modify.hpp"],["insert","erase"]),
P("C14","Iterators traverse and jump through the sequence exactly",
 "From any position, stepping forward or back and jumping by any in-range distance reaches exactly the element at that distance, forward and in reverse, and traversals from begin to end and rbegin to rend visit every element once in order; a step past the last element gives the end and a step back from the end gives the last element.",
 ["inputs","histories","configurations"],"every reachable tree, every start position and in-range distance",
 "Random jumps are sampled in trees of one shape.",
 [D+"iterator.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp"],["advance","begin","end","rbegin","rend"]),
P("C15","Iterator comparison and distance agree with position",
 "For any two iterators of one tree, the relational operators agree with the order of their positions in the iteration direction (irreflexive, and consistent with one another), equality holds exactly for equal positions, and the difference of two iterators of an indexed tree is the signed distance between them, for forward, reverse, mutable and constant iterators including the end positions.",
 ["inputs","histories"],"every reachable tree and every pair of positions",
 "Relational operators on reverse iterators and at the end positions are not tested.",
 [D+"iterator.hpp",D+"indexed_detail.hpp"],["operator<","operator==","operator-"]),
P("C16","Iterators stay valid across assignment and update",
 "Assigning to or updating elements of a mutable tree, through any route, invalidates no iterator of that tree: each still designates the same position and reads the current value there, also when shared nodes had to be copied because a snapshot exists.",
 ["histories","inputs"],"every pair of iterator position and modified position, every sharing pattern",
 "Tests do not read through an old iterator after a copy-on-write assignment.",
 [D+"iterator.hpp",I+"bpptree.hpp"],["fix_leaf","mod_count","assign","update"]),
P("C17","Element references write through and read back",
 "The element references obtained by dereferencing a mutable iterator, by index or by key act as the element itself: assignment, compound assignment, increment and decrement in both forms and swapping change exactly that element as the same operation on a plain object would, yield the same result value, and keep all derived sums, minima, maxima and orderings correct.",
 ["inputs","histories"],"all element values and operands, every position, every operator, every access route",
 "Each operator is tried on a few constants by tests.",
 [D+"proxy_operators.hpp",D+"iterator.hpp",I+"indexed.hpp",I+"ordered.hpp"],["ProxyRef","ProxyOperators"]),
P("C18","Reported errors leave the tree unchanged",
 "With safety checks compiled in, reading, assigning, updating or erasing a key that is absent is reported as an exception, as are storing a value under a different key than the one given and ordering iterators of different trees; after any of these, and after an exception thrown by a user's updater, the tree still has exactly its previous contents and stays usable.",
 ["inputs","fault_sequences","histories"],"every tree, every absent key, every mismatching key, an updater throwing at any element",
 "Error paths are tested on one or two inputs and contents are not re-checked afterwards.",
 [I+"ordered.hpp",D+"ordered_detail.hpp",D+"iterator.hpp",D+"leafnodebase.hpp"],["find_key_index_checked","check_key","update_key"]),
P("C19","Persistent trees can be shared between threads",
 "Threads that share a persistent tree by value may read it, copy and drop handles, derive new versions and edit private mutable trees made from it concurrently without data races; each thread sees the results it would see alone, and shared nodes are freed exactly once, under every interleaving.",
 ["schedules","histories"],"every interleaving of reference-count operations of two or three threads",
 "No test uses threads.",
 [D+"nodeptr.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp",I+"bpptree.hpp"],["NodePtr","make_persistent"]),
P("C20","Mixins compose in any combination and order",
 "A tree built with several mixins answers every query of each mixin exactly as a tree with that mixin alone, whatever the combination and the order in which they are listed, after any history of edits. (An operator that two mixins both provide, such as the subscript of indexed and ordered trees, comes from the one listed first.)",
 ["configurations","histories","inputs"],"every subset and order of mixins, every edit history",
 "Tests instantiate a few fixed combinations.",
 [I+"bpptree.hpp",D+"nodetypes.hpp",D+"sandwich.hpp",D+"indexed_detail.hpp",D+"summed_detail.hpp",D+"minmax.hpp",D+"ordered_detail.hpp"],["mixins","Chain","NodeInfo"]),
P("C21","Height stays logarithmic and shrinks when the tree empties",
 "A tree built by insertions alone keeps all nodes at least about half full except along the right edge of appends, so its depth never exceeds the logarithmic bound implied by its size and node capacities; every depth-d tree holds at most the capacity of depth d, a tree emptied by erasure has depth one, and the reported depth never exceeds the reported maximum.",
 ["histories","configurations"],"every insertion-only history (any positions), every erase order down to empty",
 "Depth is never asserted by the tests.",
 [D+"modify.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"nodetypes.hpp"],["depth","DoSplit","collapse","max_depth"]),
P("C22","Exceeding the maximum depth is reported, never silent",
 "With safety checks compiled in, an insertion that would need more levels than the depth limit raises an exception instead of silently losing elements and leaves the tree as it was, and up to that point every insertion is carried out correctly at any depth limit.",
 ["histories","configurations"],"every insertion order up to and beyond the capacity, every depth limit",
 "The test suite never fills a tree to its depth limit.",
 [D+"modify.hpp",D+"nodetypes.hpp"],["DoSplit","max_depth","max_size"]),
P("C23","Copies, moves and assignments of tree handles behave as values",
 "Copying a persistent tree yields an equal tree independent of the original, moving a tree transfers its contents, assignment releases what the target held and takes over the source, conversions between mutable and persistent trees preserve the contents in both directions, and clearing a tree leaves it empty and usable; afterwards edits to one handle are never visible through another.",
 ["histories","inputs"],"every sequence of copies, moves, assignments and conversions of handles followed by edits",
 "Handles are hardly copied or assigned in tests.",
 [I+"bpptree.hpp",D+"nodeptr.hpp"],["Transient","Persistent","clear"]),
P("C24","The inverted-index example returns exactly the stored postings",
 "The inverted-index example maintains, for every term, exactly the set of documents inserted for it, in order and without duplicates, for any sequence of insertions, and its terms, their document ranges and counts agree with that set.",
 ["histories","inputs"],"every sequence of postings inserted, all terms and documents",
 "Its single test inserts one fixed data set.",
 ["examples/inverted_index.hpp"],["InvertedIndex"]),
P("C25","Versions share structure: copying is confined to shared nodes on the path of an edit",
 "Taking a snapshot, copying a handle and converting between mutable and immutable copy no nodes; editing a mutable tree that shares nothing copies no nodes; deriving a new version from an immutable tree creates at most one node per level besides those the new version needs for its growth, sharing all others with the original; and a mutable tree that shares nodes with a version copies each shared node at most once, however many edits follow.",
 ["histories","inputs"],"every tree shape, position and kind of edit, every sharing state",
 "Tests check results only; a tree that is copied whole on every edit passes them.",
 [D+"internalnodebase.hpp",D+"leafnodebase.hpp",D+"nodeptr.hpp",I+"bpptree.hpp"],["insert","erase","assign","make_persistent","persistent","transient"]),
P("C26","Operations cost a logarithmic number of comparisons and extractions",
 "Looking up a key, inserting, erasing, replacing or updating an element, and querying the sum or minimum of a prefix or range examine only the nodes along one or two root-to-leaf paths: the number of key comparisons and of value extractions is bounded by a small multiple of the depth times the node capacity, whatever the size of the tree.",
 ["inputs","histories"],"every key, position and range, on trees of every shape",
 "Tests check results only; an operation that scans the whole tree passes them.",
 [D+"ordered_detail.hpp",D+"minmax.hpp",D+"summed_detail.hpp",D+"internalnodebase.hpp"],["find","lower_bound","insert","sum_inclusive","min_element"]),
P("C27","Configuration options take effect in any order and combination",
 "A map, set or vector type, or a mixin builder, configured through its options (comparator, extractor, binary search, node sizes, depth limit, index type, exception support) in any order is the tree with exactly those options: it keeps the same elements in the same order in the same nodes, respects the same depth limit, answers queries alike and passes on or suppresses exceptions as configured; no option resets another.",
 ["configurations","inputs"],"every order of the options, all keys and values",
 "Tests use one or two fixed chains of options.",
 [I+"ordered.hpp",I+"indexed.hpp",I+"summed.hpp",I+"min.hpp",I+"max.hpp",D+"helpers.hpp"],["BppTreeMap","BppTreeSet","BppTreeVector","OrderedBuilder"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+"\n")
print(len(L))

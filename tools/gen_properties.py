#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the fields stay uniform)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
H=["histories","inputs"]
p("C01","AVL tree behaves as an ordered map",
 "After any history of Put and Remove calls, under any strict weak ordering of the keys, Get returns the last value put for an equivalent key (or the zero value and false), Size equals the number of distinct keys present, and Each visits every present pair exactly once in ascending key order. Removing an absent key changes nothing, and queries change nothing.",
 H,"every history of Put/Remove/Get/Each/Size on any number of trees, every strict weak ordering and every key/value type",
 "The cross-check runs 1000 random operations over 100 int keys with one seed, only compares keys the tree reports, and never checks order, Size or absent keys.",
 ["avl/avl.go"],[("recursive add/remove with rebalancing on the way up","avl/avl.go: node.add, node.remove, node.rebalanceTree"),("search by less","avl/avl.go: node.search")],
 [("root","binary search tree of key/value nodes","avl.Tree")],["Get","Each","Size"])
p("C02","Search trees stay logarithmic: heights balanced, comparisons bounded",
 "After any history, the height an AVL or interval tree reports is within the AVL bound for its size, and in the AVL tree the two subtrees of every node differ in height by at most one. Every Get, Put and Remove on an AVL tree or B-tree of n keys calls the user's less function O(log n) times.",
 H,"every insertion and removal order, every size",
 "No test looks at heights or counts comparisons; a tree that has degenerated into a list still passes them all.",
 ["avl/avl.go","interval/itree.go","btree/btree.go"],[("single and double rotations, height maintenance","avl/avl.go, interval/itree.go: rebalanceTree, rotateLeft, rotateRight"),("node split at 64 entries, growth at the root","btree/btree.go: split, Put")],
 [("height","cached subtree height","avl.node, interval.node"),("height","levels below the root","btree.Tree")],["Height","calls of the less function"])
p("C03","B-tree behaves as an ordered map",
 "After any history of Put and Remove calls, under any strict weak ordering of the keys, Get returns the last value put for an equivalent key that was not removed since, Size equals the number of keys present, and Each visits every present pair exactly once in ascending key order. This holds across node splits, overwrites, removals and re-insertion of removed keys.",
 H,"every history, every number of keys (so every tree height and every split position), every ordering",
 "The cross-check uses 100 keys (one or two leaves, height at most 1), never checks Size, order or absent keys.",
 ["btree/btree.go"],[("insertion with node splits","btree/btree.go: insert, split, Put"),("tombstones","btree/btree.go: Remove, entry.valid")],
 [("n","number of live keys","btree.Tree"),("valid","false for a removed key","btree.entry")],["Get","Each","Size"])
p("C04","Interval tree stores at most one interval per start, Add and Put as documented",
 "After any history, the tree holds exactly the intervals added or put and not removed or replaced, at most one per starting position, and Get, Each (ascending start) and Size report them with their exact bounds and values. Add on an occupied start changes nothing and returns the stored interval; Put on an occupied start replaces it and returns the replaced one; Remove returns the removed interval. An interval whose low bound exceeds its high bound is rejected with a panic.",
 H,"every history of Add/Put/Remove/Get/Each/Size over every ordered bound type",
 "The existing tests use a handful of fixed intervals and one random sequence over int with few conflicts.",
 ["interval/itree.go"],[("insert with overwrite flag","interval/itree.go: node.insert"),("removal by successor replacement","interval/itree.go: node.remove, removeThis")],
 [("key","the interval, unique by low","interval.node")],["Add","Put","Get","Remove","Each","Size"])
p("C05","Interval overlap queries are exact and sorted",
 "After any history, Overlaps(low, high) returns exactly the stored intervals that start before high and end after low, each once, with its exact bounds and value, sorted by starting position. Queries with low above high are rejected with a panic, no query changes the tree, and the slice a query returned never changes afterwards.",
 H,"every tree shape reachable by additions, replacements and removals, and every query interval including touching, nested, empty and extreme bounds",
 "Pruning depends on a per-subtree maximum maintained through rotations and removals; a stale maximum loses results only for particular shapes and queries that the few test queries do not reach.",
 ["interval/itree.go"],[("subtree maximum of upper bounds","interval/itree.go: updateMax, rebalanceTree, rotateLeft, rotateRight"),("pruned traversal","interval/itree.go: node.overlaps")],
 [("max","highest upper bound in the subtree","interval.node")],["Overlaps"])
p("C06","Hash map behaves as a map under every lawful hash and capacity",
 "For every initial capacity and every pair of equality and hash functions where equal keys hash equally (however badly the hash distributes), Get returns the last value put for an equal key not removed or cleared since, Size is the number of keys present, and Each visits every pair exactly once. Growth, shrinking, probe-sequence wrap-around and deletion inside collision clusters are invisible.",
 H,"every history, capacity, equality relation and consistent hash function",
 "Tests use a good hash over 100 keys, where clusters are short and never wrap; they only check keys the map still reports.",
 ["hashmap/map.go"],[("linear probing with re-insertion after removal","hashmap/map.go: Put, Remove"),("doubling and halving","hashmap/map.go: resize")],
 [("entries","probe table","hashmap.Map"),("length","number of filled entries","hashmap.Map")],["Get","Put","Remove","Clear","Each","Size"])
p("C07","Copy-on-write copies of hash maps and hash sets are fully isolated",
 "After Copy, original and copy (and copies of copies) hold the same contents and from then on are independent: no Put, Remove or Clear on one is ever visible through another, in any order and when different copies are used by different goroutines without locking. Copy itself, and reading the copies, does not duplicate the table: storage is only duplicated by the first write.",
 ["histories","schedules","inputs"],"every family of copies and every interleaving of writes on its members, from one goroutine or one goroutine per member",
 "TestCopy makes one copy, does one overwriting Put and does not look at the original afterwards; nothing clears, removes from or resizes a shared table.",
 ["hashmap/map.go","hashset/set.go"],[("readonly flag and table duplication before the first write","hashmap/map.go: Copy, Put, Remove, Clear")],
 [("readonly","entries are shared with a copy","hashmap.Map")],["Get","Each","Size","Copy","race detector","allocated bytes"])
p("C08","Hash set and map set hold exactly the values put and not removed",
 "After any history of Put, Remove and Clear on a hashset (any capacity, lawful hash and equality) or a mapset, Has answers membership exactly, Size is the number of distinct members and Each visits each member exactly once. Of yields exactly the distinct values given.",
 H,"every history, capacity and lawful hash",
 "Tests use 1000 operations over 100 keys with a good hash and mostly check present keys.",
 ["hashset/set.go","mapset/set.go","hashmap/map.go"],[("delegation to hashmap / built-in map","hashset/set.go, mapset/set.go")],[],["Has","Each","Size","Of"])
p("C09","Set algebra computes the mathematical result and leaves operands alone",
 "Union, Intersection, Difference, SymmetricDifference, their Const and InPlace variants, Clone, Keys, Map and String yield exactly the mathematically defined elements for every mix of set implementations, any number of operands, and operands that repeat or equal the receiver; symmetric difference contains the elements in exactly one operand and none in exactly two. Non-in-place operations modify neither receiver nor operands, return a set of the receiver's kind that is independent of them; in-place operations modify only the receiver. The slice from Keys and the map from Map belong to the caller.",
 ["inputs","histories","configurations"],"every combination of element sets, implementations (mapset, hashset with any hash, user-defined) and operand counts including aliasing",
 "The examples try one small literal input per operation, nearly all on mapset; removal during iteration only misbehaves on colliding hash sets.",
 ["set/set.go","hashset/set.go","mapset/set.go","hashmap/map.go"],[("clone then in-place operation","set/set.go: Union, Intersection, Difference"),("seen-set","set/set.go: SymmetricDifference")],[],["Has","Each","Size","String","Keys","Map"])
p("C10","Set relations are decided correctly",
 "IsSubset, IsSuperset, IsProperSubset, IsProperSuperset, Equal and IsDisjoint return true exactly when the mathematical relation holds between the receiver's and the argument's elements, for every mix of implementations including empty sets and a set compared with itself. They change neither set.",
 ["inputs","configurations"],"every pair of sets and implementations",
 "None of the relations has a test.",
 ["set/set.go"],[("element-wise comparison","set/set.go: IsSubset, IsSuperset, Equal, IsDisjoint")],[],["return values"])
p("C11","Heap always pops a minimum and conserves its elements",
 "After any history of Push and Pop on a heap made by New, From or FromSlice under any strict weak ordering, Peek and Pop return an element no other element is less than, every element pushed or given is popped exactly once, Size is exact, and an empty heap returns the zero value and false. FromSlice uses the given slice as its storage, Peek does not change the heap, and Push and Pop call less O(log n) times.",
 H,"every history, every multiset of elements including equivalents, every ordering",
 "Tests sort a dozen literals; long interleavings with duplicates, identity of equal elements and the number of comparisons are not looked at.",
 ["heap/heap.go"],[("sift up / sift down","heap/heap.go: up, down"),("bottom-up construction","heap/heap.go: FromSlice")],[("data","implicit binary tree","heap.Heap")],["Pop","Peek","Size","calls of less"])
p("C12","Queue is first-in first-out, exactly once",
 "After any history of Enqueue, Dequeue, TryDequeue, DequeueAll, Clear and Of, items leave in exactly the order they entered, each once; Peek, TryPeek, PeekAll, Each, Len and Empty report the remaining items without removing them. On an empty queue Dequeue and Peek panic, the Try variants return the zero value and false, and the queue stays usable. The slices PeekAll and DequeueAll return belong to the caller: later operations do not change them and writing to them does not change the queue.",
 H,"every history",
 "The tests are one-step tables on small literal queues.",
 ["queue/queue.go","list/list.go"],[("doubly linked list plus length","queue/queue.go")],[("length","number of items","queue.Queue")],["Dequeue","PeekAll","Len","Each"])
p("C13","Stack is last-in first-out",
 "After any history of Push and Pop, Pop and Peek return the most recently pushed element not yet popped, or the zero value when empty (leaving the stack empty and usable), and Size is the number of elements on the stack. Every pushed element is popped exactly once.",
 H,"every history",
 "One test pushes and pops a few literals.",
 ["stack/stack.go"],[("growable slice","stack/stack.go")],[],["Pop","Peek","Size"])
p("C14","Linked list stays a well-formed chain of exactly the user's nodes",
 "After any history of PushFront, PushBack, PushFrontNode, PushBackNode, InsertAfter, InsertBefore and Remove (including re-inserting removed nodes and moving nodes between lists), the chain from Front along Next and from Back along Prev visits exactly the list's nodes in order and in reverse, nodes keep their identity and value, and Front and Back are nil exactly when it is empty. The Each functions visit exactly the nodes from their start onward or backward, also when the callback removes the node being visited.",
 H,"every history and every node position",
 "The only test is an example on three elements pushed at the ends.",
 ["list/list.go"],[("pointer updates with Front/Back special cases","list/list.go: InsertAfter, InsertBefore, Remove")],[("Front, Back, Prev, Next","the chain","list.List, list.Node")],["Front","Back","Each","EachReverse"])
p("C15","Cache holds the most recently used entries, never above capacity",
 "After any history of Get, Put, Remove and Resize, the cache never holds more entries than its capacity and holds exactly the entries a least-recently-used policy keeps, where Get hits and Puts (also of present keys) count as uses; Get returns the last value put for a key it holds. Each visits the entries from most to least recently used without counting as a use, Size and Capacity are exact, and a cache of capacity 0 stays empty.",
 H,"every history and every sequence of capacities",
 "One example with a handful of operations on capacities 1 to 3.",
 ["cache/cache.go","list/list.go"],[("move to front on use, evict from back","cache/cache.go: Get, Put, evict, Resize")],[("lru","entries in order of use","cache.Cache"),("table","key to list node","cache.Cache")],["Get","Each","Size","Capacity"])
p("C16","Cache evict callback sees every eviction exactly once, in order",
 "The callback most recently set is invoked exactly once for every entry displaced by a Put into a full cache or by Resize, in least-recently-used-first order, with that entry's key and current value, while the entry is still in the cache; it is not invoked by Remove, by overwriting, or by anything else. A callback that reads the cache or uses or removes the entry being evicted leaves the cache consistent, and entries put are always held, removed or reported evicted.",
 ["histories","inputs"],"every history, callback replacement and re-entrant callback",
 "One example checks three evictions; no test uses the cache from the callback.",
 ["cache/cache.go"],[("callback before removal","cache/cache.go: evict")],[("evictCb","current callback","cache.Cache")],["callback invocations","Each","Size"])
p("C17","Multimaps hold exactly the entries put, with their duplicate and order rules",
 "In all four variants, after any history of Put, Remove, RemoveAll and Clear, Get, Count, Has, Size, Dimension, Each and EachAssociation report exactly the entries present: slice variants keep duplicates and Remove deletes one of them, set variants keep one of each equivalent value. Keys with no entries left do not exist, removing absent entries changes nothing, and keys and values come in ascending order where the variant promises sorting. In the set variants the slices Get returns never change afterwards.",
 ["histories","inputs","configurations"],"every history on each of the four variants, every ordering",
 "The shared test drives one fixed script over a few strings.",
 ["multimap/map.go","multimap/avl.go","multimap/values.go","multimap/multimap.go","avl/avl.go"],[("per-key value containers","multimap/values.go"),("size counter","multimap/multimap.go: baseMultiMap")],[("size","total number of entries","baseMultiMap")],["Get","Count","Size","Dimension","Each","EachAssociation"])
p("C18","Trie behaves as a map over non-empty byte strings",
 "After any history of Put and Remove, Get and Contains answer exactly for every string (last value put and not removed since), and Size is the number of keys present; removing a key that is absent, or is only a prefix or an extension of a present key, changes nothing. The empty string is never a key: putting or removing it has no effect. Keys may be any bytes and any length.",
 H,"every history over every set of byte strings",
 "The cross-check uses random letters of up to 20 characters, so keys almost never share prefixes, only removes present keys and does not check Size or absent keys.",
 ["trie/trie.go"],[("ternary search nodes","trie/trie.go: put, get"),("node removal with successor replacement","trie/trie.go: remove, node.delete, minChild, deleteMinChild")],[("n","number of keys","trie.Trie")],["Get","Contains","Size"])
p("C19","Trie prefix queries are exact",
 "After any history, Keys returns every key exactly once, KeysWithPrefix(p) returns exactly the keys that start with p (all keys for the empty prefix), both in ascending byte order, and LongestPrefix(q) returns the longest key that is a prefix of q, or the empty string when there is none. The queries do not change the trie, and the slices they return belong to the caller and never change afterwards.",
 H,"every key set reachable by insertions and removals, every query string",
 "One example with three keys; LongestPrefix has no test.",
 ["trie/trie.go"],[("in-order collection","trie/trie.go: collect"),("descent remembering the last valid node","trie/trie.go: LongestPrefix")],[],["Keys","KeysWithPrefix","LongestPrefix"])
p("C20","Rope behaves as a sequence under every edit",
 "For every element type and every setting of the split and join thresholds, after any history of Insert, Remove, SplitAt, Join, Rebuild and Rebalance, Value, Len, At, Slice and Each agree with the same edits made on a plain slice. SplitAt yields two ropes that can be edited independently, Insert copies the given elements even when they come from the rope itself, Rebuild and Rebalance change no content, and a rope never writes outside the slice it was created from.",
 ["histories","inputs","configurations"],"every edit history, position, chunk size and element type",
 "Tests use two thresholds, 100 edits and 20-byte insertions; Rebuild and Rebalance have no test.",
 ["rope/rope.go"],[("leaf splitting and merging","rope/rope.go: adjust"),("range arithmetic across children","rope/rope.go: Remove, Slice, Insert, SplitAt")],[("length","elements below the node","rope.Node")],["Value","Len","At","Slice","Each"])
p("C21","Persistent rope: every version stays what it was",
 "Every version produced by Insert, Remove, SplitAt or Join has the content the same edit gives on a plain slice, and the content of every version ever obtained (through Value, Len, At and Slice) never changes afterwards, whatever is done to other versions derived from or sharing parts with it, including Rebuild and Rebalance of any of them. The slices given to New and Insert are never written to, later changes to the slice given to Insert have no effect, and slices returned by Value and Slice can be modified freely.",
 ["histories","inputs","configurations"],"every tree of versions and edits, every chunk size",
 "Tests follow a single line of versions and only look at the newest one.",
 ["prope/prope.go"],[("path copying","prope/prope.go: Insert, Remove, SplitAt, Join"),("copying leaf edits","prope/prope.go: insert, remove")],[("left, right, value","shared immutable parts","prope.Node")],["Value","Len","At","Slice"])
p("C22","Persistent rope versions share storage and can be used concurrently",
 "Inserting or removing a few elements in a balanced persistent rope of n elements allocates O(log n) memory, not a copy of the rope. Versions sharing storage can be read and edited (Insert, Remove, SplitAt, Join, Value, Slice, At, Len) by different goroutines at the same time without data races and with the results they have sequentially.",
 ["schedules","histories","inputs"],"every interleaving of goroutines deriving versions from a common ancestor, every size",
 "No test measures memory or uses goroutines.",
 ["prope/prope.go"],[("structure sharing","prope/prope.go: Insert, Remove")],[],["race detector","allocated bytes","Value"])
p("C23","Rope chunking follows the configured thresholds",
 "With a join threshold not above the split threshold, after any history every chunk that Each visits has at most SplitLength elements, the chunks concatenate to the rope's value, and a rope shorter than JoinLength is a single chunk. Rebuild leaves a rope longer than SplitLength in chunks of at least half of SplitLength (rounded down).",
 ["histories","configurations","inputs"],"every edit history and every pair of thresholds",
 "No test looks at chunks.",
 ["rope/rope.go"],[("leaf splitting and merging","rope/rope.go: adjust, join, Rebuild")],[],["Each"])
p("C24","Unrolled list and its iterators behave as a sequence with a cursor",
 "For every block size of at least 1, after any history of PushFront, PushBack, AddAfter, AddBefore and Remove through a valid iterator, walking from Begin with Next and from End with Prev yields exactly the list's elements in order and in reverse, and Size is exact. AddAfter and AddBefore leave the iterator on the new element and Remove leaves it on the element after the removed one (invalid if there is none); stepping past either end makes the iterator invalid and stepping back recovers the end element.",
 ["histories","inputs","configurations"],"every history, iterator position and block size",
 "Tests use one block size and a few literal positions; removal at the end of an inner block was not tried.",
 ["ulist/ulist.go","ulist/ulist_iter.go","list/list.go"],[("block overflow into the next block","ulist/ulist.go: AddAfter, addOverflowToNextBlock"),("iterator stepping","ulist/ulist_iter.go: Next, Prev")],[("size","number of entries","ulist.UList")],["Begin","End","Next","Prev","Get","Size"])
p("C25","2-D array cells are distinct, views alias, out-of-range access panics",
 "For every width and height, each in-range cell is separate storage: Set, Fill (inclusive, in any corner order) and writes through Row and RowSpan change exactly the addressed cells, and Get, Row, RowSpan and String report them. Any out-of-range coordinate panics without changing anything; NewFilled and OfJagged initialise every cell as documented, ignoring values out of bounds and leaving missing ones zero.",
 ["inputs","histories"],"every shape including non-square and empty ones, every coordinate and region",
 "All tests use square arrays.",
 ["array2d/array2d.go"],[("row-major indexing with bounds checks","array2d/array2d.go")],[],["Get","Row","RowSpan","String"])
p("C26","Bimap is a bijection in both directions at all times",
 "After any history of Add, RemoveForward, RemoveReverse, Clear and Of on a bimap (including the zero value), forward and reverse lookups describe the same one-to-one set of pairs: Add(k, v) removes any previous pair of k and any previous pair of v, and every other pair is kept. Len, Each and the Contains functions agree with it.",
 H,"every history, in particular collisions on key, value or both",
 "Tests write a few non-colliding pairs.",
 ["bimap/bimap.go"],[("paired deletes before insertion","bimap/bimap.go: Add")],[("forward, reverse","the two directions","bimap.Bimap")],["GetForward","GetReverse","Len","Each"])
p("C27","Compare, Min, Max and Clamp order correctly for every type and less function",
 "For every ordered type (NaN aside) and every strict weak ordering, Compare is -1, 0 or 1 as a is less than, equivalent to or greater than b, Max and Min return one of their arguments that is an upper or lower bound of both, and Clamp with lo not above hi returns lo, hi or x as x is below lo, above hi or between. The Func variants agree with the plain ones under the natural order, and Equals and Less are the operators.",
 ["inputs"],"all values and orderings",
 "The examples try a few ints.",
 ["generic.go"],[("definitions by less","generic.go")],[],["return values"])
p("C28","Hash functions are consistent, collision-free on integers and well mixed",
 "The hash functions are deterministic; each integer hash is injective on its type and equal integers hash equally through every integer hash of the same signedness; flipping any input bit changes the low-order bits of the hash for nearly all inputs, so regular key patterns spread over a power-of-two table. HashString and HashBytes agree on equal contents and depend on every byte and the length.",
 ["inputs"],"all integers and byte strings",
 "The hash functions have no tests of their own.",
 ["generic.go"],[("64-bit finalizer mix, FNV-1a","generic.go: hash, HashString, HashBytes")],[],["return values"])
p("C29","Copies of stacks, queues, arrays, bimaps and sets are independent",
 "Stack.Copy, Queue.Copy, Array2D.Copy, Bimap.Copy and Set.Clone return a container with equal contents, and afterwards no operation on the copy is visible in the original or the other way round, at any depth of copying and whatever the spare capacity of the underlying storage. Copying changes nothing in the original, and Queue.Of and OfJagged keep no reference to the slices they were given.",
 H,"every history before and after copying",
 "Copy is tested, if at all, by comparing contents right after copying.",
 ["stack/stack.go","queue/queue.go","array2d/array2d.go","bimap/bimap.go","set/set.go"],[("fresh storage on Copy","stack.Copy, queue.Copy, array2d.Copy, bimap.Copy, set.Clone")],[],["all queries"])
p("C30","Separate containers share nothing; concurrent read-only use is race-free",
 "Containers that were created separately can be used by different goroutines without locking, and from within each other's comparison functions and callbacks: there are no data races and each behaves as if used alone. Any number of goroutines may use the read-only operations of one container (lookups, sizes, traversals, slices, non-in-place set operations; cache Get and Copy on a hash map excepted) at the same time without data races and with the sequential results.",
 ["schedules","histories"],"every interleaving of goroutines on separate containers, and of readers on a shared one, for every container type",
 "No test uses goroutines or the race detector.",
 ["avl/avl.go","btree/btree.go","interval/itree.go","hashmap/map.go","hashset/set.go","mapset/set.go","set/set.go","heap/heap.go","queue/queue.go","stack/stack.go","list/list.go","cache/cache.go","multimap/map.go","multimap/avl.go","trie/trie.go","rope/rope.go","prope/prope.go","ulist/ulist.go","array2d/array2d.go","bimap/bimap.go","generic.go"],
 [("no package-level mutable state, no mutation in queries","all packages")],[],["race detector","query results"])
p("C31","Rejected calls and panicking callbacks leave containers intact",
 "A call rejected with a documented panic (array index out of range, Dequeue or Peek on an empty queue, inverted interval bounds) and a traversal aborted by a panic or runtime.Goexit in the user's callback leave the container exactly as it was and fully usable. A panic in the cache's evict callback during Put leaves all entries and their order as they were, with the entry not put.",
 ["fault_sequences","histories"],"every history and every point at which a call is rejected or a callback panics",
 "Tests only check that some calls panic, not the state afterwards.",
 ["array2d/array2d.go","queue/queue.go","interval/itree.go","cache/cache.go","avl/avl.go","btree/btree.go","hashmap/map.go","list/list.go","multimap/map.go","multimap/avl.go","trie/trie.go"],[("checks before mutation","array2d/array2d.go, queue/queue.go, interval/itree.go: newIntrvl"),("callback before removal","cache/cache.go: evict")],[],["all queries after recovering"])
p("C32","Storage follows the contents, not the history",
 "However many elements pass through a container that holds a bounded number at any time, the memory it keeps does not grow (the B-tree's removed keys aside), and AVL trees, interval trees, hash maps, hash sets, queues, lists and tries give their memory back as elements are removed. AVL and interval trees, caches, hash maps, sets, bimaps, queues, lists and tries, and multimaps once a key has gone, no longer refer to an element that was removed, evicted, dequeued or cleared, nor to a value that was overwritten, so the garbage collector can free it.",
 H,"every history, however long, of insertions, overwrites, removals, evictions and clears",
 "No test measures memory or whether anything can be collected; a leak shows in no result.",
 ["trie/trie.go","hashmap/map.go","cache/cache.go","avl/avl.go","interval/itree.go","queue/queue.go","list/list.go","bimap/bimap.go","multimap/avl.go","multimap/map.go","ulist/ulist.go","rope/rope.go","prope/prope.go"],
 [("unused trie nodes are deleted","trie/trie.go: Remove, isUnused, delete"),("removed entries are zeroed, the table is halved","hashmap/map.go: remove, Remove"),("eviction at capacity","cache/cache.go: Put, evict, Resize"),("reverse entry removed with the forward one","bimap/bimap.go: Add, RemoveForward, RemoveReverse"),("empty values containers removed","multimap/avl.go, multimap/map.go: Remove")],
 [("capacity","bound on the entries","cache.Cache")],["weak pointers to keys and values","live heap bytes"])
p("C33","Operations cost what the documentation promises",
 "Whatever the history, lookups, insertions and removals in AVL trees, B-trees, interval trees (overlap queries up to their results), heaps and ropes built balanced or edited at random take logarithmic work, and those of caches, hash maps and hash sets under a well-mixed hash, bimaps, map multimaps, queues, stacks, lists, unrolled lists, tries (for keys of bounded length) and array cells take constant work, amortised over growth. No size is such that adding and removing elements there rebuilds the container each time. Traversals, copies, set operations, and building or emptying a container take time linear in the elements involved, up to a logarithmic factor.",
 H,"every size and every history, in particular sizes at which tables, arrays and blocks are resized",
 "Tests check results only, on small containers; work that has become linear or quadratic gives the same results.",
 ["avl/avl.go","btree/btree.go","interval/itree.go","cache/cache.go","hashmap/map.go","hashset/set.go","mapset/set.go","set/set.go","heap/heap.go","queue/queue.go","stack/stack.go","list/list.go","ulist/ulist.go","bimap/bimap.go","multimap/map.go","multimap/avl.go","trie/trie.go","rope/rope.go","prope/prope.go","array2d/array2d.go"],
 [("doubling at half full, halving at an eighth","hashmap/map.go: Put, Remove, resize"),("rebalancing","avl/avl.go, interval/itree.go: rebalanceTree"),("pruning by subtree maximum","interval/itree.go: overlaps"),("hash map and list combined","cache/cache.go"),("subtree lengths","rope/rope.go, prope/prope.go")],
 [],["executed basic blocks of the library (coverage counters)","allocated bytes","CPU time"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))

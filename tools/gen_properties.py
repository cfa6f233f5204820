import json
L="src/list/mod.rs"; S="src/stack/mod.rs"; Q="src/queue/mod.rs"; V="src/vector/mod.rs"
HM="src/map/hash_trie_map/mod.rs"; SA="src/map/hash_trie_map/sparse_array_usize/mod.rs"; RY="src/map/hash_trie_map/rayon.rs"
RM="src/map/red_black_tree_map/mod.rs"; HS="src/set/hash_trie_set/mod.rs"; RS="src/set/red_black_tree_set/mod.rs"
EN="src/map/entry.rs"; UT="src/utils/mod.rs"; LIB="src/lib.rs"
ALL=[L,S,Q,V,HM,SA,RM,HS,RS]
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Old versions never change (persistence)",
 "For all eight structures, once a version of a structure exists, its observable content (every read accessor, lookup and iterator, including an iterator that is already half way through) never changes, whatever is done to other versions derived from it or that it was derived from: persistent updates, in-place updates on clones, writes through mutable references obtained from a clone, and dropping other versions in any order.",
 ["histories","inputs","configurations"],"all version trees (branching histories) of interleaved persistent and in-place operations on every structure, every pointer kind, every trie degree / vector branching and every key hash distribution",
 "Unit tests check a receiver after one or two operations on one straight-line history; a leak of a write through a shared node needs a particular sharing pattern (a node shared at one level but not at another, a collision bucket, a compressed root, a list tail shared by a queue).",
 ALL,[("make_mut copy-on-write on every node along the path",HM+": Node::insert/remove/get_mut; "+RM+": Node::insert/remove/balance; "+V+": Node::assoc/drop_last/get_mut"),("cons cells shared by reference count",L+": push_front_ptr_mut, reverse_mut, drop_first_mut")],
 ["all public read methods of every version, after every step"])
p("C02","List and Stack behave as an immutable sequence",
 "For every history of operations, List (new, push_front, drop_first, reverse, their in-place forms, from_iter) and Stack (push, pop, in-place forms, from_iter) hold exactly the sequence an ordinary vector would: first/last/peek, len/size, is_empty, iteration order and the bool/Option results all agree with it.",
 ["histories","inputs"],"all operation sequences on List and Stack, with any mixture of shared and unshared receivers",
 "Tests use lists of at most a handful of elements and one fixed history; first/last/length are cached separately and can drift apart after particular sequences (drop to empty then push, reverse of a shared list, ...).",
 [L,S],[("cached head, last and length updated together",L+": push_front_ptr_mut, drop_first_mut, reverse_mut, FromIterator")],["List::first,last,len,is_empty,iter,drop_first*,push_front*,reverse*","Stack::peek,push*,pop*,size,is_empty,iter"],
 [("head,last,length","sequence and its cached ends",L+": struct List")])
p("C03","Queue is first-in first-out under every history",
 "For every interleaving of enqueue, dequeue, clone and their in-place forms, starting from any construction, Queue yields its elements in exactly the order they were enqueued: peek is the oldest element, dequeue removes it (and only it) or reports emptiness, and len, is_empty and iteration agree with that order.",
 ["histories","inputs"],"all operation sequences on branching versions of a queue",
 "The order depends on how elements are split between the two internal lists, i.e. on the whole past history; tests sample a few fixed histories.",
 [Q,L],[("two-list queue with reversal on demand",Q+": dequeue_mut, peek, LazilyReversedListIter")],["Queue::peek,enqueue*,dequeue*,len,is_empty,iter"],
 [("in_list,out_list","newest elements reversed / oldest elements in order",Q+": struct Queue")])
p("C04","Vector is an indexed sequence for every branching and size",
 "For every accepted number of bits per level and every history of push_back, set, drop_last, mutable access, extend and from_iter, Vector is the sequence a growable array would be: get/first/last/indexing return exactly the element of that position, operations on an index past the end report failure (None/false) without changing anything and indexing panics, and len and iteration in both directions agree.",
 ["histories","inputs","configurations"],"all operation sequences, all indexes including out of range ones, all numbers of bits, sizes across every change of trie height",
 "Index arithmetic is wrong only at particular (bits, size, index) combinations: the boundary where the root grows or is compressed, sparse right edges, sizes above 32^3; tests use a few sizes.",
 [V],[("bit arithmetic of index to path",V+": height, vector_utils::bucket, root_max_capacity"),("root growth and compression",V+": push_back_mut, compress_root, Node::drop_last")],["Vector::get,get_mut,set*,push_back*,drop_last*,first,last,len,iter,Index,IndexMut,extend,from_iter"],
 [("root,bits,length","trie, branching, number of elements",V+": struct Vector")])
p("C05","Hash trie map and set are a finite map for any hash function",
 "For every history of insert, remove and mutable value access, for every accepted degree and every deterministic hash function (including total or partial collisions), HashTrieMap and HashTrieSet hold exactly one entry per distinct key, namely the key and value most recently inserted or assigned: get, get_key_value, contains, indexing (which panics exactly for absent keys), size, is_empty, keys, values and iteration all agree with that map, also for borrowed forms of the key.",
 ["histories","inputs","configurations"],"all operation sequences x all hash functions of the keys x all degrees 2..64 x all pointer kinds",
 "The shape of the trie is decided by the 64-bit hashes; collisions at the last level, long chains of single-child branches and their compression after removals practically never occur with the default hasher used in tests.",
 [HM,SA,HS,EN],[("hash segments select children; collision lists at maximum depth",HM+": index_from_hash, Node::get/insert/remove/compress, Bucket"),("sparse child array with bitmap",SA)],["HashTrieMap::get,get_key_value,get_mut,insert*,remove*,contains_key,size,iter,keys,values,Index","HashTrieSet::get,contains,insert*,remove*,size,iter"],
 [("root,size,degree,hasher_builder","trie, cached number of entries, branching, hash function",HM+": struct HashTrieMap")])
p("C06","Red-black tree map and set are a sorted finite map",
 "For every history of insert, remove and mutable value access, RedBlackTreeMap and RedBlackTreeSet hold exactly one entry per distinct key, the one most recently inserted or assigned, in increasing key order: get, get_key_value, contains, indexing (which panics exactly for absent keys), first, last, size, is_empty, keys, values and forward and backward iteration agree with a sorted map, also for borrowed forms of the key.",
 ["histories","inputs"],"all operation sequences and key orders, including sequences that drive every rebalancing case of insertion and deletion",
 "Deletion has many structurally distinct cases (append/fuse, left/right balance with red/black siblings) reachable only by particular insert/remove histories; an error loses or misorders entries only then.",
 [RM,RS],[("ordered insertion and deletion with rebalancing",RM+": Node::insert, Node::remove, balance, remove_fuse")],["RedBlackTreeMap::get,get_key_value,get_mut,insert*,remove*,contains_key,first,last,size,iter,keys,values,Index","RedBlackTreeSet::get,contains,insert*,remove*,first,last,size,iter"])
p("C07","Iterators visit every element once and report exact lengths",
 "Every iterator of every structure (iter, keys, values, borrowed into_iter) yields each element exactly once in the structure's order, and for Vector and the red-black tree structures any interleaving of next and next_back (and the adaptors nth, nth_back, rev, skip, step_by built on them) yields the front and back of the same sequence without overlap or omission. At every point size_hint and len equal exactly the number of elements left, and an exhausted iterator keeps returning None.",
 ["inputs","histories"],"all contents, all structure shapes reached by any history, all interleavings of front/back steps",
 "The two-ended iterators keep two independent stacks that must meet; whether they meet correctly depends on the shape and on the interleaving, of which tests try two or three.",
 [L,Q,V,HM,RM,RS,HS],[("exact counters next to traversal stacks",V+": IterPtr; "+HM+": IterPtr; "+RM+": IterPtr, iter_utils"),("lazily reversed half of the queue",Q+": LazilyReversedListIter")],["Iterator/DoubleEndedIterator/ExactSizeIterator implementations"])
p("C08","Range queries return exactly the keys inside the bounds",
 "For every tree content and every pair of bounds (included, excluded, unbounded, borrowed key types), range on RedBlackTreeMap and RedBlackTreeSet yields exactly the entries inside the bounds in increasing order, from either end and under any interleaving of the two ends, and finishes with None on both ends. It panics exactly when the start is greater than the end or both are equal and excluded.",
 ["inputs","histories"],"all contents and tree shapes x all bound pairs x all interleavings of next/next_back",
 "Pruned tree descent depends on where the bounds fall relative to each internal node; tests use one small fixed tree and a few bounds.",
 [RM,RS],[("bounded descent stacks",RM+": RangeIterPtr, iter_utils::IterStack"),("bound validation",RM+": range")],["RedBlackTreeMap::range, RedBlackTreeSet::range"])
p("C09","Equality, order, hash and display depend only on the content",
 "Two structures of the same type compare equal exactly when their contents are equal, whatever histories, pointer kinds, trie degrees, bits per level or hasher states produced them; equal values hash equally (while two collections hashed in a row differ from the same elements divided otherwise), the ordering of List, Stack, Queue, Vector and the red-black tree types is the lexicographic order of their elements (entries), consistent with equality, and Display prints exactly the elements in iteration order in the documented delimiters or reports that the writer failed.",
 ["inputs","histories","configurations"],"all pairs of contents and pairs of histories/configurations producing them",
 "Tests compare a few literals built one way; equality that accidentally depends on shape (queue halves, trie compression, degree, cached size, shared roots) needs two different histories to show.",
 ALL,[("element-wise comparison over iterators, lookup-based map equality",L+", "+Q+", "+V+", "+HM+", "+RM+": PartialEq/PartialOrd/Ord/Hash/Display impls")],["==, !=, partial_cmp, cmp, hash, format!"])
p("C10","Set relations agree with set theory",
 "For every pair of sets, whatever histories, hash functions, degrees or (for red-black tree sets) pointer kinds built them, is_subset, is_superset, is_disjoint and equality of HashTrieSet and RedBlackTreeSet give the mathematically correct answer.",
 ["inputs","histories","configurations"],"all pairs of sets (overlapping, nested, disjoint, empty, shared with each other)",
 "The ordered algorithms walk two iterators in lock step, so wrong answers need particular interleavings of elements of the two sets at the ends or in the middle.",
 [HS,RS],[("lookup-based relations",HS+": is_subset, is_disjoint"),("merge walk over two sorted iterators",RS+": is_subset, is_disjoint")],["is_subset, is_superset, is_disjoint, =="])
p("C11","In-place and persistent operations are the same operation",
 "For every structure and state, an in-place update leaves the receiver equal in content to what its persistent counterpart returns (and reports through bool exactly what the counterpart reports through Option or unchanged content), whether or not the receiver shares parts with other versions; extend and from_iter equal repeated single updates.",
 ["inputs","histories"],"all states (shared, partly shared, unshared) x all operations",
 "The two paths differ in how much is uniquely owned: in-place code takes different branches of copy-on-write when nodes are shared or not; tests run them on separate fixed inputs.",
 ALL,[("persistent forms defined through clone + in-place forms",L+", "+Q+", "+V+", "+HM+", "+RM)],["every *_mut method against its persistent twin"])
p("C12","Serialization round-trips and rejects malformed input cleanly",
 "For every content of every structure, deserializing the serialized form (text or binary format) gives an equal structure with the same order, and the serialized form is the plain sequence or map of the content. For every other input, including truncated, corrupted or hostile data with wrong length prefixes, deserialization returns a value or an error and never panics, aborts or exhausts memory because of a claimed length.",
 ["inputs","histories"],"all contents and histories; all byte strings / value trees given to the deserializers, all size hints",
 "Tests round-trip one small literal per structure through JSON, which never gives a size hint; malformed input is not tested.",
 [L,S,Q,V,HM,RM,HS,RS],[("visitors building the structure element by element",L+", "+V+", "+HM+", "+RM+", "+HS+", "+RS+": mod serde")],["Serialize/Deserialize implementations"])
p("C13","Parallel iteration equals sequential iteration",
 "For every HashTrieMapSync content (any hash distribution, collisions included) and any number of worker threads or way of splitting the work, the parallel iterator delivers every entry exactly once, so that collecting, counting, filtering, reducing and searching agree with the sequential iterator.",
 ["inputs","schedules","configurations"],"all trie shapes x all splitting decisions x thread pool sizes",
 "Splitting decisions are taken by the thread pool at run time; tests use the default pool and well-spread hashes only.",
 [RY,HM],[("splittable producer over child slices and collision lists",RY+": HashTrieMapProducer::split, fold_with")],["(&map).into_par_iter()"])
p("C14","Red-black trees stay balanced: logarithmic key comparisons",
 "After any history of insertions and removals leaving n entries, a lookup (get, contains, remove or insert of any key) in RedBlackTreeMap or RedBlackTreeSet compares its key with at most 2*log2(n+1) distinct stored keys on the search path, and updates and first/last touch O(log n) nodes; each element taken from either end of a range, the first ones included, costs O(log n) comparisons; so no sequence of operations can degrade the tree.",
 ["histories","inputs"],"all insert/remove histories (sorted, reversed, alternating, adversarial) and all looked-up keys",
 "The invariant tests check is internal and only for a handful of histories; a missed recolouring still returns right answers on every small test.",
 [RM],[("red-black invariants restored by balance on insertion and deletion",RM+": Node::balance, remove helpers, color")],["number and identity of keys handed to Ord::cmp"])
p("C15","Operations cost what the documentation says (structural sharing)",
 "On structures of any size and history, each operation performs within a constant factor of the documented number of node allocations, node visits and reference-count updates: constant for clone, push/pop at the sequence ends, peek, len (amortised constant for dequeue over an in-order use), logarithmic for Vector and red-black tree operations and bounded by the trie height for hash trie operations with well-spread hashes, so new versions share almost everything with old ones.",
 ["inputs","histories"],"all operations x sizes up to 10^5 and beyond x histories x sharing states",
 "Tests only observe contents: an implementation that silently copies the whole structure or walks it linearly passes all of them.",
 ALL,[("path copying with make_mut on shared pointers",V+", "+HM+", "+RM),("constant-time cons cells",L)],["pointer operations counted by an instrumented shared-pointer kind plugged in through the public type parameter"])
p("C16","Elements are released exactly once and exactly when unreachable",
 "At every point of every history, the elements (keys, values) that are still alive are exactly those contained in some version still alive: each is dropped exactly once, as soon as the last version containing it goes away or replaces it, and nothing is leaked. Elements are never cloned except by mutable access to an element that is shared with another version, and then only that element.",
 ["histories","inputs"],"all histories of branching versions, drops in any order",
 "Contents look right even if a removed element is retained in an internal cache or list; tests do not track drops over histories.",
 ALL,[("reference counting plus clearing of cached pointers",L+": drop_first_mut (last), Drop; "+HM+": list_remove_first, compress; "+V+": drop_last")],["Drop/Clone of instrumented element types"])
p("C17","No operation overflows the stack, however large the structure",
 "Dropping, cloning, reversing, iterating, comparing, hashing, formatting (Display and Debug), collecting and serializing structures of any size use a bounded amount of stack, in any order of dropping versions that share tails, also when several threads drop their last references to shared versions at the same time.",
 ["inputs","histories","schedules"],"all sizes, all sharing/drop orders, all interleavings of concurrent drops",
 "One test drops one long unshared list on one thread; formatting, shared tails and the race between two dropping threads are not reached.",
 ALL,[("iterative destruction of list nodes",L+": Drop"),("bounded recursion depth in tries and trees",V+", "+HM+", "+RM)],["process survival and stack depth measured inside element destructors"])
p("C18","Sync variants behave sequentially under concurrent use",
 "When threads concurrently read, clone, update and drop their own handles of structures that share nodes (thread-safe pointer kinds), every thread observes exactly what it would observe if it ran alone, under every interleaving of reference-count operations, and afterwards every element has been released exactly once.",
 ["schedules","histories"],"all interleavings of pointer operations of several threads x all operation sequences per thread",
 "There are compile-time Send/Sync checks only; copy-on-write decisions race with other threads' clones and drops only at particular points.",
 ALL,[("uniqueness decided atomically by the shared pointer (make_mut, get_mut, try_unwrap)",L+": Drop, reverse_mut; "+HM+", "+RM+", "+V)],["per-thread observations against a sequential model"])
p("C19","A panicking callback never damages other versions",
 "If user code called by a structure (key comparison, equality, hashing, element clone, or a source iterator) panics at any point during any operation, every version other than the one being updated in place, including the receiver of a persistent operation, is observably unchanged, and all elements are still released exactly once when the versions are dropped.",
 ["fault_sequences","histories","inputs"],"a panic injected at every k-th callback of every operation in every history",
 "No test injects a panic; a window in which a shared node is temporarily emptied or a reference count is off shows only then.",
 ALL,[("copy-on-write before modification",HM+", "+RM+", "+V+", "+L)],["all reads of all versions after catching the panic"])
p("C20","ptr_eq is sound and holds for clones",
 "For the four map and set types, ptr_eq is true between a structure and itself and any fresh clone of it, in both directions, before either is changed, and whenever ptr_eq is true the two structures have equal contents, whatever histories lie behind them; removing an absent key from a version leaves the result ptr_eq to the original.",
 ["histories","inputs"],"all pairs of versions in all branching histories, including different pointer kinds",
 "Equality and persistence fast paths rely on it; a false positive needs an in-place change that does not replace a shared root, or empty/non-empty roots confused, in a particular history.",
 [HM,RM,HS,RS],[("root pointer comparison",HM+": ptr_eq; "+RM+": ptr_eq"),("unchanged result of remove is a clone",HM+": remove; "+RM+": remove")],["ptr_eq between all pairs of versions"])
p("C21","Construction works for every configuration and every source iterator",
 "Every constructor either rejects its configuration by panicking or returns an empty structure that then works for every content; the default, *_sync, macro, from_iter, collect and extend ways of building give the same content as inserting one by one (a collected List or Stack iterates in the order of the source). Building from an iterator depends only on the items it yields, in particular not on its size_hint (which may be absent, too low, or an upper bound far above or below the truth).",
 ["inputs","configurations"],"all constructor arguments x all contents x all source iterators and size hints",
 "Tests construct with two or three valid configurations and collect from exact-size ranges.",
 [L,S,Q,V,HM,RM,HS,RS,LIB],[("argument assertions",HM+": new_with_hasher_and_degree_and_ptr_kind; "+V+": new_with_bits"),("FromIterator/Extend",L+", "+V+", "+HM+", "+RM)],["constructors, macros, FromIterator, Extend, Default"])
p("C22","Memory footprint does not depend on the history",
 "A structure that is alone (no other version alive) holds no more shared nodes than a small constant factor and constant above those of a fresh structure built from the same content, whatever history of growth, shrinkage, collisions and removals led to it; an emptied structure holds no more than a new one plus a constant.",
 ["histories","inputs","configurations"],"all histories that grow and shrink a structure",
 "Answers stay correct when emptied branches, uncompressed chains or stale list tails are kept; tests never measure space.",
 ALL,[("pruning of empty branches and root compression",V+": Node::drop_last, compress_root; "+HM+": compress, list_remove_first")],["live shared pointers counted by an instrumented pointer kind"])
p("C23","Every feature configuration gives the same behaviour",
 "Built without the standard library feature, with default features, or with all features, and with the default hash builder of that configuration, every structure obeys the same models: maps and sets find exactly what was inserted, sequences keep their order, clones (including maps cloned from maps) hash consistently with the original, and persistence, iteration, ranges, equality, set relations, release, balance, cost, bounded stack and panic safety hold as in the full build.",
 ["configurations","histories","inputs"],"feature sets {none, std, serde, rayon, all} x all histories",
 "The repository's tests run with all features; the no_std configuration is only type-checked.",
 [UT,LIB,HM,RY],[("feature-dependent default hasher",UT+": DefaultBuildHasher"),("conditional compilation",LIB)],["public API of the crate built with --no-default-features"])
p("C24","A panicking callback leaves the version being updated in place intact",
 "If user code called during an in-place update (key comparison, equality, hashing, element clone, or a source iterator) panics, the version being updated stays a valid structure with exactly the content it had before the update (an interrupted extend has taken over some of the items, in order), its size included. It goes on behaving as that content under all further operations, and nothing is leaked or released twice.",
 ["fault_sequences","histories","inputs"],"a panic at every callback of every in-place update in every history, with and without shared nodes",
 "No test injects a panic; a size counted early, a root or a bucket taken out while a comparison runs, is visible only in what the structure does after a panic was caught.",
 ALL,[("removal from a collision bucket",HM+": list_remove_first"),("insertion and removal replace nodes after all comparisons",HM+", "+RM),("copy-on-write before modification",V+", "+Q)],["content, reads and further updates of the updated version after catching the panic"])
p("C25","Comparing maps or sets with the same root takes constant time",
 "For the four map and set types, comparing a version with itself, with a clone that has not been changed since (direct or indirect, or assigned with clone_from), or with the result of removing an absent key from it, by ==, !=, is_subset or is_superset, gives true after a bounded number of calls of user code (Eq, Ord, Hash) and pointer operations, whatever the size of the version and the history behind it.",
 ["histories","inputs"],"all versions of all histories x all ways of sharing a root x comparisons",
 "The tests check answers only; the answer stays right when the shortcut is lost and everything is compared.",
 [HM,RM,HS,RS],[("shortcut for references to the same root",HM+": PartialEq; "+RM+": PartialEq; "+HS+": is_subset; "+RS+": is_subset")],["calls of Eq/Ord/Hash of the elements and pointer operations during ==, is_subset, is_superset"])
p("C26","In-place updates of an unshared version reuse its nodes",
 "An in-place update (push, pop, insert, remove, set, get_mut, extend, reverse and so on) of a version that shares nothing with another living version makes at most a constant number of new references to existing nodes and elements, and allocates at most a constant plus a logarithmic number of nodes, for each element added or removed, and clones no element. This holds whatever the size of the version and whatever the history before, including versions that once shared nodes with others since dropped.",
 ["histories","inputs","configurations"],"all histories x all in-place updates at a point where no other version lives",
 "Copying the path, or everything, gives the same answers; only the cost shows it, and the benchmarks are not compared with anything.",
 [L,S,Q,V,HM,RM,HS,RS],[("updates through make_mut on the only reference",V+": assoc; "+HM+": insert; "+RM+": insert, remove; "+L+": drop_first_mut, reverse_mut")],["reference-count increments and allocations of an instrumented pointer kind during in-place updates"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,sch); assert len(d["title"])<=80,d["id"]
    n=d["statement"].count(". ")+1; assert n<=3,(d["id"],n)
print(len(P))

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Concurrent readers never influence each other's answers",
 "When any number of threads query one tree, map or set through shared references at the same time (get, contains, first/last, iteration in both directions, cursors, rank/select by augmentation, visitors, set union, cloning), every answer is the one a lone reader would get from the same contents, under every interleaving. This stays true across any alternation of such read phases with exclusive modifications, whatever was looked up before by whom; for queries that a user's comparison or visitor makes on the collection while another query of the same thread is under way; and without two readers ever touching the same memory unsynchronised when one of them writes it (no data race).",
 ["schedules","histories"],"every interleaving of reader threads at the granularity of single accesses to shared memory and single key comparisons, alternating with arbitrary exclusive modifications",
 "Every existing test is single-threaded; the shared hint that lookups write through &self is never touched by two threads, so the interleaving quantifier is not sampled even once.",
 ["src/tree/node_stores/vec_backed.rs","src/tree/mod.rs","src/tree/cursor.rs","src/tree/iterator.rs","src/set.rs","src/map.rs"],
 [("one atomic leaf hint, validated against the key before use","src/tree/node_stores/vec_backed.rs try_cache/cache_leaf"),("lookup via hint or descent","src/tree/mod.rs get/find_descend/locate_leaf")],
 ["answers of read calls on reader threads"],
 [("cached leaf hint","leaf touched by the most recent lookup/insert; mutated through &self by every reader","src/tree/node_stores/vec_backed.rs cached_leaf")],
 None)
p("C02","Interleaved clients observe one ordered map",
 "For every interleaving of clients inserting, overwriting, removing, looking up, mutating values in place and clearing on one collection, every returned value, the length, emptiness, first/last element and full ascending iteration are those of a sorted map that applied the same operations in the same order. No answer depends on what any client looked up earlier.",
 ["histories","schedules"],"all operation histories of any number of clients, any collection size and shape (single leaf to at least four levels), any key order",
 "The tests run three fixed workloads (fill, probe, empty in shuffled order) without an independent model; states such as half-full siblings at several levels, merges that cascade, or a stale hint on a merged leaf are reached only by luck.",
 ["src/tree/mod.rs","src/tree/tree_remove.rs","src/tree/leaf_node.rs","src/tree/inner_node.rs","src/tree/slice_utils.rs","src/tree/node_stores/vec_backed.rs","src/map.rs","src/set.rs"],
 [("split on full node, promoted separator key","src/tree/mod.rs insert_leaf/insert_inner; inner_node.rs split"),("rotate/merge on underflow","src/tree/tree_remove.rs"),("hint validation","src/tree/node_stores/vec_backed.rs try_cache")],
 ["return values of insert/remove/get/get_mut/first/last/len/iter/clear/contains"],
 [("separator keys","partition the key space between children","src/tree/inner_node.rs slot_key"),("leaf chain","prev/next links used by iteration","src/tree/leaf_node.rs prev/next")])
p("C03","Detached cursors stay correct while others modify the tree",
 "A cursor holds no borrow, so the tree may be changed arbitrarily between its uses, including removing its key, emptying, clearing or refilling the tree, or applying it to a clone. At every moment its key is unchanged, its value is the current value of that key or nothing, and next/prev move to the nearest existing greater/smaller key or report none; first/last cursors exist exactly when the tree is non-empty.",
 ["histories","schedules"],"any number of cursors, created at any time, interleaved with any modifications by other clients",
 "Two tests walk one cursor while deleting random keys and never insert, overwrite, merge repeatedly, clear, or hold cursors across many modifications; the quantifier over interleavings is barely sampled.",
 ["src/tree/cursor.rs","src/tree/mod.rs","src/tree/leaf_node.rs"],
 [("leaf id and offset hints revalidated by key, fallback to search","src/tree/cursor.rs locate_leaf"),("range test of a leaf","src/tree/leaf_node.rs in_range")],
 ["Cursor::first/last/next/prev/value/exists/key, get_cursor"],
 [("leaf_id_hint/offset_hint","where the key was when the cursor was made; may be stale or refer to a removed leaf","src/tree/cursor.rs")])
p("C04","An operation interrupted by a panic in user code leaves no trace",
 "If a key comparison, a key clone, or a read-only rank/select/visit callback panics in the middle of an operation on an existing collection, the panic reaches the caller and the collection afterwards has exactly the contents, length, order and augmentation it had before that operation. It stays fully usable: all later operations behave as if the interrupted one had never been issued, and the key and value handed to it are released exactly once.",
 ["fault_sequences","histories"],"every point at which a comparison, key clone or read-only callback can panic, in every operation and tree state, any number of times",
 "No test injects a panic; user comparisons and clones always succeed, so the whole fault dimension is unexplored.",
 ["src/tree/mod.rs","src/tree/tree_remove.rs","src/tree/leaf_node.rs","src/tree/inner_node.rs","src/tree/cursor.rs"],
 [("search completes before the first mutation","src/tree/mod.rs insert_inner, tree_remove.rs remove_impl"),("separator clone before structural change","src/tree/mod.rs insert_leaf, tree_remove.rs rotate_*_for_leaf")],
 ["full state comparison after each caught panic"])
p("C05","Every key, value and augmentation is released exactly once",
 "Every key, value and augmentation object owned by a collection is released exactly once, never while the collection still exposes it and never later than the end of the collection, whatever the history: overwrites, removals with rebalancing, clear, clone, consuming iteration abandoned at any point from either end, and operations interrupted by a panicking comparison or key clone. If releasing a value itself panics, or a clone or bulk construction is interrupted by a panic, objects may leak but none is released twice or used after release.",
 ["histories","fault_sequences"],"all histories, all abandonment points of consuming iterators, all interruption points",
 "Two tests count drops on a plain insert/remove-all and a never-advanced iterator with the unit augmentation; augmentations that own resources, partial consumption from both ends, and interrupted operations are not sampled.",
 ["src/tree/leaf_node.rs","src/tree/inner_node.rs","src/tree/iterator.rs","src/tree/mod.rs","src/tree/tree_remove.rs","src/tree/slice_utils.rs","src/tree/bulk_load.rs"],
 [("moves out of uninitialised slots, sizes bound the initialised part","src/tree/leaf_node.rs, src/tree/inner_node.rs"),("drop drains the consuming iterator","src/tree/iterator.rs Drop, src/tree/mod.rs Drop")],
 ["ledger of live instrumented objects"])
p("C06","Two-ended iteration hands out each element once, in order",
 "For borrowed and consuming iteration over trees, maps and sets, in every interleaving of taking from the front, taking from the back and forking a copy, each element is handed out exactly once: the front yields ascending, the back descending, and the two never cross. The reported remaining length is exact after every step, an exhausted iterator stays exhausted, and abandoning an iterator at any point is harmless.",
 ["schedules","histories"],"every interleaving of a front consumer and a back consumer with forks and abandonment at any point, over any tree state",
 "Tests only drain an iterator fully from one end; no interleaving of both ends and no partial state is ever exercised.",
 ["src/tree/iterator.rs","src/map.rs","src/set.rs"],
 [("remaining-length bookkeeping shared by both ends","src/tree/iterator.rs Iter/IntoIter")],
 ["next/next_back/len/size_hint/clone/drop of iterators"],
 [("remaining length","elements not yet handed out by either end","src/tree/iterator.rs len")])
p("C07","Augmentations always summarise the current contents",
 "After every operation of any interleaved history, including failed ones, the root augmentation equals the one computed from scratch over the current entries in key order, for the built-in counters and for user-defined augmentations that depend on keys, values and order. Selecting, mutating or removing by augmentation finds exactly the entry the query denotes (or none), ranking a present or absent key gives its exact position (overall, or within its group), and group sizes and group counts are exact.",
 ["histories","fault_sequences"],"all histories of inserts, overwrites, key and augmentation-addressed removals, bulk loads, clears and clones by interleaved clients, over any number of levels and any group layout, with comparison and clone panics",
 "Group tests use at most three large groups in one shallow tree, count tests use 500 ascending keys; groups straddling several nodes or levels, many groups per leaf, and value-dependent augmentations are not reached.",
 ["src/augment/mod.rs","src/augment/count.rs","src/augment/group.rs","src/tree/mod.rs","src/tree/tree_remove.rs","src/tree/inner_node.rs","src/tree/bulk_load.rs","src/tree/visit.rs"],
 [("recomputation along the modified path","src/tree/mod.rs insert_inner, src/tree/tree_remove.rs"),("count select/rank","src/augment/count.rs"),("group merge/search/rank","src/augment/group.rs")],
 ["root_augmentation, get/get_mut/remove_by_augmentation, rank_by_augmentation, descend_visit"],
 [("per-child augmentations","cached summary for each child","src/tree/inner_node.rs augmentations")])
p("C08","Bulk-built collections equal incrementally built ones, forever",
 "A collection built in one go from an iterator or sorted data, with duplicates (the last one wins), of any length, answers every query as if its items had been inserted one by one, and keeps doing so through every later interleaved history of modifications. If the source iterator, a comparison or a clone panics during construction, the panic reaches the caller and no item is released twice; a source that misreports its length changes nothing.",
 ["inputs","histories","fault_sequences"],"all item counts (including those leaving one leftover leaf or one leftover subtree), all duplicate patterns, all later histories, all interruption points of construction",
 "Tests load 400 distinct or paired ascending items and only read back; counts at node boundaries, mutation after loading and interrupted construction are never reached.",
 ["src/tree/bulk_load.rs","src/map.rs","src/set.rs","src/tree/inner_node.rs","src/tree/leaf_node.rs"],
 [("leaf filling with dedup keeping last","src/tree/bulk_load.rs"),("layer building","src/tree/bulk_load.rs build_inner_layer")],
 ["from_iter, bulk_load, then every operation"])
p("C09","A clone is an independent snapshot",
 "A clone of a tree, taken at any moment of any history, holds exactly the contents, length, order and augmentation of the original at that moment; from then on neither is affected by anything done to the other, in any interleaving, including dropping, clearing or consuming one of them. If cloning an element panics midway, the original is unchanged and fully usable.",
 ["histories","schedules","fault_sequences"],"all histories before the clone, all interleavings of later operations on both sides, all interruption points of the clone",
 "One test clones once and immediately drops the clone, looking only at a key counter.",
 ["src/tree/mod.rs","src/tree/leaf_node.rs","src/tree/inner_node.rs","src/tree/node_stores/vec_backed.rs"],
 [("deep copy of nodes and links","LeafNode/InnerNode/NodeStoreVec Clone")],
 ["all queries on both copies"])
p("C10","Misbehaving user callbacks cannot break memory safety",
 "Whatever a key ordering answers (inconsistently, or changing over time), and whatever position a user-supplied select callback or visitor returns, each operation either returns or panics with the collection still memory-safe: no element is read after release, released twice or invented. The reported length always equals the number of elements iteration yields, and every element can still be released exactly once.",
 ["fault_sequences","histories"],"all sequences of wrong answers from comparisons and position callbacks, in all operations and tree states",
 "All tests use lawful orderings and correct callbacks.",
 ["src/tree/mod.rs","src/tree/leaf_node.rs","src/tree/tree_remove.rs","src/tree/visit.rs","src/tree/cursor.rs","src/tree/node_stores/vec_backed.rs"],
 [("structure never derived from comparison results beyond bounded slots","src/tree/leaf_node.rs, src/tree/inner_node.rs"),("bounds checks on user-provided positions","src/tree/mod.rs get_ref_by_augmentation, src/tree/visit.rs")],
 ["ledger of live instrumented objects, len vs iteration"])
p("C11","Allocation failure ends in the allocation-error path, nothing else",
 "If any memory allocation made by an operation fails, the process terminates through the standard allocation-failure report; it never continues with, reads or writes invalid memory. Until that moment all earlier results were correct.",
 ["fault_sequences"],"every allocation of every operation, in every tree state, as the failing one",
 "No test makes an allocation fail.",
 ["src/tree/leaf_node.rs","src/tree/inner_node.rs","src/tree/node_stores/vec_backed.rs","src/tree/bulk_load.rs"],
 [("node allocation","src/tree/leaf_node.rs new, src/tree/inner_node.rs empty")],
 ["exit status and stderr of a child process whose allocator fails at the chosen call"])
p("C12","Set union is sorted and without duplicates for any number of consumers",
 "For any two sets in any state, every consumer of their union gets exactly the elements present in either set, ascending and without duplicates, from where it was forked or started, whatever other consumers of the same sets (on this or other threads) do in between: advance, fork, finish early, be abandoned, or be interrupted by a panicking comparison. At every moment the size hint brackets the number of elements still to come, and an exhausted union stays exhausted.",
 ["schedules","histories","fault_sequences"],"all pairs of set states (including a set with itself), all interleavings of advancing, forking and abandoning consumers, all comparisons as interruption points",
 "One doc example with three elements and one consumer that drains the union; no fork, no partial state and no second consumer is ever exercised.",
 ["src/set.rs","src/merge_iter.rs"],[("merge of two ascending iterators with one element held back","src/merge_iter.rs nexts/peeked"),("clone of the merge state","src/merge_iter.rs Clone")],["BPlusTreeSet::union: next/nth/size_hint/min/last/count/clone"],
 [("held-back element","element read from one side and not yet handed out","src/merge_iter.rs peeked")])
p("C13","Operations cost a logarithmic number of comparisons",
 "For every tree state, lookup, insert, remove, rank and select perform a number of key comparisons and node visits logarithmic in the number of entries.",
 ["inputs","histories"],"all tree states",
 "Benchmarks measure averages only.",
 ["src/tree/mod.rs","src/tree/consts.rs"],[("fixed fan-out, minimum fill","src/tree/consts.rs")],["comparison counts"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl (run by hand, output committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BST_WHY = ("The repository's tests insert random distinct keys and remove them once; which rotations, splices and "
           "replacements run depends on the whole history and key order, and no finite list of examples covers the histories that leave a bad link behind.")

def bst(id, name, mod, extra):
    p(id, f"{name}Map and {name}Set answer every history like a sorted map",
      f"For every sequence of operations, {name}Map/{name}Set return exactly what a sorted map holding the same entries would return: insert and remove hand back the old key-value pair (with the stored key object), and get, get_mut, contains_key, indexing, len, is_empty, floor, ceil, min, max, clear, iter, iter_mut and into_iter all agree with it." + extra,
      ["histories", "inputs"], "every finite operation history over any totally ordered key type, including re-inserted equal keys, borrowed-form lookups and repeated clear",
      BST_WHY, [f"src/{mod}/map.rs", f"src/{mod}/set.rs", f"src/{mod}/tree.rs", f"src/{mod}/node.rs"],
      [("insertion", f"src/{mod}/tree.rs::insert"), ("removal", f"src/{mod}/tree.rs::remove"), ("searches", f"src/{mod}/tree.rs::get/floor/ceil/min/max"), ("iterators", f"src/{mod}/map.rs")],
      state="tree links and the len counter", observe="return values of the public API after every operation")

bst("C01", "Avl", "avl_tree", "")
p("C02", "Every AvlMap/AvlSet subtree stays height balanced",
  "After any history of inserts and removes, the heights of the two subtrees of every node of an AvlMap/AvlSet differ by at most one, so that a lookup in an n-element map examines at most 1.45*log2(n+2) distinct keys.",
  ["histories"], "every insert/remove history, any size, any key order",
  "Balance is invisible in return values, so a missing rebalancing step passes every functional test; it shows only in the shape produced by particular removal histories.",
  ["src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
  [("rotations", "src/avl_tree/tree.rs::balance"), ("height bookkeeping", "src/avl_tree/node.rs::update"), ("splicing", "src/avl_tree/tree.rs::combine_subtrees/remove_min")],
  state="node heights", observe="the set of keys an instrumented Ord sees compared during get, from which the shape is rebuilt")
bst("C03", "RedBlack", "red_black_tree", "")
p("C04", "Every RedBlackMap/RedBlackSet shape stays a valid red-black tree",
  "After any history of inserts and removes, the tree inside a RedBlackMap/RedBlackSet admits a red-black colouring (no red node has a red child, every root-to-leaf path has the same number of black nodes), so that a lookup in an n-element map examines at most 2*log2(n+1) distinct keys.",
  ["histories"], "every insert/remove history, any size, any key order",
  "A lost colour flip or rotation changes no answer, only the worst-case depth, after particular deletion sequences.",
  ["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
  [("fix-up after insert", "src/red_black_tree/tree.rs::insert"), ("fix-up after remove", "src/red_black_tree/tree.rs::remove"), ("shift/balance helpers", "src/red_black_tree/node.rs")],
  state="node colours", observe="keys compared during get")
bst("C05", "Splay", "splay_tree", "")
p("C06", "SplayMap/SplaySet accesses cost O(log n) amortized at any size",
  "Over any sequence of m inserts, removes and mutable lookups (get_mut) on a SplayMap/SplaySet that never holds more than n elements, the total number of key comparisons is at most c*(m+n)*log2(n+2) for a small constant c, and a key just accessed through get_mut or insert is found again in a constant number of comparisons. Every operation, including get, floor, ceil, iteration, clear and drop, completes on a map of any shape and size without exhausting the stack.",
  ["histories"], "every access sequence (sequential, reversed, bit-reversed, working-set, random) up to hundreds of thousands of elements",
  "Amortized cost is a property of the whole access sequence; tests use random keys only, for which an unbalanced tree is just as fast.",
  ["src/splay_tree/tree.rs", "src/splay_tree/map.rs", "src/splay_tree/node.rs"],
  [("top-down splay", "src/splay_tree/tree.rs::splay"), ("recursive search and drop", "src/splay_tree/tree.rs::get/floor/ceil")],
  observe="comparison counter in an instrumented Ord; process survival on degenerate shapes")
bst("C07", "Treap", "treap", "")
p("C08", "Treap set algebra and splitting follow set theory, left operand winning",
  "union (+), intersection, difference (-) and symmetric_difference of two TreapMaps or TreapSets contain exactly the keys set theory prescribes in ascending order, each with the entry of the left operand where both have the key, and the result stays a fully working map with a correct len; split_off(key, inclusive) moves exactly the entries with keys > key (inclusive: the map keeps the key itself) or, when not inclusive, with keys >= key into the returned map and leaves the rest.",
  ["inputs", "histories"], "every pair of maps built by any history (disjoint, nested, interleaved, identical, empty), followed by any further operations",
  "The result depends on how the two random shapes interleave during recursive split/merge; unit tests use two or three elements.",
  ["src/treap/tree.rs", "src/treap/map.rs", "src/treap/set.rs"],
  [("split/merge", "src/treap/tree.rs::split/merge"), ("algebra", "src/treap/tree.rs::union/intersection/difference/symmetric_difference")],
  observe="full contents, len and follow-up operations on results")
p("C09", "TreapList is an exact indexable sequence under insert, remove and concat",
  "For every operation sequence TreapList behaves like a vector: insert(i, v) and remove(i) shift exactly the later elements, push/pop at both ends, get, get_mut, indexing, len, clear and iter/iter_mut/into_iter agree with the vector, and + concatenates left then right. An index past the end makes get/get_mut return None and insert/remove/indexing panic without changing the list.",
  ["histories", "inputs"], "every operation history and every index, including usize::MAX",
  "Implicit indices are derived from subtree sizes, so an error in size bookkeeping appears only after particular shapes.",
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"],
  [("implicit keys", "src/treap/implicit_tree.rs"), ("size bookkeeping", "src/treap/node.rs::update")],
  observe="public API return values")
p("C10", "Treap containers keep logarithmic depth under every key order and merge",
  "Whatever the key order and however a TreapMap/TreapSet was built up by insert, remove, split_off, union, intersection and difference from any number of independently built maps, a lookup examines O(log n) distinct keys (at most 4.4*ln(n)+30).",
  ["histories"], "every build history: sorted, reversed, organ-pipe, interleaved unions, split/merge cycles, heavy removal",
  "Depth is invisible in results; lost heap order shows only under adversarial (non-random) key orders, which tests do not use.",
  ["src/treap/tree.rs", "src/treap/node.rs", "src/treap/map.rs"],
  [("heap order kept by split/merge", "src/treap/tree.rs::merge/split/insert/union"), ("priority source", "src/treap/map.rs::rng")],
  state="node priorities", observe="keys compared during get")
bst("C11", "Skip", "skiplist", "")
P[-1]["anchors"] = {"files": ["src/skiplist/map.rs", "src/skiplist/set.rs"], "mechanism": [{"name": "per-level linking", "where": "src/skiplist/map.rs::SkipMap::insert"}, {"name": "per-level unlinking", "where": "src/skiplist/map.rs::SkipMap::remove"}, {"name": "searches", "where": "src/skiplist/map.rs::get/floor/ceil/min/max"}], "state": "per-level next pointers", "observe_at": "return values of the public API after every operation", "hook_needed": False}
p("C12", "SkipMap/SkipSet algebra follows set theory, left operand winning",
  "union (+), intersection, difference (-) and symmetric_difference of two SkipMaps or SkipSets contain exactly the keys set theory prescribes in ascending order, each with the entry of the left operand where both have the key; the result has the right len, stays searchable at every level and supports all further operations.",
  ["inputs", "histories"], "every pair of maps (disjoint, nested, interleaved, identical, empty), followed by any further operations on the result",
  "The algebra relinks towers of both operands level by level; a wrong upper link is found only by a later search that happens to use it.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs"],
  [("level-wise relinking", "src/skiplist/map.rs::union/intersection/map_difference/map_symmetric_difference")],
  observe="contents, len and follow-up operations on results")
p("C13", "SkipList is an exact indexable sequence under insert, remove and concat",
  "For every operation sequence SkipList behaves like a vector: insert(i, v) and remove(i) shift exactly the later elements, push/pop at both ends, get, get_mut, indexing, len, clear and iter/iter_mut/into_iter agree with the vector, and + concatenates left then right, also after arbitrary earlier removals. An index past the end makes get/get_mut return None and insert/remove/indexing panic without changing the list.",
  ["histories", "inputs"], "every operation history and every index",
  "Positions are derived from per-level distances; a wrong distance on one level is seen only when a later operation descends through that link.",
  ["src/skiplist/list.rs"],
  [("distance bookkeeping", "src/skiplist/list.rs::insert/remove"), ("concatenation", "src/skiplist/list.rs::add")],
  state="per-link distances", observe="public API return values")
p("C14", "SkipMap/SkipSet searches take logarithmic expected time",
  "After any history of inserts, removes and set operations on a SkipMap/SkipSet with n elements, the average over all stored keys of the number of distinct keys examined by a lookup is O(log n) (at most 3*log2(n)+16), whatever the insertion order.",
  ["histories"], "every build history: sorted, reversed, random, heavy removal, algebra results",
  "A skiplist that loses its express lanes still answers correctly; only cost monitoring can tell.",
  ["src/skiplist/map.rs"],
  [("tower heights", "src/skiplist/map.rs::gen_random_height"), ("starting height", "src/skiplist/map.rs::get_starting_height"), ("relinking all levels", "src/skiplist/map.rs::insert/remove/union/intersection")],
  observe="keys compared during get")
p("C15", "RadixMap and RadixSet answer every history like a byte-sorted map",
  "For every sequence of operations over arbitrary byte-string keys (including the empty key and keys that are prefixes of one another), RadixMap/RadixSet return exactly what a lexicographically sorted map would: insert and remove hand back the old pair, and get, get_mut, contains_key, indexing, len, is_empty, min, max, clear, iter, iter_mut and into_iter all agree with it, also after the map has become empty again.",
  ["histories", "inputs"], "every history over every set of byte strings (chains of keys that are prefixes of one another up to a few thousand long, since the tree is walked recursively)",
  "Node splitting and merging depend on which prefixes are present when a key arrives or leaves; tests use long random keys that rarely share prefixes.",
  ["src/radix/map.rs", "src/radix/set.rs", "src/radix/tree.rs", "src/radix/node.rs"],
  [("edge splitting", "src/radix/node.rs::split"), ("merge on removal", "src/radix/tree.rs::remove + src/radix/node.rs::merge"), ("sibling order", "src/radix/node.rs::insert_child")],
  observe="public API return values")
p("C16", "get_longest_prefix returns exactly the keys sharing the longest prefix",
  "RadixMap/RadixSet::get_longest_prefix(q) returns, in lexicographic order, exactly the stored keys whose common prefix with q has the maximal length L over all stored keys, when L >= 1 or q is empty; when q is non-empty and L = 0 it returns only the empty key if that is stored, and nothing otherwise. The answer depends only on the set of stored keys, never on the history that produced it.",
  ["inputs", "histories"], "every key set, query and construction history",
  "The answer is a function of the whole key set, while the code walks a shape produced by the history; tests query six tiny maps.",
  ["src/radix/tree.rs", "src/radix/node.rs"],
  [("descent and collection", "src/radix/tree.rs::get_longest_prefix"), ("subtree listing", "src/radix/node.rs::push_all_children")],
  observe="returned key lists")
p("C17", "TypedArena handles stay unique, stable and exact across any history",
  "For any sequence of allocate, free, get, get_mut and indexing on a TypedArena of any chunk size, a live Entry always designates exactly the value allocated under it (values never move or change), two live Entries never alias, freed slots are reused before the arena grows, and dropping the arena drops every live value once. Freeing or indexing a vacant Entry panics, get on it returns None, and the arena still works correctly afterwards.",
  ["histories"], "every allocate/free/access history, with misuse, for every chunk size",
  "Free-list corruption shows only after a particular free/allocate interleaving, often many operations after the faulty step.",
  ["src/arena.rs"],
  [("free list threading", "src/arena.rs::allocate/free"), ("chunk growth", "src/arena.rs::allocate")],
  state="chunks, head, capacity", observe="values seen through live handles")
p("C18", "sync::Stack is a linearizable lock-free LIFO stack",
  "Every concurrent history of push and try_pop on a shared Stack is linearizable with respect to a LIFO stack, and what was written before a push is visible after the pop that returns it. Every value len() returns (and is_empty, which is len() == 0) lies within the number of elements that could have been in the stack during the call: never more than the pushes begun minus the pops completed before it, never less than the pushes completed before it minus the pops begun.",
  ["schedules"], "every interleaving of any number of threads",
  "Unit tests are single-threaded; a lost update or ABA needs a specific preemption between the load of the head and the compare-and-set.",
  ["src/sync/stack.rs"],
  [("CAS push", "src/sync/stack.rs::push"), ("CAS pop with epoch guard", "src/sync/stack.rs::try_pop"), ("length counter", "src/sync/stack.rs::len")],
  observe="timestamped invoke/return event logs of all threads")
p("C19", "sync::Stack hands over each value exactly once and reclaims the rest",
  "Across every concurrent history each pushed value is returned by exactly one try_pop or dropped exactly once when the Stack is dropped, never both, never twice and never not at all, and the memory of popped nodes is not touched after it has been reclaimed.",
  ["schedules", "histories"], "every interleaving, for values with destructors and heap ownership",
  "The unit tests push Copy integers, for which a double drop or a leak is invisible.",
  ["src/sync/stack.rs"],
  [("value hand-over", "src/sync/stack.rs::try_pop"), ("deferred reclamation", "src/sync/stack.rs::try_pop (guard.defer)"), ("destruction", "src/sync/stack.rs::Drop")],
  observe="drop-counting values, counting allocator, AddressSanitizer/ThreadSanitizer builds")
p("C20", "In-memory collections drop every key and value exactly once and leak nothing",
  "In every history over any of the in-memory collections (avl, red-black, splay, treap, skiplist, radix, arena), each key or value handed to the collection is either returned to the caller or dropped by the collection exactly once - on overwrite, remove, clear, set operations, partially consumed into_iter, and drop - and all heap memory is released when the collection is gone.",
  ["histories", "inputs"], "every history, including iterators abandoned at any position and algebra consuming both operands",
  "Tests use integers, whose double drop or leak has no effect.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/treap/tree.rs", "src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/radix/map.rs", "src/arena.rs"],
  [("manual node freeing", "src/skiplist/map.rs::Node::free/deallocate"), ("into_iter destructors", "src/skiplist/map.rs::SkipMapIntoIter::drop")],
  observe="drop ledger per value plus a counting global allocator")
p("C21", "Safe use of the unsafe-backed modules never causes undefined behaviour",
  "No program using only the safe API of skiplist, sync::Stack, arena and the other in-memory collections reads or writes out of bounds, uses memory after it is freed, frees twice, makes misaligned or uninitialised accesses or violates Rust's aliasing rules, for every element type including zero-sized, over-aligned and heap-owning ones and ones whose comparisons or destructors panic or whose order is inconsistent.",
  ["programs", "inputs", "histories"], "every safe client program and every element type",
  "Undefined behaviour often has no visible effect in a test run; only a sanitizer or interpreter watching each access can see it.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/sync/stack.rs", "src/arena.rs"],
  [("raw tower nodes", "src/skiplist/map.rs::Node"), ("raw list nodes", "src/skiplist/list.rs::Node"), ("epoch pointers", "src/sync/stack.rs")],
  observe="AddressSanitizer and Miri executions")
p("C22", "BpMap answers every history like a sorted map at every node degree",
  "For every operation sequence and every pair of leaf and internal degrees (from 3 up) accepted by BpMap, insert, remove, get, contains_key, len, is_empty, min, max, clear, iter and iter_mut on the disk-resident B+ tree return exactly what a sorted map would, including overwrites of existing keys in full leaves.",
  ["histories", "configurations"], "every history, key order and degree configuration",
  "Splits, borrows and merges cascade differently for every degree and fill pattern; tests use one history per a few degrees.",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"],
  [("leaf insert/split", "src/bp_tree/node.rs::LeafNode::insert"), ("internal split", "src/bp_tree/node.rs::InternalNode::insert"), ("borrow/merge", "src/bp_tree/map.rs::remove")],
  observe="public API return values")
p("C23", "A reopened BpMap has exactly the contents it had before",
  "Dropping a BpMap after any completed operation and opening the same file again yields a map with exactly the same entries and length, which continues to behave like a sorted map under further operations, across any number of such sessions.",
  ["histories", "crash_points"], "every history split into sessions at every operation boundary",
  "Tests reopen once at a quiescent moment; stale metadata (root, len, free list, page count) appears only after particular operations right before closing.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("metadata page", "src/bp_tree/pager.rs::Metadata"), ("open", "src/bp_tree/pager.rs::open"), ("page writes", "src/bp_tree/pager.rs::write_node")],
  observe="contents after reopen")
p("C24", "BpMap keeps every record intact for all key/value types up to max size",
  "For every serializable key and value type, every node degree from 3 up and every record whose serialized size is within the configured maximum key and value sizes, no BpMap node ever overflows its page: all other records stay readable and unchanged, through nodes filled to capacity with maximum-size records.",
  ["inputs", "configurations"], "every key/value type (integers, bool, strings, byte arrays, Option, enums, Vec), size limit and degree",
  "Page size is computed from in-memory type sizes while pages hold the serialized form; only full nodes of maximum-size records of particular types reveal a shortfall.",
  ["src/bp_tree/node.rs", "src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("page size computation", "src/bp_tree/node.rs::Node::get_max_size"), ("degree computation", "src/bp_tree/node.rs::get_degree"), ("page layout", "src/bp_tree/pager.rs::write_node")],
  observe="public API and file page layout")
p("C25", "BpMap reuses freed pages so its file stays proportional to peak content",
  "In any history of inserts, removes and clears, pages freed by merging nodes are reused, so the file of a BpMap never grows beyond a constant number of pages plus the pages needed by the most nodes that were ever live at once, however many operations are performed, also across reopening.",
  ["histories"], "every churn history (fill/drain cycles, sliding window, clear cycles), with and without reopening",
  "A page leaked per merge is invisible in results and needs long churn to notice.",
  ["src/bp_tree/pager.rs"],
  [("free list", "src/bp_tree/pager.rs::allocate_node/deallocate_node")],
  observe="file length over time")
for id, nm, st, f in (("C26", "size-tiered", "SizeTieredStrategy", "size_tiered"), ("C27", "leveled", "LeveledStrategy", "leveled")):
    p(id, f"LsmMap with {nm} compaction answers every history like a sorted map",
      f"For every operation sequence and every configuration of {st} with positive limits, LsmMap's insert, remove, get, contains_key, len, is_empty, min, max, clear, flush and iter return exactly what a sorted map would at every moment - before, during and after flushes and compactions - and len_hint is never less than the actual length; a removed key never reappears and an overwritten value never comes back.",
      ["histories", "configurations"], "every history and parameter setting, with SSTables at any stage of compaction",
      "Which version of a key wins depends on how entries are spread over SSTables and when tombstones are purged; tests never delete across compactions in a controlled way.",
      ["src/lsm_tree/map.rs", f"src/lsm_tree/compaction/{f}.rs", "src/lsm_tree/sstable.rs"],
      [("merge", f"src/lsm_tree/compaction/{f}.rs::compact"), ("tombstone purge", f"src/lsm_tree/compaction/{f}.rs::compact"), ("newest wins", f"src/lsm_tree/compaction/{f}.rs::get"), ("SSTable search", "src/lsm_tree/sstable.rs::SSTable::get")],
      observe="public API return values")
p("C28", "A flushed LsmMap reopens with exactly the flushed contents",
  "After any history ending in a successful flush, dropping the LsmMap and opening its directory again with the same strategy type yields exactly the same contents, which continues to behave like a sorted map under further operations and sessions; a strategy directory that was created but never written reopens as an empty map.",
  ["histories", "crash_points"], "every history split into sessions at flush points, both strategies",
  "Reopening relies on metadata and logical time persisted along the way; an error shows only when old and new sessions' entries for the same key meet in a merge.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/map.rs"],
  [("metadata file", "try_compact/flush in both strategies"), ("logical time file", "get_and_increment_logical_time in both strategies"), ("open", "SizeTieredStrategy::open / LeveledStrategy::open")],
  observe="contents after reopen")
p("C29", "LsmMap survives process death at any file operation",
  "If the process is killed at any point between two file-system operations, the LsmMap directory can be opened again, contains every entry and deletion covered by the last flush that returned, and its contents equal the map's state after some operation at or after that flush.",
  ["crash_points", "histories"], "every file-operation boundary of every history, including during background compaction and its clean-up",
  "The window between deleting a stale SSTable and rewriting the metadata that names it is a few microseconds wide.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("metadata install before deletion", "try_replace_metadata in both strategies"), ("SSTable install", "try_compact in both strategies")],
  observe="reopen after a simulated kill at the k-th file operation")
p("C30", "LsmMap iterators are stable ordered snapshots",
  "An LsmMap iterator yields, in ascending key order and without duplicates, exactly the live entries at the moment iter() was called, regardless of inserts, removes, flushes and automatic SSTable creation performed on the map while it is alive; no compaction starts or deletes files while any iterator is alive, and compaction resumes after the last one is dropped.",
  ["histories", "schedules"], "every interleaving of iterator steps with map operations, any number of iterators, both strategies",
  "Tests never use the map while an iterator is alive.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("compaction hold-off", "metadata_lock_count in both strategies"), ("k-way merge", "SizeTieredIter/LeveledIter::next")],
  observe="yielded entries and directory listing")
p("C31", "Background compaction is invisible at every interleaving",
  "However slowly or quickly the background compaction thread runs relative to the thread using the LsmMap, and at whichever point its result is installed, every read returns what it would return without compaction and no SSTable created meanwhile is lost.",
  ["schedules"], "every relative timing of compaction steps and foreground operations, both strategies",
  "On an idle machine compaction of small tables always finishes at the same few points; the interesting overlaps (several flushes during one compaction, install in the middle of a run of deletes) need controlled delays.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("snapshot and hand-back", "spawn_compaction_thread/try_replace_metadata"), ("tables flushed meanwhile", "try_replace_metadata")],
  observe="reads after every foreground operation under injected delays")
p("C32", "Compaction reclaims space and bounds the number of SSTables",
  "When an LsmMap is flushed, its directory contains exactly the SSTables its metadata refers to (no orphaned and no missing directory), clear leaves none, and repeated overwriting or deletion of the same keys does not grow the disk usage or number of SSTables without bound under either strategy (with buckets wide enough to hold tables of similar size).",
  ["histories", "schedules"], "every churn history under both strategies",
  "Leaked SSTables never change an answer.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("stale table removal", "try_replace_metadata"), ("builder creation", "SSTableBuilder::new in compact")],
  observe="directory listing against decoded metadata.dat")
p("C33", "Every SSTable key is found for any table size, key type and value size",
  "For every set of entries written into one SSTable - any count, key type and distribution, value size, with or without tombstones - every live key is found with its exact value and every absent or deleted key is reported absent, for keys inside, between and outside the table's key range.",
  ["inputs"], "every entry set size (block boundaries, perfect squares, 1), key type (u8..u64, String, tuples) and value length from empty to hundreds of kilobytes",
  "The two-level index has one block per sqrt(n) entries and a bloom filter, so boundary errors hit one key in thousands.",
  ["src/lsm_tree/sstable.rs"],
  [("block index", "src/lsm_tree/sstable.rs::SSTableBuilder::append/flush"), ("binary search", "src/lsm_tree/sstable.rs::SSTable::floor_offset/get"), ("bloom filter", "src/lsm_tree/sstable.rs::SSTableBuilder::append")],
  observe="LsmMap::get/iter on a flushed map")
p("C34", "LsmMap reports I/O failures and loses no acknowledged data to them",
  "When a file-system call made on behalf of an LsmMap operation fails (disk full, I/O error), the operation returns Err or completes correctly - it never panics, and entries acknowledged by earlier successful operations are still returned by every later read that succeeds, as are the entries that an iterator yields before or after an error; once the fault is gone, operations succeed again and compaction goes on.",
  ["fault_sequences", "histories"], "every single failing file-system call and short bursts of failures at any point, foreground or background, both strategies",
  "Error paths are never executed by tests.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("memtable hand-over", "src/lsm_tree/map.rs::try_compact"), ("background errors", "spawn_compaction_thread in both strategies")],
  observe="results under injected failures")
p("C35", "Iterators of the in-memory collections are exact, resumable and independent",
  "For every collection state, interleaved shared iterators each yield the full ordered contents independently, an iterator that has returned None keeps returning None, writes through iter_mut reach exactly the yielded elements and are seen by later reads, and into_iter yields each owned element once in order even when it is stopped early or fails over to drop.",
  ["histories", "inputs"], "every collection state and every interleaving of several iterators and stopping points",
  "Tests collect whole iterators once.",
  ["src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/treap/map.rs", "src/treap/list.rs", "src/skiplist/map.rs", "src/skiplist/list.rs", "src/radix/map.rs"],
  [("stack-based traversals", "iterators in each map.rs"), ("pointer-chasing iterators", "src/skiplist/map.rs, src/skiplist/list.rs")],
  observe="yielded sequences")
p("C36", "BpMap reports I/O errors and refuses oversized records without harm",
  "When a file-system call made on behalf of a BpMap operation fails, the operation returns Err or its correct result and never panics; a failed lookup or iterator step changes nothing and can be retried, and an insert, remove or clear that failed before it had written anything leaves contents, len and file as they were. A key or value larger than the configured maximum makes insert panic before anything has changed, and reads and writes that the system completes only partly are carried on to the end.",
  ["fault_sequences", "histories"], "every single failing file-system call and every outage at any point of any history, every errno, any pattern of partial transfers, and every oversized key or value",
  "Error paths are never executed by tests.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("reading and writing pages", "src/bp_tree/pager.rs::get_page/write_node/allocate_node/deallocate_node"), ("size limits", "src/bp_tree/pager.rs::validate_key/validate_value"), ("metadata kept in memory", "src/bp_tree/pager.rs::set_len/set_root_page/clear")],
  state="the metadata held in memory and the pages of the file", observe="results of the public API under injected failures, and the bytes of the file")
p("C37", "Every BpMap lookup reads logarithmically many pages",
  "After any history, all lookups of a non-empty BpMap (present or absent key, min, max) read the same number h of pages, and h is logarithmic in the number n of entries: with leaf degree l and internal degree i, n >= 2*ceil(l/2)*ceil(i/2)^(h-2) whenever h >= 2.",
  ["histories", "configurations"], "every insert/remove history and every pair of degrees from 3 up",
  "An underfull node or a lost merge changes no answer; only the number of pages read tells.",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs"],
  [("splitting", "src/bp_tree/node.rs::insert"), ("merging and borrowing", "src/bp_tree/map.rs::remove"), ("height of the tree", "src/bp_tree/map.rs::insert/remove (root)")],
  state="fill of the nodes", observe="page reads per lookup, counted at the file-system calls")
p("C38", "In-memory collections hold memory in proportion to what they contain",
  "At every moment of every history, an in-memory map, set or list (AVL, red-black, splay, treap, skip list) of n elements holds at most n plus a constant number of heap blocks of a constant size each - after removals, clear, set operations, split_off and concatenation as well as after insertions; a RadixMap/RadixSet holds no more nodes than the path-compressed tree of its present keys needs; and a TypedArena has no more chunks than its greatest number of simultaneously live values required.",
  ["histories"], "every operation history of every collection",
  "Superfluous nodes, chunks that are not reused and oversized blocks change no answer, and dropping the collection still releases them, so neither tests nor leak checks see them.",
  ["src/radix/tree.rs", "src/arena.rs", "src/skiplist/map.rs", "src/skiplist/list.rs", "src/treap/map.rs", "src/splay_tree/map.rs"],
  [("merging radix nodes on removal", "src/radix/node.rs::merge, src/radix/tree.rs::remove"), ("free list", "src/arena.rs::allocate/free"), ("node layout", "src/skiplist/map.rs::Node::get_layout, src/skiplist/list.rs::Node::get_layout"), ("unlinking", "remove/clear in each collection")],
  state="heap blocks held", observe="live bytes and blocks of the counting allocator after every operation")
p("C39", "Single operations on large in-memory collections stay fast",
  "However a collection of hundreds of thousands of elements was built, one operation on it (lookup, insertion, removal, push, pop, len, min, max, floor, ceil, split_off, the first step of an iterator, concatenation with a short TreapList or SkipList, arena allocation and release) takes logarithmic or, for RadixMap/RadixSet, key-bounded time and never visits a constant share of the elements; splay trees satisfy this for their self-adjusting operations (insert, remove, get_mut, len); set operations, iteration and consumption take no more than logarithmic time per element.",
  ["histories"], "every way to build a large collection: ordered, reversed and random insertion, concatenation of many short lists, removals, unions",
  "An operation that walks the whole collection returns the right answer; at the sizes of the tests it is as fast as any other.",
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/skiplist/list.rs", "src/skiplist/map.rs", "src/treap/map.rs", "src/radix/tree.rs", "src/arena.rs", "src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs"],
  [("positions by subtree size", "src/treap/implicit_tree.rs"), ("links with distances", "src/skiplist/list.rs"), ("concatenation", "src/skiplist/list.rs::add, src/treap/list.rs::add"), ("stored lengths", "len in each collection")],
  state="shape of the collection", observe="CPU time of the thread per operation, best of several batches")
p("C40", "Leveled compaction keeps levels disjoint, sized and within their limits",
  "After every flush of an LsmMap with a LeveledStrategy whose background compaction has finished, the SSTables of a level have disjoint key ranges, each SSTable lists its keys in strictly ascending order and without repetition, level i holds at most max_initial_level_count * growth_factor^i SSTables, and no SSTable of a level carries more than max_sstable_size bytes of data before its last entry.",
  ["histories", "configurations"], "every write history, any configuration with positive limits, compactions running concurrently with writes or held back, reopening",
  "A compaction that leaves levels overfull, overlapping or tables oversized can go on answering correctly until a particular later overwrite.",
  ["src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("choosing and merging tables", "src/lsm_tree/compaction/leveled.rs::compact"), ("level limits", "src/lsm_tree/compaction/leveled.rs::compact (should_merge)"), ("splitting tables by size", "src/lsm_tree/compaction/leveled.rs::compact (max_sstable_size)")],
  state="metadata.dat and the SSTables it names", observe="metadata.dat and data.dat decoded after every flush")
p("C41", "LsmMap lookups open few tables and read little of them",
  "A get on an LsmMap opens no file for a key held in memory, opens only SSTables whose key range contains the key, at most one per level of a LeveledStrategy, skips most SSTables that do not contain the key (far more than two thirds of them, on average over many keys), and reads of each SSTable no more than an index block of about the square root of the number of entries and one record; an iterator, len and max read the records of each SSTable no more than once.",
  ["histories", "configurations", "inputs"], "every write history and key, present, absent or removed, both strategies",
  "A filter, range or index that is not consulted, or consulted wrongly in the safe direction, changes no answer, only the files that are opened and the bytes that are read.",
  ["src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/map.rs"],
  [("key range and Bloom filter", "src/lsm_tree/sstable.rs::SSTable::get"), ("index blocks", "src/lsm_tree/sstable.rs::SSTableBuilder::append"), ("one table per level", "src/lsm_tree/compaction/leveled.rs::get"), ("memtable first", "src/lsm_tree/map.rs::get")],
  state="summary, filter and index of each SSTable", observe="files opened and bytes read per lookup, recorded at the file-system calls")
p("C42", "LsmMap writes entries out exactly when its memory budget is exceeded",
  "An insert or remove on an LsmMap leaves its entry in memory as long as the keys and values of the entries held there (the latest of each key, a removal counting its key) fit into max_in_memory_size, and writes all of them out as one SSTable otherwise; clear, reopening and flush start the account afresh, and every other operation writes out at most once and only if there is something to write.",
  ["histories", "configurations"], "every history of overwrites, removals, clears, flushes and reopenings, every budget",
  "Accounting that drifts (overwritten or cleared entries counted, sizes confused) makes memory grow without limit or a table of every few entries; no result changes.",
  ["src/lsm_tree/map.rs"],
  [("accounting of an insertion or removal", "src/lsm_tree/map.rs::insert/remove"), ("writing out", "src/lsm_tree/map.rs::try_compact"), ("resetting", "src/lsm_tree/map.rs::clear/flush")],
  state="in_memory_usage", observe="SSTable directories made by the foreground, per operation")
p("C43", "Size-tiered compaction merges one bucket of similar tables",
  "A compaction of a SizeTieredStrategy replaces at least max_sstable_count SSTables by at most one; unless all of them are at most min_sstable_size, each is between bucket_low and bucket_high times their average size; and when more than max_sstable_count tables form a group of similar sizes apart from all others, or are all at most min_sstable_size, a compaction takes place.",
  ["histories", "configurations"], "every history of table sizes and every configuration of the buckets",
  "Merging tables of different tiers, or too few, answers every query correctly; it rewrites large tables over and over or lets small ones pile up.",
  ["src/lsm_tree/compaction/size_tiered.rs"],
  [("choosing the bucket", "src/lsm_tree/compaction/size_tiered.rs::get_compaction_range"), ("merging", "src/lsm_tree/compaction/size_tiered.rs::compact")],
  state="metadata.dat and the sizes of the SSTables it names", observe="SSTables before and after each compaction, with the compaction thread held at its first file operation")
p("C44", "BpMap updates touch O(height) pages, reads write nothing, scans read leaves once",
  "In a BpMap of h levels an insert or remove reads at most 3h+3 and writes at most 4h+4 pages; get, get_mut, contains_key, min, max, len, iteration, dropping and reopening write nothing; and an iterator reads no more than one path from the root and every leaf once.",
  ["histories", "configurations"], "every insert/remove/clear history and every pair of degrees from 3 up",
  "An update that rewrites siblings or the whole file, or a scan that descends anew for every entry, is correct and fast enough for a test.",
  ["src/bp_tree/map.rs", "src/bp_tree/pager.rs", "src/bp_tree/node.rs"],
  [("insertion and splitting", "src/bp_tree/map.rs::insert"), ("removal, borrowing and merging", "src/bp_tree/map.rs::remove"), ("iteration over leaves", "src/bp_tree/map.rs::BpMapIterMut"), ("pages", "src/bp_tree/pager.rs")],
  state="pages of the file", observe="bytes and calls of reads and writes per operation, counted at the file-system calls")
p("C45", "Leveled compaction rewrites only what it must",
  "A compaction of a LeveledStrategy takes place exactly when more than max_sstable_count SSTables await compaction, and takes all of those in; below the first level it replaces only SSTables whose key range overlaps with what comes into their level, and it moves SSTables from a level to the next one only if the level exceeds its limit, and then only so many that the limit is met.",
  ["histories", "configurations"], "every write history and every configuration with positive limits",
  "Rewriting every table of a level, or moving more than has to move, leaves a correct structure with correct answers; compactions merely cost as much as the whole map.",
  ["src/lsm_tree/compaction/leveled.rs"],
  [("when to compact", "src/lsm_tree/compaction/leveled.rs::try_compact"), ("overlapping tables", "src/lsm_tree/compaction/leveled.rs::compact (is_intersecting)"), ("what moves on", "src/lsm_tree/compaction/leveled.rs::compact (should_merge)")],
  state="metadata.dat and the SSTables it names", observe="SSTables and their keys before and after each compaction, with the compaction thread held at its first file operation")
p("C46", "Creating starts empty and harms nothing; opening needs a map",
  "A BpMap created at a path is empty and as large as any new one whatever the file there held, an LsmMap strategy refuses to be created in an existing directory and leaves it untouched, opening a path that holds no map fails and makes and changes nothing, and maps in different places do not affect each other.",
  ["histories", "inputs"], "every history of the map that was there, every content of the file, both strategies",
  "Leftovers of an earlier file show only when the new map grows over them, and an attempt to open or create must be harmless whatever state the place is in.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/compaction/size_tiered.rs"],
  [("creating a page file", "src/bp_tree/pager.rs::new"), ("opening a page file", "src/bp_tree/pager.rs::open"), ("creating a directory", "src/lsm_tree/compaction/leveled.rs::new, size_tiered.rs::new"), ("opening a directory", "src/lsm_tree/compaction/leveled.rs::open, size_tiered.rs::open")],
  state="the file or directory before the call", observe="results, contents and every file of the directory before and after the call")
p("C47", "BpMap and LsmMap keep their data on disk, not in memory",
  "However much data a map holds, an operation, an iteration, opening it or a compaction needs memory only for a bounded number of nodes or records at a time - for an LsmMap besides the entries its memory budget allows and the summaries and filters of its SSTables - and after an operation that memory is free again.",
  ["histories", "inputs"], "every history of operations, map sizes far above the bound, all degrees and configurations",
  "A map that holds its data in memory gives the same answers as one that does not, until the data outgrows the machine; small tests cannot tell them apart.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/map.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/compaction/size_tiered.rs"],
  [("pages", "src/bp_tree/pager.rs::get_page"), ("scan of a table", "src/lsm_tree/sstable.rs::SSTableDataIter"), ("compaction", "src/lsm_tree/compaction/leveled.rs::compact, size_tiered.rs::compact"), ("iteration", "src/bp_tree/map.rs::BpMapIterMut, src/lsm_tree/map.rs::LsmMapIter")],
  state="pages read, memtable, SSTable summaries and filters, records under way", observe="allocations and frees of the calling thread and of compaction threads, between and during calls")
p("C48", "Descriptors and compaction threads are bounded and released",
  "A BpMap has one file open and none once it is dropped; an LsmMap between operations holds a constant number of files open whatever the number of its SSTables, during operations at most a few per SSTable and iterator, and none once it is dropped and its compaction has ended; attempts to open or create a map, operations that fail and iterators dropped half-way leave none open; and no more than one compaction of a map is at work at a time.",
  ["histories", "schedules", "fault_sequences"], "every history, configuration and failing file-system call",
  "Descriptors left open, and compactions that overlap, show only after long use or at particular moments, by when every operation fails.",
  ["src/bp_tree/pager.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/compaction/size_tiered.rs"],
  [("opening a page file", "src/bp_tree/pager.rs::new, open"), ("opening a table's files", "src/lsm_tree/sstable.rs::get, SSTableDataIter, SSTableBuilder"), ("starting a compaction", "src/lsm_tree/compaction/leveled.rs::try_compact, size_tiered.rs::try_compact")],
  state="open files and running compaction threads", observe="descriptors at the open and close calls of all threads, threads that make file-system calls")
p("C49", "Writes and lookups never wait for a compaction",
  "While a compaction of an LsmMap is under way, however long it takes and wherever it stands, insert, remove, get, contains_key and len_hint return the right results without waiting for it, also when they write the in-memory entries out and however many SSTables pile up meanwhile.",
  ["schedules", "histories"], "every position at which the compaction thread may stand still, every history beside it, both strategies",
  "On a test's tiny tables a compaction takes no time, so an operation that waits for it cannot be told from one that does not.",
  ["src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/map.rs"],
  [("starting a compaction", "src/lsm_tree/compaction/leveled.rs::try_compact, size_tiered.rs::try_compact"), ("taking its result over", "src/lsm_tree/compaction/leveled.rs::try_replace_metadata, size_tiered.rs::try_replace_metadata")],
  state="the compaction thread, held at a file-system call", observe="return and results of operations while it is held")
p("C50", "Records that cannot be serialized are refused without harm",
  "When serializing a key or value fails, insert into a BpMap or LsmMap and remove from an LsmMap return Err, and when it panics they pass the panic on; in either case contents, memory account, files and everything that follows are as if the call had not been made.",
  ["inputs", "histories"], "every history, every position of the record, every memory budget and degree",
  "A record refused too late is half-way in: the map answers wrongly, or can never be flushed again, only later.",
  ["src/lsm_tree/map.rs", "src/bp_tree/map.rs", "src/bp_tree/pager.rs"],
  [("insertion", "src/lsm_tree/map.rs::insert, src/bp_tree/map.rs::insert"), ("removal", "src/lsm_tree/map.rs::remove"), ("size check", "src/bp_tree/pager.rs::validate_key, validate_value")],
  state="memtable and memory account, pages of the file", observe="results of the refused and all later operations, file bytes, SSTables made")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        a = x["anchors"]
        if isinstance(a.get("state"), str): a["state"] = [{"name": a["state"], "meaning": "what the property depends on", "where": a["files"][0]}]
        if isinstance(a.get("observe_at"), str): a["observe_at"] = [a["observe_at"]]
        a["hook_needed"] = a["hook_needed"] or None
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
T = "src/tree/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

NODECAP = "cfg sweep_node_cap (small nodes, so that deep trees need few operations)"
p("C01", "Point operations implement an ordered map / set",
  "After any history of operations a map, set or tree holds exactly the keys that were inserted and not since removed, each with the value last stored for it. insert, get, get_mut, remove, contains, len, is_empty, first and last (also with a borrowed form of the key, such as &str for String keys) return what a mathematical ordered map would return at that point: the previous value, the stored value, whether the key was present, the number of entries, the smallest and the largest entry.",
  ["histories", "inputs"], "every sequence of inserts (new and existing keys), removals, lookups and in-place updates over every key order, tree height and node fill, with any interleaving of reads between the writes",
  "The tests run a few fixed or uniformly shuffled sequences of a few hundred to a few thousand keys and mostly check the end state; the result depends on which of the split/rotate/merge/collapse cases a history drives at which level and on which leaf was looked up last.",
  [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"node_stores/vec_backed.rs", "src/map.rs", "src/set.rs"],
  [("descend to leaf, insert/replace, split upwards", T+"mod.rs insert/insert_inner/insert_leaf"), ("delete in leaf, rotate or merge upwards, collapse root", T+"tree_remove.rs"), ("leaf hint checked against the leaf's key range", T+"leaf_node.rs in_range")],
  [("len", "number of entries", T+"mod.rs BPlusTree"), ("root, node store", "the tree", T+"mod.rs BPlusTree"), ("cached_leaf", "leaf of a recent lookup", T+"node_stores/vec_backed.rs")],
  ["return values of the public map, set and tree methods"], NODECAP)
p("C02", "Borrowing iteration yields the sorted contents from both ends",
  "An iterator over a borrowed map, set or tree yields every entry exactly once in ascending key order from the front and descending order from the back, for every interleaving of next and next_back (and of the adaptors built on them, such as nth, rev, last and count), and a cloned iterator continues independently from the same position. Its reported length (len, size_hint) always equals the number of entries still to come, and once exhausted it keeps returning None.",
  ["histories", "inputs"], "every content and tree shape reachable by inserts, removals or bulk building, and every interleaving of front and back steps, length queries and clones",
  "Tests iterate forwards, backwards, or meet in the middle over single examples; the guarantee is about every interleaving over leaf chains produced by arbitrary histories.",
  [T+"iterator.rs", "src/map.rs", "src/set.rs", T+"leaf_node.rs", T+"tree_remove.rs"],
  [("leaf chain (prev/next) kept by split, merge and bulk load", T+"leaf_node.rs, tree_remove.rs, bulk_load.rs"), ("remaining length shared by both ends", T+"iterator.rs Iter")],
  [("prev/next", "leaf chain", T+"leaf_node.rs")], ["Iter::next/next_back/len/size_hint/clone"], NODECAP)
p("C03", "Owning iteration hands out every entry exactly once, in order",
  "Consuming a tree or set yields every key (with its own value) exactly once, ascending from the front and descending from the back, for every interleaving of next and next_back. The reported length always equals the number of entries still to come, and once exhausted the iterator keeps returning None; entries not yet taken when the iterator is dropped are released, not lost and not handed out twice.",
  ["histories", "inputs"], "every content and tree shape, every interleaving of front and back steps, and every point at which the iterator is dropped",
  "Tests consume whole small trees or one fixed prefix; the two ends walk mutable leaves that are emptied slot by slot, so the guarantee concerns where they meet for every shape.",
  [T+"iterator.rs", "src/set.rs", T+"mod.rs"],
  [("positions at both ends plus remaining length", T+"iterator.rs IntoIter"), ("drop drains what is left", T+"iterator.rs Drop for IntoIter")],
  [("pos/end/len", "front, back, remaining", T+"iterator.rs")], ["IntoIter::next/next_back/len/size_hint/drop"], NODECAP)
p("C04", "Bulk building equals inserting the items one by one",
  "A tree bulk-loaded from key-sorted data, or a map or set collected from an iterator in any order, has the same contents, length, lookups, order, root augmentation and iteration as one built by inserting the items one at a time, the last of several items with equal keys winning. It stays equivalent under every later sequence of operations, including removing everything.",
  ["inputs", "histories"], "every item count (in particular those just below, at and above the capacity of a leaf, of an inner node and of each tree level), every pattern of duplicate keys and every follow-up history",
  "Tests bulk load 400 or 1000 items, i.e. one fixed shape, and never modify the result; faults sit at sizes that leave an undersized last leaf or last inner node, and show only when that part is modified.",
  [T+"bulk_load.rs", "src/map.rs", "src/set.rs", T+"tree_remove.rs"],
  [("dedup keeping the last item", T+"bulk_load.rs DeDupKeepLast"), ("packed leaves, then inner layers", T+"bulk_load.rs build_inner_layer"), ("stable sort in from_iter", "src/map.rs, src/set.rs")],
  [], ["FromIterator, bulk_load, then every public operation"], NODECAP)
p("C05", "Stored augmentations always equal recomputation from the contents",
  "After every insert, overwrite, removal (by key or by augmentation query), bulk load and clear, the root augmentation equals what the user's augmentation functions compute from the current entries in key order. The same holds for every augmentation a visitor or search is shown for a child: it describes exactly the entries below that child.",
  ["histories", "inputs"], "every history of modifications, for augmentations that depend on keys, on values and on order, at every node of the tree",
  "Tests compare counts at the root only; a stale or misplaced augmentation of an inner child is invisible at the root when the total is unchanged, and needs a specific rotation, merge or split to arise.",
  [T+"mod.rs", T+"tree_remove.rs", T+"inner_node.rs", T+"bulk_load.rs", "src/augment/mod.rs"],
  [("augmentation refreshed on the way up", T+"mod.rs insert_inner, tree_remove.rs remove_by_ref"), ("augmentation moved with its child", T+"inner_node.rs split/merge_next/push/pop")],
  [("augmentations", "one per child", T+"inner_node.rs"), ("root_augmentation", "whole tree", T+"mod.rs")], ["root_augmentation, descend_visit"], NODECAP)
p("C06", "Count gives exact order statistics",
  "With the Count augmentation, querying index i returns the entry with exactly i smaller keys (None from len on), get_mut_by_augmentation(i) gives access to that entry's value, remove_by_augmentation(i) removes and returns exactly that entry, and rank_by_augmentation(k) returns Ok(number of smaller keys) if k is present and Err(number of smaller keys) otherwise. The root count equals len.",
  ["histories", "inputs"], "every content and tree shape, every index and key, also right after structural changes",
  "Tests query a few indices of trees built in one way; a wrong count of one inner child only affects some indices of some shapes.",
  ["src/augment/count.rs", T+"mod.rs", T+"tree_remove.rs", "src/map.rs"],
  [("subtract child counts on the way down", "src/augment/count.rs locate_in_inner"), ("add preceding counts", "src/augment/count.rs fold_inner"), ("remove by reference", T+"tree_remove.rs remove_by_ref")],
  [], ["get_by_augmentation, get_mut_by_augmentation, remove_by_augmentation, rank_by_augmentation, root_augmentation"], NODECAP)
p("C07", "GroupCount answers group queries exactly",
  "With the GroupCount augmentation the number of groups and the largest group with its item count at the root are exact; selecting (group, offset) returns that group's offset-th entry or None, for reading, updating in place and removing; the rank of a key is its group together with the number of smaller keys of the same group, Ok if the key is present and Err otherwise; and ExtractGroupSize returns the number of entries of a group (0 for an absent one).",
  ["histories", "inputs"], "every content, every distribution of groups over leaves and inner nodes (groups inside a leaf, spanning leaves or whole subtrees, starting or ending at any boundary), every group, offset and key",
  "Tests use one or two regular layouts; the merge, select and rank rules are case analyses over how groups straddle node boundaries at each level.",
  ["src/augment/group.rs", T+"mod.rs", "src/map.rs"],
  [("group summary of a leaf and of children", "src/augment/group.rs from_leaf, merge_with"), ("select and rank", "src/augment/group.rs locate_in_*, fold_*"), ("group size visitor", "src/augment/group.rs ExtractGroupSize")],
  [("GroupCount", "min group, max group, number of groups", "src/augment/group.rs")], ["root_augmentation, *_by_augmentation, descend_visit(ExtractGroupSize)"], NODECAP)
p("C08", "Cursors stay correct whatever happens to the tree",
  "A cursor denotes a key, and keeps working after any updates of the tree: value and exists report that key's current entry, next and prev (with or without value) go to the nearest larger and nearest smaller entry currently in the tree (None at the ends), whether or not the cursor's own key is still present. Cursors for the first entry, the last entry or a given key start at the right entry with the right value, and an empty tree has no first or last cursor.",
  ["histories", "programs"], "every history of insertions, removals, clears and bulk-built trees between creating and using a cursor, for any number of outstanding cursors",
  "Tests modify the tree once or twice around a cursor; a stale position hint matters only if the leaf it names was split, merged, shifted or emptied in a particular way in between.",
  [T+"cursor.rs", T+"leaf_node.rs", T+"mod.rs"],
  [("hints validated by key range and by key", T+"cursor.rs locate_leaf, value, next_with_value, prev_with_value"), ("leaf range test", T+"leaf_node.rs in_range")],
  [("leaf_id_hint, offset_hint", "where the key was last seen", T+"cursor.rs")], ["Cursor::first/last/next/prev/value/exists/key, get_cursor, cursor_first"], NODECAP)
p("C09", "Every key, value and augmentation is released exactly once",
  "Every key, value and augmentation given to or made by a collection is dropped exactly once: values replaced or removed are handed back to the caller intact, everything still stored is dropped when the collection, its clone or an unfinished owning iterator is dropped or cleared, and nothing is leaked, dropped twice or used after being dropped. At every moment each stored entry's own key and value are alive.",
  ["histories", "programs"], "every history of operations (including bulk loads with duplicates, clones, clears, partial owning iteration) and every point at which the collection is dropped",
  "The few Rc-based tests cover single leaves or one fill level; nodes are manually managed uninitialised arrays, so each move between slots, nodes and callers is a separate chance to duplicate or lose an item.",
  [T+"leaf_node.rs", T+"inner_node.rs", T+"mod.rs", T+"tree_remove.rs", T+"iterator.rs", T+"slice_utils.rs", T+"bulk_load.rs"],
  [("slots moved by raw copies, sizes say what is initialised", T+"leaf_node.rs, inner_node.rs, slice_utils.rs"), ("drop through the owning iterator", T+"mod.rs Drop, iterator.rs")],
  [("size", "initialised prefix of a node", T+"leaf_node.rs, inner_node.rs")], ["drop calls of user supplied key, value and augmentation types"], NODECAP)
p("C10", "A cloned tree is equal and independent",
  "Cloning a tree gives a tree with the same entries, length, root augmentation, order and query results. From then on the two behave as separate trees: no operation on one, including dropping, clearing or consuming it, changes what any operation on the other returns.",
  ["histories", "programs"], "every tree reachable by a history (including after removals and bulk loads), and every pair of histories continued on the original and the clone in any interleaving",
  "One test clones a small tree and compares contents; deep trees, trees with freed nodes and later divergence of the two are not reached.",
  [T+"mod.rs", T+"node_stores/vec_backed.rs", T+"leaf_node.rs", T+"inner_node.rs"],
  [("element-wise clone of nodes", T+"leaf_node.rs Clone, inner_node.rs Clone"), ("clone of the node store", T+"node_stores/vec_backed.rs Clone")],
  [], ["BPlusTree::clone followed by operations on both"], NODECAP)
p("C11", "The tree stays balanced, ordered and sufficiently full",
  "At all times all leaves have the same depth, every node's keys are strictly ascending and separate its children (everything below a child lies between its two neighbouring separators), every non-root leaf has at least one entry and every inner node at least two children, so the depth stays logarithmic. In a tree built by insertions and removals, every node but the root is at least a quarter full; a bulk-loaded tree's leaves are full except for the last.",
  ["histories", "inputs"], "every history of insertions and removals in every key order, and every bulk-load size followed by any history",
  "The structural self-check of the tests covers the leaf chain only; balance is never asserted, and losing it keeps all results right while lookups degrade or deeper operations become impossible.",
  [T+"mod.rs", T+"tree_remove.rs", T+"inner_node.rs", T+"leaf_node.rs", T+"bulk_load.rs", T+"consts.rs"],
  [("split at half", T+"leaf_node.rs split_new_leaf, inner_node.rs split"), ("rotate or merge below a quarter", T+"tree_remove.rs")],
  [("separators, children", "search structure", T+"inner_node.rs")], ["descend_visit shows every node on every root-to-leaf path"], NODECAP)
p("C12", "Descending visitors see a faithful path through the tree",
  "A descending visitor is called on one node per level from the root to a leaf: at each inner node it is shown that node's separator keys in ascending order and one augmentation per child, going down to child i leads to exactly the entries between separators i-1 and i, and at the leaf it is shown all entries there with their values in order. The visit returns exactly what the visitor completes with or what the leaf step returns, returns None when the visitor cancels, and an out-of-range child index is refused with a panic that leaves the tree usable.",
  ["inputs", "programs"], "every tree shape and every sequence of visitor decisions (any child, cancel or complete at any level, an index past the last child)",
  "The only visitor tests extract group sizes from one layout; other decisions, levels and bounds are not exercised.",
  [T+"visit.rs", T+"inner_node.rs", T+"leaf_node.rs", "src/map.rs"],
  [("visitor loop", T+"visit.rs descend_visit"), ("slices of initialised slots", T+"inner_node.rs keys/augmentations, leaf_node.rs keys/values")],
  [], ["DescendVisit callbacks and the result of descend_visit"], NODECAP)
p("C13", "Set union is the sorted merge without duplicates",
  "The union of two sets yields every key that is in either set exactly once in ascending order, however it is consumed (step by step, cloned half way, min, or collected), and then keeps returning None. At every step its size_hint lower bound does not exceed, and its upper bound is not below, the number of keys still to come.",
  ["inputs", "histories"], "every pair of sets (empty, disjoint, nested, interleaved, equal, the same set twice) in every tree shape, and every consumption pattern",
  "One test merges one pair; the merge has to keep a peeked element across steps, clones and size queries.",
  ["src/merge_iter.rs", "src/set.rs", T+"iterator.rs"],
  [("merge with one peeked item", "src/merge_iter.rs nexts, lens"), ("union adaptor", "src/set.rs Union")],
  [], ["Union::next/size_hint/min/clone"], NODECAP)
p("C14", "Reading never changes anything, from any number of threads",
  "Lookups, iteration, rank and index queries, and cursor moves have no observable effect: however many are made, in whatever order, on present or absent keys, before or after any update, every later operation returns what it would have returned without them. This also holds when several threads read the same collection at the same time: every reader gets the same answers as it would alone.",
  ["schedules", "histories"], "every placement of reads between writes, and every interleaving of concurrent readers of one shared collection",
  "No test reads from more than one thread, and tests look up each key in one fixed order; lookups update a shared hint, so a fault needs a particular earlier lookup or a racing one.",
  [T+"node_stores/vec_backed.rs", T+"mod.rs", T+"leaf_node.rs", T+"cursor.rs"],
  [("relaxed atomic leaf hint, revalidated on use", T+"node_stores/vec_backed.rs cache_leaf/try_cache, leaf_node.rs in_range")],
  [("cached_leaf", "hint shared by all readers", T+"node_stores/vec_backed.rs")], ["results of reads and of later operations; Send/Sync of the collections"], NODECAP)
p("C15", "No legal sequence of calls panics, crashes or hangs",
  "Every call of the public API with valid arguments (any keys, indices, queries and cursors, present or absent, on empty, tiny, deep or bulk-built collections) returns normally: no panic, no failed internal assertion, no out-of-bounds access, no endless loop. This holds for every order of calls and every collection size, in particular at sizes where nodes become full, minimal or single, and while emptying or refilling a collection.",
  ["histories", "inputs"], "every history of legal calls, every size around the node and level capacities, every direction of draining and refilling",
  "Tests visit few sizes and never drain bulk-built or several-level trees from every side; unreachable-code assumptions fail only at particular sizes and orders.",
  [T+"mod.rs", T+"tree_remove.rs", T+"bulk_load.rs", T+"cursor.rs", T+"iterator.rs", T+"entry_ref.rs", T+"leaf_node.rs", T+"inner_node.rs"],
  [("unchecked node access relies on structural invariants", T+"node_stores/vec_backed.rs get_leaf/get_inner"), ("unreachable branches and assertions", T+"tree_remove.rs, iterator.rs, entry_ref.rs")],
  [], ["normal return of every public call; wall-clock bound"], NODECAP)
p("C16", "A panicking key comparison leaves the collection intact",
  "If comparing keys panics at any point inside a lookup, insertion, removal, rank or cursor operation on a plain or Count-augmented collection and the caller catches the panic, the collection still holds exactly its previous entries and length, and every later operation works as if the failed call had not been made. No key or value is dropped twice.",
  ["crash_points", "histories"], "every comparison at which the user's ordering may panic, in every operation, on every reachable tree",
  "No test uses a panicking comparison.",
  [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"cursor.rs"],
  [("all comparisons happen before the first modification", T+"mod.rs insert_inner, leaf_node.rs try_upsert, tree_remove.rs remove_impl")],
  [], ["contents and later results after a caught panic"], NODECAP)
p("C17", "An emptied collection is as good as new",
  "After clear, or after removing the last entry in any way, a collection reports length 0, no first or last entry, the default augmentation, no results from any lookup, query, iterator or new cursor, and from then on every sequence of operations returns exactly what it would on a newly created collection.",
  ["histories"], "every way of emptying (clear, removal by key in any order, by index, alternately from both ends) of every tree, followed by every history, repeatedly",
  "Tests clear one small set and drain a few trees once; stale roots, hints, counts or augmentations of the former contents show up only in particular refills.",
  [T+"mod.rs", T+"tree_remove.rs", "src/set.rs", T+"node_stores/vec_backed.rs"],
  [("clear replaces the whole tree", T+"mod.rs clear"), ("root collapse down to an empty leaf", T+"tree_remove.rs remove_by_ref")],
  [], ["all public operations after emptying"], NODECAP)
p("C18", "User-defined augmentations are searched and ranked correctly",
  "For any augmentation written by the user, also one that depends on values, search descends by passing the query from level to level exactly as the user's functions return it and reaches the entry they select, for reading, updating and removing; rank folds exactly the augmentations of everything before the key on each level, starting from the initial value, and passes the right slot and keys at the leaf. A weighted-position augmentation therefore finds the entry at every weight and a key's preceding weight exactly, and a maximum-value augmentation finds the first entry above every threshold. An index outside the node, answered by the user's search functions at any level, is refused with a panic that leaves the collection as it was.",
  ["histories", "inputs"], "every history of modifications (including overwriting values and removals by query), every query and every key, present or absent, every answer of the user's functions",
  "Examples only use value-independent or single-level augmentations with a few queries; tests do not check which slices the user's functions receive.",
  ["src/augment/mod.rs", T+"mod.rs", T+"tree_remove.rs", "src/map.rs"],
  [("query passed down", T+"mod.rs get_ref_by_augmentation"), ("preceding augmentations folded", T+"mod.rs rank_by_augmentation")],
  [], ["*_by_augmentation with user-defined augmentations"], NODECAP)
p("C19", "A panicking clone leaves the collection intact",
  "If cloning a key, a value or an augmentation value panics inside an insertion, removal or cursor operation, while a collection is cloned, or while one is built in bulk (also if the iterator it is built from panics), and the caller catches the panic, every existing collection still holds exactly its previous entries and length, and every later operation works as if the failed call had not been made. No key or value is dropped twice or read after it was dropped; what the failed call was working on may be leaked.",
  ["crash_points", "histories"], "every clone at which the user's code may panic, in every operation, on every reachable tree",
  "No test uses a clone that panics.",
  [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"bulk_load.rs", T+"cursor.rs"],
  [("separators are cloned before the first modification", T+"mod.rs insert_leaf, tree_remove.rs rotate_right_for_leaf/rotate_left_for_leaf"),
   ("an incomplete node is not dropped", T+"inner_node.rs new_from_iter/clone, leaf_node.rs clone")],
  [], ["contents and later results after a caught panic"], NODECAP)
p("C20", "A misbehaving ordering corrupts nothing but the order",
  "If the ordering of the keys breaks its promises (answers that contradict each other or change from one comparison to the next), calls may find the wrong entry, miss one, put a new one in the wrong place, or panic. But nothing else breaks: an insertion either adds exactly one entry or replaces the value of exactly one and hands the old value back; a removal takes out exactly the entry it hands back; everything else stays, in the same sequence; len, forward and backward iteration, owning iterators, cursors, positions and counts of a Count-augmented tree, clones and visitors agree on that sequence; nodes stay balanced and within their capacity. No entry is lost, yielded twice, dropped twice or read after it was dropped, and everything is released in the end.",
  ["inputs", "histories"], "every sequence of answers of the ordering, in every operation, on every reachable tree",
  "Tests only use lawful orderings. The tree contains unsafe code whose safety must not depend on the user's Ord.",
  [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"cursor.rs", T+"iterator.rs", T+"slice_utils.rs"],
  [("each call searches once and acts on the position found", T+"mod.rs insert_inner, tree_remove.rs remove_impl"), ("iteration goes by leaf chain and length, not by keys", T+"iterator.rs")],
  [], ["contents, len, iteration and releases after calls with a lying ordering"], NODECAP)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

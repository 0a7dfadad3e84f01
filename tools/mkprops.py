#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None,
                   **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))
RB = "src/rbtree.rs"
p("C01", "The map's root hash always certifies its current contents",
  "After any sequence of insertions, removals, clears and completed in-place updates, the root hash of a map equals the hash reconstructed from the full hash tree of its current entries, in which each key's label is bound to its current value's hash. An empty map has the hash of the empty hash tree, and an operation that fails to find its key leaves the root hash unchanged.",
  ["histories", "inputs"], "every finite history of map operations over every key type with a lawful order and label, and every value type whose root hash agrees with its hash tree",
  "The tests compare hashes after a few hundred operations with monotone keys; a hash left stale by one rotation or one deletion path shows only for particular shapes and histories.",
  [RB, "src/collections/map.rs"],
  [("subtree hash recomputed after every structural change", RB+": insert, delete, modify, modify_max_with_prefix, rotate_left, rotate_right"), ("subtree_hash", RB+": Node::subtree_hash")],
  ["AsHashTree::root_hash", "AsHashTree::as_hash_tree + HashTree::reconstruct"],
  [("subtree_hash", "hash of the subtree rooted at a node, cached", RB+": Node")])
p("C02", "The map behaves as an ordered dictionary",
  "Insert, remove, lookup, in-place update, length and emptiness agree with an abstract dictionary from keys to values for every history: an operation on a key changes that key's binding exactly as documented, returns the documented previous or removed pair, and leaves every other binding unchanged. The number of elements reported equals the number of bindings.",
  ["histories", "inputs"], "every finite history of operations, every lawful totally ordered key type and every borrowed form of the key that preserves its order",
  "Tests sample monotone key sequences; a lost or duplicated binding needs a specific tree shape (e.g. deleting an inner node whose successor is deep).",
  [RB, "src/collections/map.rs"],
  [("search-tree order", RB+": insert, delete, get, get_with, modify"), ("length bookkeeping", RB+": RbTree::len")],
  ["Map::{insert,remove,remove_entry,get,len,is_empty,clear}", "RbTree::{insert,delete,get,get_with,modify,max_entry_with_prefix}"],
  [("len", "number of bindings", RB+": RbTree")])
p("C03", "The map stays balanced: height is logarithmic in its size",
  "After every history of insertions, removals and updates, the tree behind a map with n entries has height at most 2*log2(n+1), so lookups, updates and witnesses for one key take O(log n) steps. In particular no order of insertions or removals can degrade it to a list.",
  ["histories"], "every finite history of insertions and removals",
  "is_balanced is compiled only into the crate's tests and so is checked only on the few sampled histories.",
  [RB], [("left-leaning red-black rebalancing", RB+": balance, move_red_left, move_red_right, rotate_left, rotate_right, flip_colors")],
  ["depth of the hash tree returned by as_hash_tree", "size of single-key witnesses"],
  [("color", "red-black colour", RB+": Node")])
p("C04", "Map operations are memory safe, leak-free and never panic",
  "No history of map operations with well-behaved key and value types dereferences a null or dangling node, frees a node twice, loses a node without freeing it, overflows or panics. Every key and value put into the map is handed back or dropped exactly once, including when the map is cleared or dropped.",
  ["histories", "inputs"], "every finite history of operations of the raw-pointer tree, including drop",
  "The allocation tracker exists only under cfg(test); Miri or a sanitizer sees only executed histories.",
  [RB, "src/rbtree/entry.rs", "src/rbtree/iterator.rs"],
  [("exclusive ownership of every node by its parent", RB+": Node, RbTree"), ("recursive drop", RB+": Drop for RbTree, Node::delete")],
  ["absence of crash or panic", "drop counts of keys and values"])
p("C05", "Every witness reconstructs to the root hash",
  "Every hash tree that a map produces for a key, a nested value, a key range, a value range, a prefix, all keys, or the whole map reconstructs to exactly the map's current root hash, whether the keys asked for are present or absent. This holds for every tree shape and every query.",
  ["histories", "inputs"], "every reachable map and every query argument (ranges with first <= last)",
  "The tests exercise a small set of shapes and queries; a wrong fork shape shows only where a subtree is missing, pruned, or borders the range.",
  [RB, "src/collections/map.rs"],
  [("three_way_fork mirrors Node::subtree_hash", RB+": three_way_fork, Node::subtree_hash"), ("witness recursion", RB+": lookup_and_build_witness, witness_range_above/below/between, full_witness_tree")],
  ["HashTree::reconstruct of the witness vs AsHashTree::root_hash"])
p("C06", "A witness for a present key proves exactly that entry",
  "For a key that is in the map, the witness contains exactly one labeled entry: that key's label, with the full hash tree of its current value (or the caller's nested tree) beneath it. Every other entry appears only in pruned form, so no other label or value is disclosed.",
  ["inputs", "histories"], "every reachable map and every key present in it",
  "Disclosure and selection depend on the position of the key in the tree; tests look at few positions.",
  [RB, "src/collections/map.rs"], [("path lookup", RB+": lookup_and_build_witness, nested_witness, witness")],
  ["HashTree::get_labels / get_leaf_values and structure of the witness"])
p("C07", "A witness for an absent key proves there is nothing in the gap",
  "For a key that is not in the map, the witness shows the labels of its immediate neighbours in key order (the greatest smaller and the least greater key, where they exist) with their values pruned, and nothing hidden lies between the two labels shown or, at an end, beyond the one shown. No other label and no value is disclosed.",
  ["inputs", "histories"], "every reachable map and every key absent from it, including keys below the minimum, above the maximum, and the empty map",
  "The gap between neighbours can straddle any shape of tree; tests check few absent keys and only reconstruct the hash.",
  [RB, "src/collections/map.rs"], [("neighbour bounds", RB+": lower_bound, upper_bound"), ("range witness", RB+": witness_range_above/below/between")],
  ["in-order sequence of labels and pruned nodes in the witness"])
p("C08", "Range, prefix and key-list witnesses are complete and minimal",
  "The witness for a range or prefix contains, in key order, a label for every key of the map that lies in the range (or starts with the prefix), with values for value ranges and pruned values otherwise, and nothing hidden lies inside the range. Outside the range it discloses at most the one neighbouring label on each side that proves the border, with its value pruned; the witness of all keys lists every key and no value.",
  ["inputs", "histories"], "every reachable map, every pair first <= last present or absent, every prefix for which the key type's prefix relation is lawful",
  "Completeness is a for-all over keys and shapes; a missed key at a border needs a particular shape.",
  [RB, "src/collections/map.rs"], [("bounds", RB+": lower_bound, upper_bound, right_prefix_neighbor"), ("range witnesses", RB+": witness_range_above/below/between, full_witness_tree")],
  ["in-order sequence of labels and pruned nodes in the witness"])
p("C09", "Hash-tree digests follow the Internet Computer specification",
  "For every hash tree the reconstructed digest equals the one the interface specification defines: SHA-256 over the length-prefixed domain separators ic-hashtree-empty, ic-hashtree-fork, ic-hashtree-labeled and ic-hashtree-leaf followed by the components in order, and a pruned node stands for its stored digest. Labels and leaf values enter the digest byte for byte, whatever their length.",
  ["inputs"], "every hash tree of every depth and every byte content",
  "One example tree from the specification is compared.",
  ["src/hashtree.rs"], [("digest functions", "src/hashtree.rs: reconstruct, fork_hash, leaf_hash, labeled_hash, domain_sep")],
  ["HashTree::reconstruct", "hashtree::{fork_hash, leaf_hash, labeled_hash}"])
p("C10", "Built-in values certify exactly their canonical bytes",
  "For every built-in value type the hash tree is a single leaf holding the value's canonical bytes (the bytes of strings, blobs and principals; big-endian for fixed-width numbers and for Nat; 0 or 1 for bool), pointers behave as the value they point to, and the root hash always equals the reconstruction of the hash tree.",
  ["inputs"], "every value of every built-in type",
  "Almost none of the implementations is exercised by a test.",
  ["src/as_hash_tree.rs"], [("implementations and macros", "src/as_hash_tree.rs")],
  ["AsHashTree::{root_hash, as_hash_tree}"])
p("C11", "Key labels are canonical, injective and order-preserving",
  "Each built-in key type's label is its canonical byte string (raw bytes, UTF-8, big-endian integers, 0/1 for bool; pointers label as their target; a page key is the key's label followed by the big-endian page number), two keys that differ have different labels, and labels sort in the same order as keys, so that a verifier may rely on label order. The prefix relation of byte-string and string keys holds exactly when the key starts with the prefix.",
  ["inputs"], "every pair of values of every built-in key type",
  "Labels are exercised only for a few unsigned values and strings.",
  ["src/label.rs", "src/collections/paged.rs"], [("label implementations and macros", "src/label.rs"), ("page key label", "src/collections/paged.rs: PagedKey::as_label")],
  ["Label::as_label", "Prefix::is_prefix"])
p("C12", "A sequence's root hash is the hash chain over its items",
  "A sequence's root hash is the left fold SHA-256(previous || item hash) over its items starting from 32 zero bytes, however the sequence was built (append, extend by value or reference, from a vector or slice, collected, deserialized, cloned or cleared), and its hash tree is that hash pruned. The items read back are exactly the items added, in order. The same holds for the sequences of a map that items are appended to by key: the item goes to the end of that key's sequence (a new one if there was none), the length reported for a key is its sequence's, and no other entry changes.",
  ["histories", "inputs"], "every history of building operations over every item type",
  "Tests compare two construction paths on one list of integers.",
  ["src/collections/seq.rs", "src/collections/map.rs"], [("incremental hash", "src/collections/seq.rs: append, recompute_hash, extend, From impls, clear"), ("sequences inside a map", "src/collections/map.rs: append_deep, len_deep")],
  ["Seq::{root_hash, as_hash_tree, as_vec, iter, len}", "Map::{append_deep, len_deep}"],
  [("hash", "hash chain over items", "src/collections/seq.rs: Seq")])
p("C13", "A paged collection keeps every key's items in order in full pages",
  "For every interleaving of insertions over any number of keys, the pages of a key are numbered contiguously from 0, all pages but its last hold exactly the page size, the last holds between 1 and the page size, and reading the pages in order yields the key's items in insertion order. Lookup of a page and the last page number agree with this for every page argument, and a page that does not exist is reported absent.",
  ["histories", "inputs"], "every history of insertions, every page size >= 1, every page argument",
  "One test with one page size and round-robin keys.",
  ["src/collections/paged.rs", RB], [("append to the key's maximum page", "src/collections/paged.rs: insert; "+RB+": modify_max_with_prefix"), ("page lookup", "src/collections/paged.rs: get, get_last_page_number; "+RB+": get_with, max_entry_with_prefix")],
  ["Paged::{get, get_last_page_number}"])
p("C14", "Paged witnesses certify the page or the last page number asked for",
  "After any history the root hash of a paged collection certifies all its pages; the witness for a page reconstructs to the root hash and proves that page's content or its absence, and the witness for the last page number proves that no page beyond the last one exists for the key (or that the key has no page at all).",
  ["histories", "inputs"], "every history of insertions, every key and every page number below 2^32",
  "No test builds a paged witness.",
  ["src/collections/paged.rs", RB], [("page key witness", "src/collections/paged.rs: witness, witness_last_page_number")],
  ["Paged::{witness, witness_last_page_number, root_hash}"])
p("C15", "A group certifies all its parts and its witnesses reveal only what was asked",
  "A group's root hash equals the reconstruction of its full hash tree and reflects the current content of every part, including after a part was changed through the group. A group witness reconstructs to that root hash and contains exactly the requested parts (in full or as the caller's partial witness) under their path labels, every other part being pruned away.",
  ["inputs", "histories"], "every group layout and every set of requested parts",
  "Two fixed layouts are tested.",
  ["src/collections/group.rs"], [("ids and dependencies", "src/collections/group.rs: GroupNode::visit_node, Group::init"), ("witness", "src/collections/group.rs: GroupNode::witness, Ray::{full,partial,build}"), ("hash", "src/collections/group.rs: GroupNode::root_hash, witness_all")],
  ["Group::{root_hash, as_hash_tree, witness, get, get_mut}"])
p("C16", "Iteration yields every entry exactly once in key order",
  "Iterating a map (by iterator or by visitor) yields exactly its entries, each once, in strictly increasing key order, and the iterator's remaining-length hint is exact at every step.",
  ["histories", "inputs"], "every reachable map and every step of the iteration",
  "One test iterates one monotone map by value order only.",
  ["src/rbtree/iterator.rs", RB], [("explicit stack traversal", "src/rbtree/iterator.rs: next"), ("recursive visit", RB+": for_each")],
  ["Map::iter", "RbTree::for_each", "size_hint"])
p("C17", "The entry API acts on exactly the entry it was asked for",
  "An entry is occupied exactly when its key is in the map; occupied entries give access to the current value of that key in the map, and removing through them removes exactly that binding and returns it; vacant entries insert exactly one new binding. The or_* and and_modify combinators call their closures only in the documented case and refer to the value stored in the map for the entry's key.",
  ["inputs", "histories"], "every reachable map and every key, present or absent",
  "No test uses the entry API.",
  ["src/rbtree/entry.rs", RB], [("node pointer held by an occupied entry", "src/rbtree/entry.rs: OccupiedEntry; "+RB+": entry, get_node")],
  ["RbTree::entry, Map::entry, Entry, OccupiedEntry, VacantEntry"])
p("C18", "An in-place change of a value is reflected in the root hash",
  "Whenever the library hands out mutable access to a value stored in a map (update closures, entry closures, mutable references), the root hash read after the value was changed certifies the changed value.",
  ["histories", "inputs"], "every mutating access path and every change made through it",
  "No test changes a value in place and looks at the root hash.",
  [RB, "src/rbtree/entry.rs", "src/collections/map.rs"], [("rehash of the path after the update closure", RB+": modify, modify_max_with_prefix"), ("and_modify", "src/rbtree/entry.rs")],
  ["AsHashTree::root_hash after an in-place change"])
p("C19", "Serialized collections carry exactly their contents",
  "Serializing a map emits its number of entries and then every entry once, in key order, and deserializing rebuilds a map holding exactly the entries read (later duplicates win) with a correct root hash; sequences serialize as their list of items and deserialize to the same items and the same root hash; a serialized paged collection comes back with the same pages and a root hash that certifies them.",
  ["inputs", "histories"], "every map or sequence content, every well-behaved serde format",
  "One CBOR and one Candid round trip of a ten-element sequence; maps are never serialized.",
  ["src/collections/map.rs", "src/collections/seq.rs"], [("Serialize/Deserialize/CandidType implementations", "src/collections/map.rs, src/collections/seq.rs")],
  ["serde and candid encodings of Map, Seq and Paged"])
p("C20", "Serialized hash trees have the structure the specification prescribes",
  "Serializing a hash tree emits the array of the interface specification: [0] for empty, [1, left, right] for a fork, [2, label bytes, subtree] for a label, [3, bytes] for a leaf and [4, 32 digest bytes] for a pruned node, recursively, with labels, leaves and digests as byte strings and exact array lengths.",
  ["inputs"], "every hash tree",
  "One example tree without a pruned node is compared.",
  ["src/hashtree.rs"], [("Serialize for HashTree", "src/hashtree.rs: serialize")],
  ["serde output of HashTree (CBOR)"])
p("C21", "A group's layout depends only on its paths, not on declaration order",
  "Building a group from a set of distinct non-empty, non-conflicting paths yields a tree in which every part sits under exactly its path of labels, siblings appear in label order, the forks over n siblings have depth at most ceil(log2 n), and the result is the same for every order of declaration. Declaring a type twice, reusing a path, or placing a part beneath another part is refused.",
  ["inputs", "histories"], "every set of paths and every order of declaring them",
  "One layout is built in one order.",
  ["src/collections/group/builder.rs"], [("ordered directory map and pairwise merging", "src/collections/group/builder.rs: GroupBuilderNode::{insert, build}")],
  ["structure of Group::as_hash_tree"])
p("C22", "Reading and comparing hash trees is exact",
  "For every hash tree, get_labels returns all its labels and get_leaf_values all its leaf contents, each in order from left to right (a label before the labels beneath it, pruned parts contribute nothing), no more and no less. Two hash trees compare equal exactly when they have the same shape, the same labels, the same leaf contents and the same pruned digests, whether their bytes are borrowed or owned; so equal trees always reconstruct to the same digest.",
  ["inputs"], "every hash tree, every pair of hash trees",
  "get_labels is used on a handful of small witnesses, get_leaf_values and comparison on none that nest labels, leaves and forks in every order.",
  ["src/hashtree.rs"], [("collecting labels and leaves", "src/hashtree.rs: HashTree::{get_labels, get_leaf_values}"), ("derived equality", "src/hashtree.rs: PartialEq of HashTree and ForkInner")],
  ["HashTree::get_labels", "HashTree::get_leaf_values", "HashTree == HashTree"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "A vector set behaves as a mathematical set under every history",
 "After any sequence of construction, insert, remove, retain, extend, set operations in place, shrinking and conversion to and from vectors, small vectors and ordered sets, a vector set contains exactly the elements a mathematical set would, with the same length, emptiness and membership answers and the same insert/remove return values. Its elements are always strictly ascending without duplicates, in iteration and as a slice. This holds for every inline capacity, including zero, and for every ordered element type.",
 ["inputs","histories","configurations"], "all operation sequences, element types with Ord, inline capacities and sizes across the inline/heap boundary",
 "The repository samples single operations on small random sets of one type; histories mixing bulk and single-element operations over the inline/heap boundary are never explored.",
 ["src/vec_set.rs","src/dedup.rs","src/macros.rs"],
 [("binary search insert/remove","src/vec_set.rs VecSet::insert/remove"),("sort and dedup on construction","src/dedup.rs sort_dedup; VecSet::from_vec"),("retain","src/vec_set.rs VecSet::retain")],
 ["VecSet::as_ref","VecSet::contains","VecSet::insert","VecSet::remove","VecSet::len","IntoIterator"],
 [("elements","strictly ascending contiguous vector","VecSet.0")])

prop("C02", "Every form of vector-set algebra computes the exact set operation",
 "Union, intersection, difference and symmetric difference of two vector sets yield exactly the mathematical result as a strictly ordered set, whichever form is used: operators on references, assigning operators taking the right side by value or by reference, named methods, named in-place methods, and with an archived set as an operand. The result never depends on the inline capacities of the operands or result, on whether storage is inline or heap, or on relative sizes, and the operand that is only read is unchanged. No form panics for any pair of sets.",
 ["inputs","configurations"], "all pairs of sets, all four operations, all API forms, all combinations of inline capacities, zero-sized to heap-owning elements",
 "Unit tests sample the operator forms only on small i64 sets with one capacity; the named in-place forms and archived or mixed-capacity operands are not exercised, and size-dependent merge strategies switch at sizes random samples rarely straddle.",
 ["src/vec_set.rs","src/merge_state.rs"],
 [("merge state machines","src/merge_state.rs"),("operators","src/vec_set.rs BitAnd/BitOr/BitXor/Sub and *Assign"),("named in-place ops","src/vec_set.rs union_with/intersection_with/xor_with/difference_with")],
 ["&a | &b","a |= b","a |= &b","AbstractVecSet::union","VecSet::union_with (and the same for the other three operations)"])

prop("C03", "Subset, superset and disjointness of vector sets are exact",
 "For any two vector sets (plain or archived, of any capacities) the subset, superset and disjointness predicates answer exactly as for mathematical sets. A set is a subset and a superset of itself, the empty set is a subset of and disjoint from everything, and subset in one direction equals superset in the other.",
 ["inputs","configurations"], "all pairs of sets, including empty, equal, nested, interleaved, far apart and of very different sizes",
 "Random independent pairs are almost never in a subset relation, so sampled tests see one answer only; the early-exit merge switches strategy by size.",
 ["src/vec_set.rs","src/merge_state.rs"],
 [("early-exit boolean merge","src/merge_state.rs BoolOpMergeState"),("predicates","src/vec_set.rs AbstractVecSet::is_subset/is_superset/is_disjoint")],
 ["is_subset","is_superset","is_disjoint"])

prop("C04", "Equality, ordering and hashing depend on contents only",
 "Two collections of the same type compare equal exactly when they represent the same set, mapping or (for total collections) the same function including the default, and equal collections hash equally. Ordering is a total order consistent with equality: exactly one of less, equal, greater holds, it is antisymmetric and transitive, and for sets and maps it is the lexicographic order of the sorted contents. None of this depends on how the collection was built, on spare capacity, or on inline versus heap storage.",
 ["inputs","histories"], "all pairs and triples of collections of each kind, each built along several different construction routes",
 "Existing tests compare results built the same way; equality against a different default, or between differently built equal values, is never sampled.",
 ["src/vec_set.rs","src/vec_map.rs","src/total_vec_set.rs","src/total_vec_map.rs","src/radix_tree/flat_radix_tree.rs"],
 [("derived and manual comparison impls","PartialEq/Eq/PartialOrd/Ord/Hash impls of all collections")],
 ["==","cmp","partial_cmp","Hash::hash"])

prop("C05", "Building from any iterator keeps the right duplicate and bounded storage",
 "Building a set from any sequence yields its distinct elements in order, keeping the first of several equal elements; building a map yields one entry per key, keeping the last given pair. While building from an iterator with many duplicates, the number of elements held in storage at any time stays bounded by a small multiple of the number of distinct elements, however long the input is.",
 ["inputs"], "all input sequences: sorted, reversed, sawtooth, few-distinct, all-equal, random, any length, with distinguishable but equal elements",
 "Keeping first or last is visible only with equal but distinguishable elements and depends on compaction points that move with the input's length and duplicate pattern; storage growth needs long streams.",
 ["src/dedup.rs","src/vec_set.rs","src/vec_map.rs"],
 [("incremental sort and dedup","src/dedup.rs SortAndDedup::push / sort_and_dedup"),("keep first/last","src/dedup.rs Keep")],
 ["VecSet::from_iter","VecMap::from_iter","live element count"])

prop("C06", "A vector map behaves as a mathematical map under every history",
 "After any sequence of construction, insert, retain, extend, merge, combine, value mapping, mutation through looked-up references and conversion, a vector map holds exactly the key-value pairs a mathematical map would; lookups, lengths and returned previous values agree, lookup works by any borrowed form of the key, and keys stay strictly ascending. Merging is right-biased, and combining calls the function exactly for the keys present on both sides with (left value, right value).",
 ["inputs","histories","configurations"], "all operation sequences over any ordered key type, value type and inline capacity",
 "Tests sample joins of small integer maps; stateful histories, borrowed-key lookup and non-commutative combining functions are not sampled.",
 ["src/vec_map.rs","src/dedup.rs","src/macros.rs"],
 [("binary search lookup/insert","src/vec_map.rs"),("right-biased merge","src/vec_map.rs merge_with/combine_with")],
 ["VecMap::insert","VecMap::get","VecMap::get_mut","VecMap::as_ref","merge_with","combine_with","map_values"],
 [("entries","key-ascending vector of pairs","VecMap.0")])

prop("C07", "Vector-map joins compute the relational join, calling back once per key",
 "Inner, left, right and outer joins of two vector maps call the supplied function exactly once for each key the join covers, with that key and the correct present-or-absent values from the correct sides, and the result holds exactly the keys for which the function returned a value. The in-place forms give the same result as the allocating forms, and plain and archived right sides behave alike, for every pair of maps, sizes and inline capacities.",
 ["inputs","configurations"], "all pairs of maps with possibly different value types, all functions including ones that drop keys, all capacities, allocating, in-place and archived forms",
 "Existing samples use commutative or always-present functions on small maps, so swapped sides, missed or repeated calls and dropped keys in long runs go unseen.",
 ["src/vec_map.rs","src/merge_state.rs"],
 [("join operations","src/vec_map.rs OuterJoinOp/LeftJoinOp/RightJoinOp/InnerJoinOp"),("merge state","src/merge_state.rs")],
 ["outer_join","left_join","right_join","inner_join","outer_join_with","left_join_with","right_join_with","inner_join_with"])

prop("C08", "Total sets form an exact Boolean algebra over an infinite domain",
 "A total set denotes either a finite set or the complement of one; every operation on total sets (and, or, xor, minus, not, by reference, by value or assigning, insert, remove, constants, conversion) yields exactly the pointwise result for every value of the domain, listed or not. Subset, superset and disjointness hold exactly when they hold pointwise over an infinite domain, is-empty holds only for the nowhere-true set and is-all only for the everywhere-true set.",
 ["inputs","histories"], "all pairs of finite and co-finite sets, all operations and operation sequences, every domain value",
 "The truth tables have four sign combinations times overlap shape times form; tests check only sampled probes of some, and superset not at all.",
 ["src/total_vec_set.rs"],
 [("case analysis on the two complement flags","src/total_vec_set.rs operators and predicates")],
 ["TotalVecSet::contains","operators","is_subset","is_superset","is_disjoint","is_empty","is_all"],
 [("negated","whether the listed elements are the exceptions","TotalVecSet.negated")])

prop("C09", "Total maps are exact functions with a default, kept canonical",
 "A total map denotes a function equal to its default everywhere except at finitely many keys; every operation (construction, arithmetic, combination, supremum, infimum, value mapping, lookup) yields exactly the pointwise result at every key, listed or not. No listed key ever maps to the default, so equality of representations coincides with equality of functions, and zero/one tests are exact.",
 ["inputs","histories"], "all pairs of total maps, all value functions including ones that collapse values onto the default, every key",
 "Tests check sampled keys of supremum and infimum; canonicality after collapsing operations and non-commutative arithmetic are not checked.",
 ["src/total_vec_map.rs","src/vec_map.rs"],
 [("re-canonicalising combine","src/total_vec_map.rs combine_ref/map_values/new")],
 ["Index","non_default_mappings","==","is_zero","is_one","operators"],
 [("default","value at every unlisted key","TotalVecMap.1")])

prop("C10", "Serde round trips, and arbitrary documents never break invariants",
 "Serialising any vector set, vector map, total set or total map and deserialising it, through text or binary serde formats, gives back an equal collection. Deserialising any document, with elements in any order, with duplicates, of the wrong shape or announcing any length, either fails with an error or yields a collection with its ordering invariant holding exactly the document's elements, and never panics or reserves memory out of proportion to the document.",
 ["inputs"], "all collections; all documents, valid or not, and all announced lengths",
 "Round-trip tests use JSON and well-formed data only; unordered, duplicate, mis-shaped or length-lying documents are never fed in.",
 ["src/vec_set.rs","src/vec_map.rs","src/total_vec_set.rs","src/total_vec_map.rs"],
 [("sorting visitors","src/vec_set.rs VecSetVisitor; src/vec_map.rs VecMapVisitor"),("tuple serde for total collections","src/total_vec_set.rs, src/total_vec_map.rs")],
 ["serde::Serialize","serde::Deserialize"])

prop("C11", "Archived sets and maps mirror the original exactly",
 "Archiving any vector set or vector map gives bytes that validate, and the archived view answers membership, lookup, iteration and emptiness exactly as the original. Deserialising the archive gives back an equal collection, for element types with and without owned data and every inline capacity.",
 ["inputs","configurations"], "all sets and maps, including empty and large ones, several element types and capacities",
 "Archive tests use a handful of integer collections.",
 ["src/vec_set.rs","src/vec_map.rs"],
 [("archived slice representation","src/vec_set.rs ArchivedVecSet; src/vec_map.rs ArchivedVecMap"),("order validation","CheckBytes impls")],
 ["rkyv::Serialize","rkyv::check_archived_root","rkyv::Deserialize","AbstractVecSet/AbstractVecMap on archived forms"])

prop("C12", "Validating untrusted archive bytes is memory safe and enforces order",
 "Validating arbitrary bytes as an archived vector set, vector map or radix tree either reports an error or yields a view that is safe to read completely; it never crashes, reads outside the buffer or loops forever. Any accepted set or map has strictly ascending elements or keys, and any accepted tree has, at every node, children with non-empty prefixes in strictly ascending order of first element. Archives that violate the order are rejected.",
 ["inputs","fault_sequences"], "all byte strings, in particular valid archives with bits, bytes, offsets and lengths corrupted or elements reordered",
 "No test validates anything but archives just produced by the library.",
 ["src/vec_set.rs","src/vec_map.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"],
 [("validation implementations","CheckBytes impls of ArchivedVecSet, ArchivedVecMap, ArchivedRadixTree, ArchivedArcRadixTree")],
 ["rkyv::check_archived_root","full traversal of the accepted view"])

prop("C13", "Every element is dropped exactly once, even when user code panics",
 "Across any sequence of operations on sets, maps and radix trees, every element created is dropped exactly once and never used after being dropped or moved out. If user code called by an operation (comparison, clone, predicate, combining function, iterator) panics at any point, no element is dropped twice or used after drop, and the surviving collection can be read, still ordered, and dropped safely.",
 ["inputs","histories","fault_sequences"], "all operation sequences, with a panic injected at every possible call into user code",
 "Tests use elements without drop effects, and never inject a panic; in-place merging moves elements through uninitialised memory where each element position and panic point matters.",
 ["src/vec_set.rs","src/vec_map.rs","src/merge_state.rs","src/dedup.rs","src/radix_tree/mod.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"],
 [("in-place merge state","src/merge_state.rs InPlaceMergeState / InPlaceSmallVecMergeStateRef"),("by-key extension of values","src/radix_tree/mod.rs")],
 ["drop counts of instrumented elements","address sanitizer"])

prop("C14", "Small collections stay inline: no heap allocation within capacity",
 "A set or map whose elements fit its declared inline capacity, built from an iterator or by single inserts, causes no heap allocation. In-place intersection, difference, removal, retention and merging, whose result fits in the memory the left side already has, do not allocate either, and results that fit are usable without any further allocation.",
 ["inputs","configurations"], "all collections and operations whose results fit the left side's capacity, for several capacities",
 "Only a few fixed integer examples check allocation counts.",
 ["src/vec_set.rs","src/vec_map.rs","src/dedup.rs","src/merge_state.rs"],
 [("inline small-vector storage","VecSet.0, VecMap.0"),("in-place merge","src/merge_state.rs")],
 ["counting global allocator"])

prop("C15", "Operations keep their documented asymptotic cost",
 "Membership and lookup use at most logarithmically many comparisons, merging operations and predicates at most linearly many in the total size, and far fewer when one side is much smaller than the other or the ranges do not overlap; building from a sequence uses at most N log N, and linear when already sorted. Radix-tree lookup cost depends on the key, not on the number of stored keys.",
 ["inputs"], "all sizes and shapes of operands: interleaved, clustered, disjoint, tiny against huge, sorted, reversed, duplicated",
 "Complexity appears only at sizes and shapes functional tests do not use, and no test counts comparisons.",
 ["src/vec_set.rs","src/vec_map.rs","src/dedup.rs","src/merge_state.rs","src/radix_tree/mod.rs"],
 [("binary merge","binary_merge::MergeOperation used by src/vec_set.rs, src/vec_map.rs"),("binary search","contains/get")],
 ["comparison counts of instrumented keys"])

prop("C16", "Radix trees behave as maps keyed by sequences",
 "After any sequence of inserts, bulk merges, prefix edits and removals, a radix tree (flat, shared or lazy) maps exactly the key sequences a mathematical map would: lookup, membership of the exact key, emptiness and iteration agree, iteration yields every key once with its value in lexicographic key order, and values are iterated in the same order. The three flavours give the same answers and convert into one another without change, for any key element type.",
 ["inputs","histories","configurations"], "all operation sequences and key sets, including empty keys, keys that are prefixes of others, long shared prefixes and wide fan-out, all flavours",
 "Tests sample short strings on single operations; splits and merges depend on key overlap structure that random strings rarely produce.",
 ["src/radix_tree/mod.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"],
 [("prefix splitting and node merging","src/radix_tree/mod.rs"),("iteration with key stack","src/radix_tree/mod.rs Iter/IterKey")],
 ["get","contains_key","iter","values","into_iter","is_empty","insert"],
 [("prefix/value/children","compressed edge, optional value, ordered children","node types")])

prop("C17", "Radix tree merges compute the exact keyed combination",
 "Union, intersection, difference and the outer, inner and left combinations of two radix trees, in allocating and in-place form, with right sides of any flavour including archived ones, hold exactly the keys and values the corresponding map operation gives: the combining function is applied to the right pair of values for exactly the right keys, and its decision to drop a key is honoured. Allocating and in-place forms agree whenever both are defined for the same function, and the side that is only read is unchanged.",
 ["inputs","configurations"], "all pairs of trees, all value functions including dropping ones, all flavours",
 "Structural cases (same node, prefix of, diverging inside an edge) times operation times form is a large product; samples of short strings cover few, and function-dependent behaviour is not sampled.",
 ["src/radix_tree/mod.rs"],
 [("structural recursion over prefix overlap","src/radix_tree/mod.rs *_combine, *_combine_with, union/intersection/difference(_with)")],
 ["union","union_with","intersection","intersection_with","difference","difference_with","outer_combine","outer_combine_with","inner_combine","inner_combine_with","left_combine","left_combine_with"])

prop("C18", "Prefix operations select exactly the keys with that prefix",
 "Filtering or scanning a radix tree by a prefix yields exactly the entries whose key starts with that prefix, in order; prepending a prefix prepends it to every key. Removing with a prefix removes exactly those entries, retaining keeps exactly those, for every prefix including the empty one, one ending inside a compressed edge, and one longer than any key.",
 ["inputs","configurations"], "all trees and all prefixes, all flavours",
 "A prefix ending inside an edge, at a branch or past a leaf are different code paths; samples rarely hit each with surrounding structure.",
 ["src/radix_tree/mod.rs"],
 [("prefix descent","src/radix_tree/mod.rs filter_prefix/scan_prefix/prepend/remove_prefix_with/retain_prefix_with")],
 ["filter_prefix","scan_prefix","prepend","remove_prefix_with","retain_prefix_with"])

prop("C19", "Radix tree set predicates are exact",
 "For any two radix trees, of any flavours and with any value types, the intersects, disjoint, subset and superset predicates answer exactly according to the two key sets. With a value predicate supplied, the answer is exactly the existence or universality over the shared keys it asks about.",
 ["inputs","configurations"], "all pairs of trees including empty, equal, nested and prefix-related ones, all flavours, archived right sides",
 "Independent random trees are almost never subsets of each other; internal nodes without value that exist on one side only are a special case rarely sampled.",
 ["src/radix_tree/mod.rs"],
 [("structural recursion","src/radix_tree/mod.rs intersects/is_disjoint/is_subset/is_superset")],
 ["intersects","is_disjoint","is_subset","is_superset","*_pred variants"])

prop("C20", "A radix tree's shape is determined by its contents",
 "The structure of a radix tree is canonical: no reachable node is removable (every non-root node holds a value or branches), children are non-empty and ordered by distinct first elements, and the tree of a given mapping has the same structure whatever sequence of operations produced it. Consequently two flat trees are equal exactly when they hold the same mapping.",
 ["inputs","histories","configurations"], "all histories of operations leading to a given mapping, all flavours",
 "Tests compare key-value contents, not structure; a leftover empty or unmerged node is invisible to them.",
 ["src/radix_tree/mod.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"],
 [("node normalisation","src/radix_tree/mod.rs unsplit and constructors")],
 ["prefix()","value()","children()","=="],
 [("children","ordered, prefix-disjoint child nodes","node types")])

prop("C21", "Shared and lazy trees are snapshots: clones never see later changes",
 "Cloning a shared or lazy radix tree (or a flat one) gives an independent snapshot: any later modification of either copy, through any operation and from any thread, leaves the other unchanged. Trees built from parts of other trees by union, filtering, prepending or conversion are equally independent of their sources.",
 ["inputs","histories","schedules"], "all histories over a pool of aliasing trees, with modifications in any order; clones modified in parallel threads",
 "Tests never keep an older clone while modifying a newer one; sharing bugs show only for nodes reachable from both.",
 ["src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/mod.rs"],
 [("copy on write","Arc::make_mut in arc_radix_tree.rs and lazy_radix_tree.rs")],
 ["iter of every retained snapshot"],
 [("children","shared child vectors","Arc<Vec<..>>")])

prop("C22", "Radix tree archives round-trip in every flavour",
 "Archiving any flat, shared or lazy radix tree yields bytes whose archived view answers lookups, iteration, prefix scans and predicates exactly like the original and can be converted or deserialised back to an equal mapping; archives of flat and shared trees also validate. Subtrees shared inside a tree or between trees archived together keep their contents.",
 ["inputs","configurations"], "all trees including empty, single, deep and wide, several key and value types, all flavours, several trees in one archive",
 "Archive tests use a few fixed trees; relative pointers and sharing break for particular shapes.",
 ["src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"],
 [("archive implementations","Archive/Serialize/Deserialize impls of the tree types")],
 ["rkyv serialisation","check_archived_root","AbstractRadixTree on archived forms","From conversions"])

prop("C23", "Incrementally appended shared-tree archives restore every saved version",
 "When a shared tree is modified and archived repeatedly into one growing append-only buffer, each append writing only nodes not already written, the buffer cut at any completed append loads as exactly the tree at that moment. Reloading, continuing to modify, and compacting into a fresh buffer preserve the mapping, and unmodified subtrees are not written again.",
 ["histories","crash_points"], "all histories of modification, append, truncation to any completed append, reload and compaction",
 "The only exercise is an example program; interleavings of modification with partial reloads and reuse of already written nodes are not tested.",
 ["src/radix_tree/arc_radix_tree.rs","src/radix_tree/mod.rs"],
 [("shared pointers serialised once by address","src/radix_tree/arc_radix_tree.rs Serialize"),("enumeration of shared nodes","src/radix_tree/arc_radix_tree.rs all_arcs")],
 ["archive bytes at every append boundary","all_arcs"])

prop("C24", "Lazy trees load on demand, exactly once, invisibly, from any thread",
 "A lazy tree created from an archive answers every query and accepts every modification exactly as an eagerly loaded tree, whatever order its parts are first touched in. Creating it and looking up one key touches only the path to that key rather than materialising the whole archive. When several threads touch unloaded parts at once, all see the same complete contents, each part is materialised once and nothing deadlocks.",
 ["inputs","histories","schedules"], "all trees, all orders of first access and modification, concurrent first accesses from several threads in any interleaving",
 "Tests access lazy trees from one thread after full conversion; laziness itself and races on first access are never observed.",
 ["src/radix_tree/lazy_radix_tree.rs"],
 [("once-initialised children","src/radix_tree/lazy_radix_tree.rs Lazy"),("conversion from archived node","From<&ArchivedLazyRadixTree>")],
 ["iter/get from several threads","materialisation counts of instrumented values"],
 [("children","uninitialised archived reference or materialised children","Lazy cell")])

prop("C25", "Relational joins on ordered tree maps are exact, in place and archived",
 "Inner, left, right and outer joins between ordered tree maps, plain or archived, allocating or in place, call the supplied function once for each key the join covers with the correct values from the correct sides and keep exactly the keys for which it returned a value. In-place and allocating forms agree, keys outside the join are absent from the result, and the side that is only read is unchanged.",
 ["inputs","configurations"], "all pairs of maps with possibly different value types and all functions including ones that drop keys, plain and archived right sides",
 "There are no tests of these operations in the repository.",
 ["src/btree_map.rs"],
 [("join operations","src/btree_map.rs AbstractBTreeMap and InPlaceRelationalOps")],
 ["outer_join","left_join","right_join","inner_join","outer_join_with","left_join_with","right_join_with","inner_join_with"])

prop("C26", "Iterators are ordered, exact, composable and safe to outlive their source",
 "Every iterator over a set, map or radix tree yields each entry exactly once in ascending order, reports size bounds that contain the true remaining count at every step, and keeps returning nothing once finished; sorted iterators of sets and maps can be combined with sorted-set and sorted-pair combinators giving the mathematical result. Consuming iterators yield owned entries that stay valid after the iterator, and the collection, are gone.",
 ["inputs","histories"], "all collections, partially or fully consumed iterators, all combinator pairs, entries held longer than the iterator",
 "Tests collect whole iterators immediately; size bounds at intermediate steps, partially consumed iterators and entries outliving the iterator are never checked.",
 ["src/iterators.rs","src/vec_set.rs","src/vec_map.rs","src/radix_tree/mod.rs"],
 [("sorted iterator wrappers","src/iterators.rs"),("owning tree iterator","src/radix_tree/mod.rs into_iter")],
 ["Iterator::next","Iterator::size_hint","sorted_iter combinators"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.](\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
print(len(P))

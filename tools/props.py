#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept together so that they stay in step)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "tree_iterators_rs/src/"
def files(*a): return [S + x for x in a]
P = []
def prop(id, title, statement, over, text, why, fs, mech, state=None, observe=None):
    a = {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DFS = files("bfs_iterators", "dfs_preorder_iterators", "dfs_inorder_iterators", "dfs_postorder_iterators")
prop("C01", "Every traversal yields each node exactly once, in its documented order",
 "For every tree, breadth-first, preorder, inorder (binary) and postorder traversal, by value, by reference and by mutable reference, yields every node's value exactly once, in the documented order, and then ends. The length bounds an iterator reports are never wrong, and the result is the same however the iterator is driven (next, nth, count, last, fold, collect and so on). This holds for the provided tree types and for any user node type, for a single tree and for a tree in a collection.",
 ["inputs"], "all tree shapes (general: any arity; binary: any combination of missing children), all orders, all three ownership forms, any node type implementing the node traits",
 "The tests walk one 11-node example tree per order and ownership; wide, lop-sided, left-only, single-node or deep shapes and user-written node types are never visited.",
 DFS + files("prelude.rs"),
 [("plain iterators of each order and ownership", S + "*_iterators/{owned,borrow,mut_borrow}.rs")], observe=["the sequence of next() results", "size_hint() before every next()"])
prop("C02", "Mutable traversal reaches every node once and its writes stick",
 "A mutable traversal (plain, leaves-only, with ancestors or with context) hands out a working mutable reference to exactly the documented nodes, and a write made through it is what any later look at that node sees, both later in the same traversal and in the tree afterwards. References handed out for different nodes never refer to the same node, and the shape of the tree and all other nodes stay as they were.",
 ["inputs", "histories"], "all trees, orders, ways of writing (through plain references kept alive together, through ancestor stacks, through contexts, after switching to leaves) and switching points",
 "Tests write through a few nodes of one tree; no test keeps all references alive together or checks where each write lands after switching iterator kind.",
 files("bfs_iterators/mut_borrow.rs", "dfs_preorder_iterators/mut_borrow.rs", "dfs_inorder_iterators/mut_borrow.rs", "dfs_postorder_iterators/mut_borrow.rs", "leaves_iterators"),
 [("mutable iterators and their streaming forms", S + "*/mut_borrow.rs")], observe=["the tree after the traversal", "the items during it"])
prop("C03", "Attached ancestors are always the exact root-to-node chain",
 "With ancestors attached, the traversal visits the same nodes in the same order as the plain one, and at every step presents exactly the values on the path from the root to the current node, root first and current node last. Reading the current item again without advancing gives the same chain.",
 ["inputs"], "all trees, orders, ownership forms and node types",
 "One fixed tree per order; stacks can only go wrong on shape transitions (last child to an uncle several levels up, missing left children, levels of different length) that the example has few of.",
 DFS, [("ancestor-tracking streaming iterators", S + "*_iterators/*.rs (…WithAncestors)")])
prop("C04", "Attached context reports the true path, depth, ancestors and children",
 "With context attached, the traversal visits the same nodes in the same order as the plain one, and at every step the reported path is the sequence of child positions leading from the root to the current node, the depth is its length, the ancestors are the root-to-node chain, and the children (where documented as available) are exactly the node's children in order with their whole subtrees intact.",
 ["inputs"], "all trees, orders, ownership forms and node types",
 "Only the example tree is tested; path bookkeeping is incremental and depends on arity, gaps in binary nodes and depth changes.",
 DFS + files("tree_context.rs"), [("context-tracking streaming iterators", S + "*_iterators/*.rs (…WithContext)"), ("context accessors", S + "tree_context.rs")])
prop("C05", "leaves() yields exactly the unvisited leaves, whenever it is called",
 "Asking a traversal for leaves, at any moment of the traversal, yields exactly those leaves that the traversal has not yielded yet, each once, in the documented order (level by level for breadth-first, left to right for the depth-first forms).",
 ["inputs", "histories"], "all trees, orders, ownership forms and all numbers of elements already taken before leaves() is called (0 up to past the end)",
 "Tests call leaves() on the example tree at a few points; the hand-over from a half-finished traversal depends on shape and position together.",
 files("leaves_iterators/breadth_first", "leaves_iterators/depth_first", "bfs_iterators/mod.rs", "dfs_preorder_iterators/mod.rs", "dfs_inorder_iterators/mod.rs", "dfs_postorder_iterators/mod.rs"),
 [("hand-over of traversal state to the leaves iterators", S + "leaves_iterators/*; impl of leaves() in each */mod.rs")])
prop("C06", "leaves() with ancestors keeps exact ancestor chains, whenever it is called",
 "Asking an ancestor-tracking traversal for leaves, at any moment, yields exactly the leaves not yielded yet, in the documented order, and with each of them the exact root-to-leaf chain of values.",
 ["inputs", "histories"], "all trees, orders, ownership forms and all numbers of steps already made",
 "As for leaves(): the chain must be rebuilt from a half-finished traversal; tests only try the example tree.",
 files("leaves_iterators/ancestors_breadth_first", "leaves_iterators/ancestors_depth_first"),
 [("ancestor leaves iterators", S + "leaves_iterators/ancestors_*")])
prop("C07", "Path lookup returns exactly the addressed node, or nothing",
 "Looking a path up in a tree, or in a collection of trees (where the first step selects the tree), by value, reference or mutable reference, returns precisely the node that the path of child positions addresses, with its whole subtree; for any path that addresses no node it returns nothing and does not panic. The path reported by a context addresses that very node, and a mutable lookup really gives access to it.",
 ["inputs"], "all trees and collections (slices, vectors, other iterables), all paths including empty ones, ones that run past leaves or into gaps, and extreme indexes",
 "A handful of paths on one tree are tested; failures lie in out-of-range steps, gaps, empty paths and forests.",
 files("prelude.rs", "collection_iterators.rs"), [("at_path family", S + "prelude.rs and collection_iterators.rs")])
prop("C08", "Traversing a collection of trees is the concatenation of its trees",
 "Traversing a collection of trees (of any collection type, in any order and ownership) yields each tree's traversal one after the other, without losing, duplicating or reordering anything, including for empty collections. The length bounds it reports are never wrong, and it may be driven in any way an iterator can be. With context attached, each path starts with the position of the tree in the collection, and the rest, the ancestors and the children are as for that tree alone.",
 ["inputs"], "all collections of trees (any number, any shapes, empty), slices, vectors, iterators and user collections, all orders and ownership forms",
 "Tests use a collection of a few copies of the example tree; empty collections, single-node trees and different shapes next to each other are not covered.",
 files("collection_iterators.rs", "prelude.rs"), [("collection iterators", S + "collection_iterators.rs")])
prop("C09", "Mapping preserves the tree's shape and pairs each value with its own node",
 "Mapping a tree calls the closure exactly once per node and produces a tree of identical shape in which every position holds the closure's result for the node at that same position; the path-aware variant additionally gives the closure the path of exactly that node. This holds by value, by reference and by mutable reference, for single trees and for each tree of a collection (where paths start with the tree's position), and for the helpers that turn a tree of references into an owned tree.",
 ["inputs"], "all trees, node types, ownership forms and closures (including stateful ones)",
 "One small example per variant; mis-assembly needs specific shapes (gaps, several subtrees of different depth).",
 files("tree_iterators/map.rs", "tree_iterators/map_path.rs", "prelude.rs"), [("map / map_path", S + "tree_iterators/map*.rs, prelude.rs")])
prop("C10", "Folding combines every node with exactly its own children's results, in order",
 "Folding a tree calls the closure exactly once per node, after its children, with that node's value and exactly the results of its own children in order (with gaps preserved for binary trees), and returns the root's result; the path-aware variant additionally passes the path of that node. The same holds for each tree of a collection, whose paths start with the tree's position.",
 ["inputs"], "all trees, node types, ownership forms and combining closures",
 "Sum-like test closures over one tree cannot tell results of different children apart or notice order and gaps.",
 files("tree_iterators/mod.rs", "prelude.rs"), [("fold / fold_path", S + "tree_iterators/mod.rs, prelude.rs")])
prop("C11", "Pruning removes exactly the subtrees whose root the predicate rejects",
 "Pruning by predicate, by path-aware predicate or to a maximum depth yields a tree containing exactly the nodes none of whose ancestors (and not themselves) were rejected, in the original order and at the original position relative to their remaining siblings; nothing remains if the root is rejected. The predicate is called once per reached node, in preorder, never below a rejected node, and the path-aware form receives each node's path in the original tree. The same holds for each tree of a collection.",
 ["inputs"], "all trees, all predicates (all subsets of nodes for small trees), all depths, all ownership forms",
 "Tests prune one tree with one or two predicates; which node vanishes depends on the combination of rejected set and shape.",
 files("tree_iterators/prune.rs", "tree_iterators/prune_path.rs", "tree_iterators/prune_depth.rs", "prelude.rs"), [("prune family", S + "tree_iterators/prune*.rs")])
prop("C12", "Chained tree operations equal applying them one after the other",
 "A chain of map, path-aware map, prune, path-aware prune and depth-limit stages over one tree gives the same result as applying the stages one at a time to a whole tree, whatever their number and order, and whichever way it is consumed (collecting a tree, folding, path-aware folding, or iterating). Paths seen by stages and by the consumer are those of the tree as it leaves the preceding stages.",
 ["inputs", "programs"], "all trees, all stage sequences up to the explored length with arbitrary closures, all ways of consuming, all ownership forms",
 "The tests chain two stages at most on the example tree; interactions between pruning and path tracking need particular stage orders.",
 files("tree_iterators"), [("pipeline stages and path bookkeeping", S + "tree_iterators/*.rs")], state=[("current path / current depth", "kept incrementally by each stage")])
prop("C13", "Operations on collections of trees act tree by tree, in order",
 "Every combinator on a collection of trees (chained stages as well as the one-call forms, by value, reference and mutable reference) gives the same trees in the same order as applying it to each tree separately, dropping only trees whose root was pruned; path-aware closures see the tree's position in the collection as the first step. Iterating a chain directly visits the same nodes in preorder.",
 ["inputs", "programs"], "all collections, all stage sequences, all consuming operations, all ownership forms",
 "Tests run each one-call form once on two copies of the example tree; trees that vanish, empty collections and stage interaction across tree boundaries are not covered.",
 files("tree_collection_iterators", "prelude.rs"), [("collection pipelines", S + "tree_collection_iterators/*.rs")])
prop("C14", "Every stored value is dropped exactly once, however far an operation gets",
 "Whatever is done with a tree or collection by value, whether run to the end, abandoned after any number of elements, switched to another iterator form midway, or interrupted by a panic in user code, no stored value is dropped twice, and unless user code panicked every value is dropped by the time the last object is gone.",
 ["inputs", "histories", "fault_sequences"], "all trees and collections, by-value operations, abandonment points, mid-way switches, and panics injected at every closure call",
 "No test counts drops, abandons an iterator midway or panics inside a closure.",
 files("bfs_iterators/owned.rs", "dfs_preorder_iterators/owned.rs", "dfs_postorder_iterators/owned.rs", "dfs_inorder_iterators/owned.rs", "leaves_iterators", "tree_iterators", "tree_collection_iterators"),
 [("state held between steps", S + "**/owned.rs")])
prop("C15", "Edits to a node's children during traversal are honoured",
 "When children are edited through the current context (added, removed, reordered, replaced, or consumed where they are an iterator), a preorder or breadth-first traversal goes on to visit exactly the edited children, with correct ancestors and paths, and the part of the tree already visited is not visited again. In postorder, edits of already visited children change neither the rest of the traversal nor anything else; with mutable references the edits that the collection type supports are found in the tree afterwards.",
 ["inputs", "histories"], "all trees and edit sequences (one arbitrary edit per visited node), node types with different children collections, orders and ownership forms documented to allow it",
 "Documentation describes it, tests edit nothing.",
 files("tree_context.rs", "bfs_iterators", "dfs_preorder_iterators", "dfs_postorder_iterators"), [("children held in the context until the next advance", S + "tree_context.rs and the …WithContext iterators")])
prop("C16", "Serialisation, cloning and comparison are faithful to the tree",
 "Serialising one of the provided trees writes each node as its public fields (value and children, or value, left and right) and reading that back gives an equal tree, for any shape and values and in any serde format, self-describing or not. Clones are equal and independent, a default tree is a single default value, and two trees compare equal exactly when their shapes and all their values agree.",
 ["inputs"], "all trees with various value types, pairs of trees differing in one place",
 "No test serialises or compares anything but small literals.",
 files("prelude.rs"), [("Tree and BinaryTree derives", S + "prelude.rs")])
prop("C17", "Late requests for metadata are refused loudly, leaves() never is",
 "Asking a traversal that still has something to yield to attach ancestors or context panics if and only if it has already begun; it never silently returns wrong metadata. Asking for leaves never panics, at any moment.",
 ["inputs", "histories"], "all trees, orders, ownership forms and numbers of elements already taken",
 "Tests try a late request at one point for a few iterators.",
 files("bfs_iterators/mod.rs", "dfs_preorder_iterators/mod.rs", "dfs_inorder_iterators/mod.rs", "dfs_postorder_iterators/mod.rs", "collection_iterators.rs"), [("attach_* guards", S + "*/mod.rs")])
prop("C18", "Safe use never causes undefined behaviour",
 "No sequence of calls to the library's safe interface, with any node type written in safe code, reads or frees invalid memory, creates conflicting live mutable references or triggers any other undefined behaviour, even when iterators are abandoned midway or user closures panic.",
 ["inputs", "histories", "fault_sequences"], "all trees and collections and all operations of the other properties (traversals, mid-way switches, writes, edits, combinators, pipelines, panics), node types with different memory ownership",
 "Tests run natively on plain integers, where use-after-free, double free or aliasing goes unnoticed.",
 files("dfs_postorder_iterators/borrow.rs", "dfs_postorder_iterators/mut_borrow.rs", "dfs_inorder_iterators/borrow.rs", "dfs_inorder_iterators/mut_borrow.rs", "tree_iterators", "tree_collection_iterators"),
 [("unsafe bitwise copies and raw pointers", S + "dfs_{in,post}order_iterators/{borrow,mut_borrow}.rs")])
prop("C19", "Traversal is lazy: each node is asked at most once and only when needed",
 "Every operation asks each node for its value and children at most once, and an operation that is abandoned early, limited in depth, pruned or addressed by path does not ask nodes it has no need of. Consequently endless trees made on demand, endlessly wide nodes and endless collections can be traversed top-down, limited in depth, piped and abandoned like any other.",
 ["inputs", "histories"], "all trees, operations, orders, ownership forms and abandonment points; endless generated trees",
 "Tests never count accesses and only use finite in-memory trees.",
 files("bfs_iterators", "dfs_preorder_iterators", "dfs_inorder_iterators", "dfs_postorder_iterators", "tree_iterators", "prelude.rs"), [("node access", "calls of the node traits' accessor methods")])
prop("C20", "No traversal or combinator needs call stack proportional to the size of the tree or collection",
 "Every traversal and combinator, on single trees and on collections of trees, handles trees of any depth and width, and collections of any length, within a small fixed call stack, giving the same results as on small ones; this includes abandoning a traversal at any point.",
 ["inputs"], "trees with paths of thousands of nodes (left, right, zig-zag and bushy chains), nodes with thousands of children, collections of thousands of trees; every operation and ownership form",
 "The deepest tree in the tests has a handful of levels.",
 files("bfs_iterators", "dfs_preorder_iterators", "dfs_inorder_iterators", "dfs_postorder_iterators", "tree_iterators", "tree_collection_iterators", "leaves_iterators", "prelude.rs"), [("explicit stacks", S + "**/*.rs")])

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
tech = {
 "C14": "property-based testing with fault injection (panicking closures) against a drop ledger; exhaustive small trees plus proptest-generated ones",
 "C18": "generated operations executed under AddressSanitizer (native) and Miri (interpreted); the report is the oracle",
 "C19": "property-based testing with access-counting node types and endless generated trees",
 "C20": "property-based testing of deep and wide generated trees on a small stack against a reference model",
}
note = {
 "C18": "Exploration: thousands of generated inputs natively under ASan, ~360 generated (operation group, node type, input) tasks under Miri with Tree Borrows. Trusts the two tools. The two known findings are excluded by construction and probed separately.",
 "C20": "Exploration of generated deep and wide trees and long collections; assumes a recursive implementation needs at least 54 bytes of stack per level.",
}
man = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": tech.get(p["id"], "property-based testing against a reference model: exhaustive small trees plus proptest-generated larger ones, shrunk on failure"),
   "level": "exploration",
   "level_note": note.get(p["id"], "Exploration: every small shape up to the stated bound and a large deterministic random sample beyond it, compared with an independent reference model; says nothing about inputs it did not run. Trusts the harness' model.")} for p in P],
 "not_applicable": [],
 "notes": "One Rust harness crate (harness/) with path dependency on /repo; check.sh rebuilds it from /repo's current tree on every run. check.sh replay FILE re-runs a recorded violation. No hooks in /repo are needed."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

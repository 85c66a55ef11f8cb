//! The properties, how their inputs are generated, and what counts as a non-trivial execution.
use crate::gen::Spec;
use crate::props::*;

pub struct Prop {
    pub id: &'static str,
    pub check: CheckFn,
    pub rule: &'static str,
    pub quick: Spec,
    pub thorough: Spec,
    pub assumptions: &'static [&'static str],
}
const fn single(ex_t: usize, ex_b: usize, random: u64, max_nodes: usize) -> Spec {
    Spec { ex_t, ex_b, random, max_nodes, forest: false, big: &[] }
}
const fn forest(ex_t: usize, ex_b: usize, random: u64, max_nodes: usize) -> Spec {
    Spec { ex_t, ex_b, random, max_nodes, forest: true, big: &[] }
}
const STD: &[&str] = &[
    "trees up to the exhaustive bound are enumerated completely; larger ones are sampled (7 shape styles, up to the stated node count)",
    "node types: the crate's Tree/BinaryTree plus six third-party-style node types written in the harness (general: five, binary: one)",
];
impl Spec {
    const fn big(mut self, big: &'static [usize]) -> Spec {
        self.big = big;
        self
    }
}
pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            check: traverse::c01,
            rule: "a full traversal of a tree with at least 2 nodes, distinct by (tree, node type, ownership, order)",
            quick: single(8, 7, 36000, 400).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 150000, 2000).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C02",
            check: mutate::c02,
            rule: "writes through at least 2 references of a tree with at least 3 nodes (or along the stacks of a tree at least 3 levels deep), distinct by (tree, kind of write, order, point, node type)",
            quick: single(7, 6, 16000, 200).big(&[300, 1100]),
            thorough: single(9, 8, 80000, 500).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C03",
            check: traverse::c03,
            rule: "ancestor stacks of every node of a tree at least 3 levels deep, distinct by (tree, node type, ownership, order)",
            quick: single(8, 7, 25000, 300).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 120000, 800).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C04",
            check: traverse::c04,
            rule: "contexts of every node of a tree at least 3 levels deep, distinct by (tree, node type, ownership, order)",
            quick: single(8, 7, 15000, 300).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 120000, 800).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C05",
            check: traverse::c05,
            rule: "leaves() requested after k >= 1 elements while at least one leaf is still unvisited, distinct by (tree, node type, ownership, order, k)",
            quick: single(7, 6, 20000, 200).big(&[300, 1100, 66000]),
            thorough: single(10, 8, 80000, 600).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C06",
            check: traverse::c06,
            rule: "leaves() requested on an ancestor iterator after k >= 1 advances while at least one leaf is still unvisited, distinct by (tree, node type, ownership, order, k)",
            quick: single(7, 6, 12000, 200).big(&[300, 1100, 66000]),
            thorough: single(10, 8, 60000, 500).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C07",
            check: paths::c07,
            rule: "a lookup along a path of at least 2 steps (valid or a near miss), distinct by (tree or forest, path, node type, ownership)",
            quick: forest(6, 6, 8000, 200).big(&[300, 1100, 66000]),
            thorough: forest(9, 8, 80000, 500).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C08",
            check: coll::c08,
            rule: "a traversal of a collection of at least 2 trees, one of them with at least 2 nodes, distinct by (forest, collection form, order, plain or with context, node type)",
            quick: forest(6, 6, 5000, 200).big(&[300, 1100, 66000]),
            thorough: forest(9, 8, 100000, 500).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C09",
            check: comb::c09,
            rule: "a map of a tree with at least 2 nodes (path-aware: at least 3 levels), distinct by (tree, node type, ownership, operation)",
            quick: single(8, 7, 30000, 300).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 120000, 800).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C10",
            check: comb::c10,
            rule: "a fold of a tree with at least 2 nodes (path-aware: at least 3 levels), distinct by (tree, node type, ownership, operation)",
            quick: single(8, 7, 40000, 300).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 120000, 800).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C11",
            check: comb::c11,
            rule: "a prune that removes something and keeps at least 2 nodes, distinct by (tree, predicate, node type, ownership, operation)",
            quick: single(6, 6, 15000, 200).big(&[300, 1100, 66000]),
            thorough: single(8, 7, 100000, 500).big(&[300, 1100, 66000]),
            assumptions: STD,
        },
        Prop {
            id: "C12",
            check: pipe::c12,
            rule: "a pipeline of at least 2 stages whose result has at least 2 nodes, distinct by (tree, stages, terminal operation, node type, ownership)",
            quick: single(6, 5, 25000, 150).big(&[300, 1100]),
            thorough: single(8, 7, 100000, 400).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C13",
            check: coll::c13,
            rule: "a collection pipeline of at least 2 stages over at least 2 trees with at least 2 nodes left, or a one-call *_each operation on at least 2 trees with at least 3 nodes, distinct by (forest, stages, terminal operation, node type, ownership)",
            quick: forest(5, 5, 15000, 150).big(&[300, 1100]),
            thorough: forest(7, 6, 100000, 400).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C14",
            check: ledger::c14,
            rule: "an operation on at least 2 values abandoned after at least 1 but not all elements, or a combinator whose closure panics at call >= 1, distinct by (tree or forest, operation, order, stopping points, node type)",
            quick: forest(5, 5, 25000, 150).big(&[300, 1100]),
            thorough: forest(7, 6, 100000, 400).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C15",
            check: mutate::c15,
            rule: "a context traversal during which children are edited and at least 3 nodes are visited, distinct by (tree, edit script, order, node type, ownership)",
            quick: single(8, 7, 48000, 200).big(&[300, 1100]),
            thorough: single(10, 9, 100000, 500).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C16",
            check: data::c16,
            rule: "a serialisation round trip or comparison of a tree at least 3 levels deep, distinct by (tree, value type or variant)",
            quick: single(8, 7, 6000, 200).big(&[300, 1100, 66000]),
            thorough: single(11, 9, 100000, 600).big(&[300, 1100, 66000]),
            assumptions: &["serde is exercised through serde_json and one non-self-describing binary format; text round trips below depth 50 (serde_json's own recursion limit)"],
        },
        Prop {
            id: "C17",
            check: ledger::c17,
            rule: "metadata or leaves() requested after k >= 1 elements, distinct by (tree or forest, request, order, ownership, k, node type)",
            quick: forest(6, 6, 16000, 150).big(&[300, 1100]),
            thorough: forest(8, 7, 80000, 400).big(&[300, 1100]),
            assumptions: STD,
        },
        Prop {
            id: "C18",
            check: ub::c18,
            rule: "every operation of checks C01-C17 and C19 executed under AddressSanitizer (native) or Miri (interpreted), non-trivial and distinct by the rule of the check it belongs to",
            quick: forest(5, 5, 2500, 60).big(&[300]),
            thorough: forest(7, 6, 40000, 200).big(&[300]),
            assumptions: &[
                "AddressSanitizer sees use-after-free, double free and out-of-bounds accesses; Miri additionally sees dangling or aliasing references, uninitialised reads and invalid values, on small inputs only",
                "aliasing is judged by Miri's Tree Borrows model (quick) and additionally Stacked Borrows (thorough)",
                "excluded by construction: the two known findings",
            ],
        },
        Prop {
            id: "C19",
            check: lazy::c19,
            rule: "a traversal stopped after k >= 1 but not all elements, or an operation that must leave part of the tree alone, distinct by (tree, operation, ownership, order, k / predicate / path)",
            quick: single(6, 6, 12000, 150).big(&[300, 1100]),
            thorough: single(8, 7, 80000, 400).big(&[300, 1100]),
            assumptions: &["requests are counted by two harness node types (one per node kind)", "endless trees are driven by value only"],
        },
        Prop {
            id: "C20",
            check: deep::c20,
            rule: "every execution: a tree with a path of more than 2400 nodes handled within a 128 KiB call stack, distinct by (tree, operation, ownership, order)",
            quick: single(3, 3, 40, 6),
            thorough: single(5, 4, 1500, 12),
            assumptions: &["a recursive implementation needs at least 54 bytes of stack per level, so 2400 levels do not fit into 128 KiB", "the caller's own node type tears itself down iteratively; dropping the crate's Tree/BinaryTree recursively is not judged"],
        },
    ]
}

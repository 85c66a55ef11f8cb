//! Generators: exhaustive enumeration of small inputs, proptest strategies for larger ones, and
//! the structural shrinker that reduces a failing input.
use crate::model::*;

/// How the inputs of one property are generated.
#[derive(Clone, Copy)]
pub struct Spec {
    /// Exhaustive bound (nodes) for general / binary trees.
    pub ex_t: usize,
    pub ex_b: usize,
    /// Number of random cases.
    pub random: u64,
    /// Largest random tree.
    pub max_nodes: usize,
    /// Forests of 0..=5 trees instead of single trees.
    pub forest: bool,
    /// Sizes of the fixed large inputs (see `big`).
    pub big: &'static [usize],
}

/// Fixed large inputs whose numbers straddle the usual integer-width limits: stars, chains,
/// combs, wide nodes below other nodes, and (for forests) collections of that many trees.
pub fn big(s: &Spec) -> Vec<Case> {
    let leaf = |bin: bool| M { id: 0, kids: if bin { vec![None, None] } else { vec![] } };
    let node = |kids: Vec<M>| M { id: 0, kids: kids.into_iter().map(Some).collect() };
    let mut out = vec![];
    for (&w, tag) in s.big.iter().zip(1u64..) {
        let mut trees: Vec<(bool, M)> = vec![];
        let star = |w: usize, special: &[usize]| {
            node((0..w).map(|i| if special.contains(&i) { node(vec![leaf(false), node(vec![leaf(false)])]) } else { leaf(false) }).collect())
        };
        // Wide nodes: at the root, and two levels down between siblings.
        trees.push((false, star(w, &[0, 255, 256, w / 2, w - 1])));
        trees.push((false, node(vec![leaf(false), node(vec![leaf(false), star(w, &[1, w - 1]), leaf(false)]), leaf(false)])));
        if w <= 2000 {
            // Long paths: chains with a side branch now and then, at the last position or the first.
            for first in [false, true] {
                let mut t = node(vec![leaf(false), leaf(false)]);
                let mut b = M { id: 0, kids: vec![Some(leaf(true)), Some(leaf(true))] };
                for i in 0..w {
                    let side = i % 7 == 3;
                    t = match (side, first) {
                        (false, _) => node(vec![t]),
                        (true, false) => node(vec![leaf(false), leaf(false), t]),
                        (true, true) => node(vec![t, leaf(false)]),
                    };
                    let other = side.then(|| leaf(true));
                    b = M { id: 0, kids: if first ^ (i % 5 == 0) { vec![Some(b), other] } else { vec![other, Some(b)] } };
                }
                trees.push((false, t));
                trees.push((true, b));
            }
        }
        // A complete binary tree of at least w nodes.
        let full: Vec<u32> = vec![0; w];
        trees.push((true, decode(true, 5, &full)));
        let nums = |i: usize| -> Vec<u16> { (0..24).map(|k| mix(mix(w as u64, tag + i as u64), k) as u16).collect() };
        for (i, (bin, m)) in trees.into_iter().enumerate() {
            let f = if s.forest && i % 2 == 1 { vec![leaf(bin), m, leaf(bin)] } else { vec![m] };
            out.push(Case::new(bin, f, nums(i)));
        }
        if s.forest {
            for bin in [false, true] {
                let mut f: Vec<M> = (0..w).map(|_| leaf(bin)).collect();
                for i in [0, 255, 256, w - 1] {
                    f[i].kids = vec![Some(leaf(bin)), Some(leaf(bin))];
                }
                out.push(Case::new(bin, f, nums(50)));
            }
        }
    }
    out
}

pub fn exhaustive(s: &Spec) -> Vec<Case> {
    let mut out = vec![];
    for (bin, k) in [(false, s.ex_t), (true, s.ex_b)] {
        if s.forest {
            let per: Vec<Vec<M>> = (0..=k).map(|n| if bin { all_binary(n) } else { all_trees(n) }).collect();
            for n in 0..=k {
                let mut fs = vec![];
                forests(n, &per, &mut vec![], &mut fs);
                out.extend(fs.into_iter().map(|f| Case::new(bin, f, vec![])));
            }
        } else {
            for n in 1..=k {
                for m in if bin { all_binary(n) } else { all_trees(n) } {
                    out.push(Case::new(bin, vec![m], vec![]));
                }
            }
        }
    }
    out
}
fn forests(n: usize, per: &[Vec<M>], cur: &mut Vec<M>, out: &mut Vec<Vec<M>>) {
    if n == 0 {
        out.push(cur.clone());
        return;
    }
    for first in 1..=n {
        for m in &per[first] {
            cur.push(m.clone());
            forests(n - first, per, cur, out);
            cur.pop();
        }
    }
}

/// Decode a list of raw numbers into a tree of `vals.len() + 1` nodes.
pub fn decode(bin: bool, style: u8, vals: &[u32]) -> M {
    let n = vals.len() + 1;
    let mut kids: Vec<Vec<Option<usize>>> = vec![if bin { vec![None, None] } else { vec![] }; n];
    for i in 1..n {
        let v = vals[i - 1] as usize;
        let r = v >> 12;
        let uniform = r % i;
        let p = match style % 7 {
            0 => uniform,
            1 => if v & 15 > 1 { i - 1 } else { uniform },
            2 => if v & 15 > 1 { 0 } else { uniform },
            3 => i - 1 - r % i.min(4),
            4 => if i % 2 == 0 || i < 2 { i.saturating_sub(2) } else { i - 1 },
            5 => (i - 1) / if bin { 2 } else { 2 + (vals[0] as usize % 3) },
            _ => if v & 3 == 0 { i - 1 } else { r % i.div_ceil(2) },
        };
        if bin {
            let mut p = p;
            while kids[p][0].is_some() && kids[p][1].is_some() {
                p = (p + 1) % i;
            }
            let s = v >> 4 & 1;
            let s = if kids[p][s].is_some() { 1 - s } else { s };
            kids[p][s] = Some(i);
        } else {
            let at = if v >> 4 & 1 == 0 { kids[p].len() } else { (v >> 5) % (kids[p].len() + 1) };
            kids[p].insert(at, Some(i));
        }
    }
    let mut done: Vec<Option<M>> = vec![None; n];
    // Parents have smaller indices than their children, so build from the back.
    for i in (0..n).rev() {
        let ks = std::mem::take(&mut kids[i]).into_iter().map(|k| k.and_then(|k| done[k].take())).collect();
        done[i] = Some(M { id: 0, kids: ks });
    }
    done[0].take().unwrap()
}

#[cfg(feature = "gen")]
mod strat {
    use super::*;
    use proptest::collection::vec;
    use proptest::prelude::*;
    use proptest::strategy::ValueTree;
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

    fn raw_tree(max: usize) -> BoxedStrategy<(u8, Vec<u32>)> {
        let size = prop_oneof![
            5 => 1..=8usize.min(max),
            4 => 6usize.min(max)..=24usize.min(max),
            2 => 20usize.min(max)..=80usize.min(max),
            1 => 60usize.min(max)..=max,
        ];
        size.prop_flat_map(|n| (0u8..7, vec(any::<u32>(), n - 1))).boxed()
    }
    fn cases(s: &Spec) -> BoxedStrategy<Case> {
        let max = s.max_nodes;
        let trees = if s.forest {
            prop_oneof![
                1 => vec(raw_tree(max), 0..=1usize),
                4 => vec(raw_tree((max / 4).max(4)), 2..=6usize),
                1 => vec(raw_tree(3), 4..=12usize),
            ]
            .boxed()
        } else {
            vec(raw_tree(max), 1).boxed()
        };
        (any::<bool>(), trees, vec(any::<u16>(), 24))
            .prop_map(|(bin, ts, nums)| Case::new(bin, ts.iter().map(|(s, v)| decode(bin, *s, v)).collect(), nums))
            .boxed()
    }
    pub struct Gen(BoxedStrategy<Case>, u64);
    impl Gen {
        pub fn new(s: &Spec, seed: u64) -> Gen {
            Gen(cases(s), seed)
        }
        /// The `j`-th random case of this seed, independent of all others.
        pub fn case(&self, j: u64) -> Case {
            let mut bytes = [0u8; 32];
            for (i, c) in bytes.chunks_mut(8).enumerate() {
                c.copy_from_slice(&mix(mix(self.1, j + 1), i as u64).to_le_bytes());
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
            let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
            self.0.new_tree(&mut runner).expect("strategy has no filters").current()
        }
    }
}
#[cfg(feature = "gen")]
pub use strat::Gen;

// ------------------------------------------------------------------ shrinking

fn each_node_edit(m: &M, out: &mut Vec<M>, bin: bool) {
    // Replace the whole tree by one of its subtrees, delete one subtree, or recurse.
    for k in m.present() {
        out.push(k.clone());
    }
    for i in 0..m.kids.len() {
        if let Some(k) = &m.kids[i] {
            let mut d = m.clone();
            if bin {
                d.kids[i] = None;
            } else {
                d.kids.remove(i);
            }
            out.push(d);
            let mut sub = vec![];
            each_node_edit(k, &mut sub, bin);
            for s in sub {
                let mut d = m.clone();
                d.kids[i] = Some(s);
                out.push(d);
            }
        }
    }
}
fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    if c.forest.len() > 1 {
        let n = c.forest.len();
        if n > 40 {
            for (a, b) in [(0, n / 2), (n / 2, n), (0, n / 8), (n - n / 8, n)] {
                let mut f = c.forest.clone();
                f.drain(a..b);
                out.push(Case::new(c.bin, f, c.nums.clone()));
            }
            return out;
        }
        for i in 0..n {
            let mut f = c.forest.clone();
            f.remove(i);
            out.push(Case::new(c.bin, f, c.nums.clone()));
        }
    }
    for i in 0..c.forest.len() {
        if c.forest[i].size() > 400 {
            // Too many single edits: halve the children of the widest node, or move to a subtree.
            let mut path = vec![];
            let (mut at, mut best) = (&c.forest[i], (0, vec![]));
            loop {
                if at.kids.len() > best.0 {
                    best = (at.kids.len(), path.clone());
                }
                let Some((k, m)) = at.kids.iter().enumerate().filter_map(|(k, m)| Some((k, m.as_ref()?))).max_by_key(|x| x.1.size()) else { break };
                path.push(k);
                at = m;
            }
            let cut = |from: usize, to: usize| {
                let mut d = c.forest[i].clone();
                let mut at = &mut d;
                for &k in &best.1 {
                    at = at.kids[k].as_mut().unwrap();
                }
                at.kids.drain(from..to);
                d
            };
            let mut e: Vec<M> = c.forest[i].present().take(8).cloned().collect();
            if !c.bin && best.0 > 1 {
                e.extend([cut(0, best.0 / 2), cut(best.0 / 2, best.0), cut(0, best.0 / 8), cut(best.0 - best.0 / 8, best.0)]);
            }
            for m in e {
                let mut f = c.forest.clone();
                f[i] = m;
                out.push(Case::new(c.bin, f, c.nums.clone()));
            }
            continue;
        }
        let mut e = vec![];
        each_node_edit(&c.forest[i], &mut e, c.bin);
        e.sort_by_key(|m| m.size());
        for m in e {
            let mut f = c.forest.clone();
            f[i] = m;
            out.push(Case::new(c.bin, f, c.nums.clone()));
        }
    }
    for i in 0..c.nums.len() {
        for v in [0, c.nums[i] / 2, c.nums[i].saturating_sub(1)] {
            if v != c.nums[i] {
                let mut n = c.nums.clone();
                n[i] = v;
                out.push(Case::new(c.bin, c.forest.clone(), n));
            }
        }
    }
    out
}
/// Greedy structural shrinking: keep any smaller case that still fails.
pub fn shrink(c: &Case, budget: usize, deadline: std::time::Duration, fails: &mut dyn FnMut(&Case) -> Option<String>) -> (Case, Option<String>) {
    let start = std::time::Instant::now();
    let mut cur = c.clone();
    let mut msg = None;
    let mut left = budget;
    'outer: loop {
        for k in candidates(&cur) {
            if left == 0 || start.elapsed() > deadline {
                break 'outer;
            }
            left -= 1;
            if let Some(m) = fails(&k) {
                cur = k;
                msg = Some(m);
                continue 'outer;
            }
        }
        break;
    }
    (cur, msg)
}

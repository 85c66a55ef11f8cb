//! C18, user code that breaks every rule but is written in safe Rust: iterators reporting wild
//! paths and depths, children that lie about their number, come back after their end, or panic.
//! Nothing but undefined behaviour is judged here, so all answers and panics are ignored.
use super::ledger::Bomb;
use super::pipe::{hits, phash};
use super::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

/// One step of an iterator that makes its positions up.
#[derive(Clone)]
struct Step {
    path: Vec<usize>,
    depth: usize,
}
struct Script {
    steps: Vec<Step>,
    at: usize,
    /// Panic in this call to `next`.
    bomb: usize,
    cut: usize,
}
impl Iterator for Script {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        val::work(1);
        self.at += 1;
        if self.at == self.bomb {
            std::panic::panic_any(Bomb);
        }
        // Ends, and starts again afterwards.
        if self.at > self.steps.len() {
            if self.at == self.steps.len() + 3 {
                self.at = 0;
            }
            return None;
        }
        Some(V::new(self.at as u32))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.cut * 7, Some(self.cut))
    }
}
impl Script {
    fn now(&self) -> Option<&Step> {
        self.steps.get(self.at.wrapping_sub(1))
    }
}
impl TreeIteratorBase<V, ()> for Script {
    fn current_path(&self) -> &[usize] {
        self.now().map_or(&[], |s| &s.path)
    }
    fn current_depth(&self) -> usize {
        self.now().map_or(0, |s| s.depth)
    }
    fn prune_current_subtree(&mut self) {
        self.cut += 1;
        self.at += self.cut % 2;
    }
}
impl TreeIterator<V, ()> for Script {}
impl BinaryTreeIterator<V, ()> for Script {}
/// The same as an iterator over a collection of trees.
struct CScript(Script);
impl Iterator for CScript {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.0.next()
    }
}
impl TreeCollectionIteratorBase<V, ()> for CScript {
    fn current_path(&self) -> &[usize] {
        TreeIteratorBase::current_path(&self.0)
    }
    fn current_depth(&self) -> usize {
        TreeIteratorBase::current_depth(&self.0)
    }
    fn prune_current_subtree(&mut self) {
        TreeIteratorBase::prune_current_subtree(&mut self.0)
    }
}
impl TreeCollectionIterator<V, ()> for CScript {}
impl BinaryTreeCollectionIterator<V, ()> for CScript {}

/// A plausible walk over the case's own trees, disturbed at some steps.
fn script(c: &Case, k: u64) -> Script {
    let h = mix(c.hash64(), k);
    let mut steps = vec![];
    for (t, m) in c.forest.iter().enumerate() {
        for f in infos(m) {
            let mut path = if k % 2 == 1 { vec![t] } else { vec![] };
            path.extend(f.path);
            steps.push(Step { depth: f.anc.len() - 1, path });
            if steps.len() >= 60 {
                break;
            }
        }
    }
    for i in 0..steps.len() {
        let x = mix(h, i as u64);
        if x % 3 != 0 {
            continue;
        }
        let s = &mut steps[i];
        let wild = [2, 3, 5, 7, 64, 1 << 20, 1 << 44, usize::MAX, usize::MAX - 1, usize::MAX / 24 + 1][(x >> 8) as usize % 10];
        match (x >> 20) % 8 {
            0 | 1 => {
                if let Some(l) = s.path.last_mut() {
                    *l = wild
                }
            }
            2 => {
                if let Some(l) = s.path.first_mut() {
                    *l = wild
                }
            }
            3 => {
                s.path.push(wild);
                s.depth += 1;
            }
            4 => {
                s.path.pop();
                s.depth = s.depth.saturating_sub(1);
            }
            5 => s.path.clear(),
            6 => s.depth = [0, s.depth + 1, s.depth.wrapping_sub(1), usize::MAX, s.path.len() + 3][(x >> 30) as usize % 5],
            _ => {
                s.path = (0..x as usize >> 40 & 7).map(|j| (x >> (44 + j)) as usize & 1).collect();
                s.depth = s.path.len();
            }
        }
    }
    Script { bomb: if h % 5 == 0 { 1 + (h >> 8) as usize % (steps.len() + 2) } else { 0 }, steps, at: 0, cut: 0 }
}

fn quiet(n: usize, f: impl FnOnce()) {
    guard(n * 8 + 50);
    let _ = catch_unwind(AssertUnwindSafe(f));
}
macro_rules! ops {
    ($name:ident, $base:ident, $sub:ident, $Kids:ty, $map:ident, $fold:ident, |$t:ident| $collect:expr, |$r:ident| $drain:expr) => {
        fn $name<I: $sub<V, ()>>(i: I, which: u64, h: u64) {
            fn see(k: $Kids) {
                for x in Slots::<V>::slots(k).iter().flatten() {
                    x.touch();
                }
            }
            macro_rules! trees { ($x:expr) => {{ let $t = $x; $collect }}; }
            macro_rules! drain { ($x:expr) => {{ let $r = $x; $drain }}; }
            let p = |v: &V| hits(h, 4, v.id() as u64);
            let pp = |a: &[usize], v: &V| hits(h, 4, phash(a) ^ v.touch() as u64);
            let d = h as usize % 4;
            match which {
                0 => trees!(i),
                1 => drain!(i.$fold(|k: $Kids, v| { see(k); v })),
                2 => drain!(i.fold_path(|k: $Kids, a, v| { see(k); phash(a); v })),
                3 => trees!(i.map_path(|a, v| (phash(a), v))),
                4 => trees!(i.prune(p).prune_path(pp).$map(|v| v)),
                5 => drain!(i.prune_path(pp).prune(p).fold_path(|k: $Kids, a, v| { see(k); phash(a); v })),
                _ => drain!(i.prune_depth(d).$fold(|k: $Kids, v| { see(k); v })),
            }
        }
    };
}
ops!(ops_t, TreeIteratorBase, TreeIterator, Vec<V>, map_tree, fold_tree, |t| { t.collect_tree(); }, |r| { r.map(|v: V| v.touch()); });
ops!(ops_b, TreeIteratorBase, BinaryTreeIterator, [Option<V>; 2], map_tree, fold_tree, |t| { t.collect_tree(); }, |r| { r.map(|v: V| v.touch()); });
ops!(cops_t, TreeCollectionIteratorBase, TreeCollectionIterator, Vec<V>, map_trees, fold_trees, |t| { t.trees().take(100).count(); }, |r| { r.take(100).map(|v: V| v.touch()).count(); });
ops!(cops_b, TreeCollectionIteratorBase, BinaryTreeCollectionIterator, [Option<V>; 2], map_trees, fold_trees, |t| { t.trees().take(100).count(); }, |r| { r.take(100).map(|v: V| v.touch()).count(); });

pub fn hostile(c: &Case, o: &mut Obs) -> R {
    let n = c.nodes();
    let h = c.hash64();
    for k in 0..if lite() { 2 } else { 8 } {
        let s = || script(c, k);
        let cs = || CScript(script(c, k));
        macro_rules! each {
            ($($e:expr);* $(;)?) => {{
                let mut i = 0u64;
                $(
                    i += 1;
                    if !lite() || (i + k + h) % 3 == 0 {
                        quiet(n, || { let _ = $e; });
                        o.eval(&[900, k, i], n >= 2);
                    }
                )*
            }};
        }
        each! {
            ops_t(s(), 0, h); ops_t(s(), 1, h); ops_t(s(), 2, h); ops_t(s(), 3, h); ops_t(s(), 4, h); ops_t(s(), 5, h); ops_t(s(), 6, h);
            ops_b(s(), 0, h); ops_b(s(), 1, h); ops_b(s(), 2, h); ops_b(s(), 3, h); ops_b(s(), 4, h); ops_b(s(), 5, h); ops_b(s(), 6, h);
            cops_t(cs(), 0, h); cops_t(cs(), 1, h); cops_t(cs(), 2, h); cops_t(cs(), 3, h); cops_t(cs(), 4, h); cops_t(cs(), 5, h); cops_t(cs(), 6, h);
            cops_b(cs(), 0, h); cops_b(cs(), 1, h); cops_b(cs(), 2, h); cops_b(cs(), 3, h); cops_b(cs(), 4, h); cops_b(cs(), 5, h); cops_b(cs(), 6, h);
        }
    }
    if c.bin {
        for m in &c.forest {
            bad_nodes_b(c, m, o);
        }
    } else {
        for m in &c.forest {
            bad_nodes_t(c, m, o);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ nodes with bad children
thread_local! { static BAD: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) }; }
/// Count a call into user code; panic or misbehave when the mode says so.
fn tick() -> u64 {
    BAD.with(|b| {
        let (mode, left) = b.get();
        if mode % 4 == 3 {
            if left == 0 {
                b.set((mode, u64::MAX));
                std::panic::panic_any(Bomb);
            }
            b.set((mode, left - 1));
        }
        mode
    })
}
/// Children that lie about how many they are, pause, or panic.
pub struct Bad<I> {
    it: I,
    calls: u32,
}
impl<I: Iterator> Iterator for Bad<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        val::work(1);
        self.calls += 1;
        let mode = tick();
        if mode % 4 == 2 && (mode >> 8 >> (self.calls % 16)) & 1 == 1 {
            // Ends for now.
            return None;
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match (tick() >> 4) % 5 {
            0 => (0, Some(0)),
            1 => (1000, Some(1000)),
            2 => (usize::MAX, None),
            3 => (5, Some(2)),
            _ => self.it.size_hint(),
        }
    }
}
impl<I: Iterator> std::iter::FusedIterator for Bad<I> {}
pub struct BadT {
    v: V,
    kids: Vec<BadT>,
}
pub struct BadB {
    v: V,
    kids: [Option<Box<BadB>>; 2],
}
impl OwnedTreeNode for BadT {
    type OwnedValue = V;
    type OwnedChildren = Bad<std::vec::IntoIter<BadT>>;
    fn get_value_and_children(self) -> (V, Self::OwnedChildren) {
        tick();
        (self.v, Bad { it: self.kids.into_iter(), calls: 0 })
    }
}
impl<'a> MutBorrowedTreeNode<'a> for BadT {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = Bad<std::slice::IterMut<'a, BadT>>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Self::MutBorrowedChildren) {
        tick();
        (&mut self.v, Bad { it: self.kids.iter_mut(), calls: 0 })
    }
}
impl<'a> BorrowedTreeNode<'a> for BadT {
    type BorrowedValue = &'a V;
    type BorrowedChildren = Bad<std::slice::Iter<'a, BadT>>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Self::BorrowedChildren) {
        tick();
        (&self.v, Bad { it: self.kids.iter(), calls: 0 })
    }
}
impl OwnedBinaryTreeNode for BadB {
    type OwnedValue = V;
    fn get_value_and_children_binary(self) -> (V, [Option<Self>; 2]) {
        tick();
        let [l, r] = self.kids;
        (self.v, [l.map(|x| *x), r.map(|x| *x)])
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for BadB {
    type MutBorrowedValue = &'a mut V;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut V, [Option<&'a mut Self>; 2]) {
        tick();
        let [l, r] = &mut self.kids;
        (&mut self.v, [l.as_deref_mut(), r.as_deref_mut()])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for BadB {
    type BorrowedValue = &'a V;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a V, [Option<&'a Self>; 2]) {
        tick();
        (&self.v, [self.kids[0].as_deref(), self.kids[1].as_deref()])
    }
}
trait Build {
    fn build(m: &M) -> Self;
    fn visit(&self, f: &mut dyn FnMut(&V));
}
impl Build for BadT {
    fn build(m: &M) -> BadT {
        BadT { v: V::new(m.id), kids: m.present().map(BadT::build).collect() }
    }
    fn visit(&self, f: &mut dyn FnMut(&V)) {
        f(&self.v);
        for k in &self.kids {
            k.visit(f);
        }
    }
}
impl Build for BadB {
    fn build(m: &M) -> BadB {
        let [l, r] = [0, 1].map(|i| m.kids[i].as_ref().map(|k| Box::new(BadB::build(k))));
        BadB { v: V::new(m.id), kids: [l, r] }
    }
    fn visit(&self, f: &mut dyn FnMut(&V)) {
        f(&self.v);
        for k in self.kids.iter().flatten() {
            k.visit(f);
        }
    }
}
fn touch_all<S: StreamingIterator<Item = [X]> + ?Sized, X: HasId>(it: &mut S, cap: usize) {
    for _ in 0..cap {
        // Keep asking after the end, too.
        it.advance();
        if let Some(s) = it.get() {
            for x in s {
                x.id();
            }
        }
    }
}
fn touch_rows<S: StreamingIteratorMut<Item = TreeContext<X, C>> + ?Sized, X: MutId, C>(it: &mut S, cap: usize) {
    for i in 0..cap {
        it.advance();
        if let Some(c) = it.get_mut() {
            for x in c.ancestors_mut() {
                x.set(i as u32);
            }
            c.depth();
        }
    }
}
macro_rules! bad_nodes {
    ($name:ident, $N:ident, $own:ident, $rf:ident, $mt:ident, $ords:ident) => {
        fn $name(c: &Case, m: &M, o: &mut Obs) {
            use crate::drive::{$mt, $own, $rf};
            let n = m.size();
            let cap = n + 3;
            let h = mix(c.hash64(), 77);
            for &ord in &$ords {
                for k in 0..if lite() { 1u64 } else { 6 } {
                    let k = if lite() { mix(h, ord as u64) % 6 } else { k };
                    let x = mix(h, k * 4 + ord as u64);
                    let mode = x & !3 | if k == 0 { 1 } else { 2 + (k & 1) };
                    let arm = |j: u64| BAD.with(|b| b.set((mode, mix(x, j) % (3 * n as u64 + 2))));
                    let stop = (x >> 30) as usize % (n + 2);
                    macro_rules! all {
                        ($drv:ident, $t:expr) => {{
                            arm(1);
                            quiet(n * 4, || { $drv!($t, ord, |it| { for _ in 0..cap { if let Some(v) = it.next() { v.id(); } it.size_hint(); } }); });
                            arm(2);
                            quiet(n * 4, || { $drv!($t, ord, |it| { take_ids(&mut it, stop); let mut l = it.leaves(); for _ in 0..cap { if let Some(v) = l.next() { v.id(); } l.size_hint(); } }); });
                            arm(3);
                            quiet(n * 4, || { $drv!($t, ord, |it| touch_all(&mut it.attach_ancestors(), cap)); });
                            arm(4);
                            quiet(n * 4, || { $drv!($t, ord, |it| { let mut a = it.attach_ancestors(); take_stacks(&mut a, stop); touch_all(&mut a.leaves(), cap) }); });
                        }};
                    }
                    let build = || { let b = BAD.with(|b| b.replace((0, 0))); let t = $N::build(m); BAD.with(|x| x.set(b)); t };
                    all!($own, build());
                    arm(5);
                    quiet(n * 4, || { $own!(build(), ord, |it| { let mut s = it.attach_context(); for _ in 0..cap { if let Some(c) = s.next() { for v in c.ancestors() { v.id(); } } } }); });
                    let mut t = build();
                    all!($rf, t);
                    arm(5);
                    quiet(n * 4, || { $rf!(t, ord, |it| { let mut s = it.attach_context(); for _ in 0..cap { if let Some(c) = s.next() { for v in c.ancestors() { v.id(); } } } }); });
                    all!($mt, t);
                    arm(6);
                    quiet(n * 4, || { $mt!(t, ord, |it| touch_rows(&mut it.attach_context(), cap)); });
                    // Forgetting an iterator halfway leaves the tree usable.
                    arm(7);
                    quiet(n * 4, || { $mt!(t, ord, |it| { take_ids(&mut it, stop); std::mem::forget(it) }); });
                    arm(8);
                    quiet(n * 4, || { $mt!(t, ord, |it| { let mut a = it.attach_context(); take_rows(&mut a, stop); std::mem::forget(a) }); });
                    t.visit(&mut |v| { v.touch(); });
                    arm(9);
                    quiet(n * 4, || { $own!(build(), ord, |it| { let mut a = it.attach_ancestors(); take_stacks(&mut a, stop); std::mem::forget(a.leaves()) }); });
                    macro_rules! run { ($j:expr, $e:expr) => {{ arm($j); quiet(n * 4, || { let _ = $e; }); }}; }
                    if ord == Ord::Bfs {
                        run!(10, build().map(|v| v));
                        run!(11, build().map_path(|p, v| (phash(p), v)));
                        run!(12, t.map_ref(|v| v.touch()));
                        run!(13, t.map_mut(|v| v));
                        run!(14, build().fold(|_, v| v));
                        run!(15, t.fold_ref(|_, v| v));
                        run!(16, t.fold_path_mut(|_, p, v| { v.set(phash(p) as u32); v }));
                        run!(17, build().prune(|v| hits(x, 3, v.touch() as u64)));
                        run!(18, t.prune_path_mut(|p, v| hits(x, 3, phash(p) ^ v.touch() as u64)));
                        run!(19, t.prune_depth_ref(x as usize % 4));
                        run!(20, build().at_path(&[x as usize % 3, 0, 1]));
                        run!(21, t.at_path_mut(&[x as usize % 3, usize::MAX]));
                        run!(22, t.at_path_ref(&[x as usize % 3, 1]));
                        run!(23, t.prune_mut(|v| { v.touch(); false }));
                    }
                    t.visit(&mut |v| { v.touch(); });
                    o.eval(&[950, ord as u64, k, stop as u64], n >= 2);
                    BAD.with(|b| b.set((0, 0)));
                }
            }
        }
    };
}
bad_nodes!(bad_nodes_t, BadT, t_own, t_ref, t_mut, T_ORDS);
bad_nodes!(bad_nodes_b, BadB, b_own, b_ref, b_mut, B_ORDS);

//! C02 / C15: what is written through the iterators.
use super::traverse::{id_set, points};
use super::*;
use std::collections::{HashMap, LinkedList, VecDeque};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};

fn order_ids(m: &M, o: Ord) -> Vec<u32> {
    m.order(o).iter().map(|m| m.id).collect()
}
fn leaf_order(m: &M, o: Ord) -> Vec<u32> {
    let o = if o == Ord::Bfs { Ord::Bfs } else { Ord::Post };
    m.order(o).iter().filter(|m| m.is_leaf()).map(|m| m.id).collect()
}
/// Reference for "add 1 to every ancestor at every visited node": the rows seen and final marks.
fn bumps(inf: &[Info], base: u32, visit: &[u32], marks: &mut HashMap<u32, u32>) -> Vec<Vec<(u32, u32)>> {
    visit
        .iter()
        .map(|i| {
            inf[(i - base) as usize]
                .anc
                .iter()
                .map(|a| {
                    let m = marks.entry(*a).or_insert(0);
                    *m += 1;
                    (*a, *m)
                })
                .collect()
        })
        .collect()
}
/// Reference for "add 1 to every ancestor and to everything below": rows seen and final marks.
fn bumps_around(m: &M, inf: &[Info], base: u32, visit: &[u32], marks: &mut HashMap<u32, u32>) -> Vec<Vec<(u32, u32)>> {
    fn below(m: &M, kids: &mut HashMap<u32, Vec<u32>>) -> Vec<u32> {
        let mut all = vec![];
        for k in m.present() {
            all.push(k.id);
            all.extend(below(k, kids));
        }
        kids.insert(m.id, all.clone());
        all
    }
    let mut kids = HashMap::new();
    below(m, &mut kids);
    let mut add = |a: &u32| {
        let m = marks.entry(*a).or_insert(0);
        *m += 1;
        (*a, *m)
    };
    visit.iter().map(|i| inf[(i - base) as usize].anc.iter().chain(&kids[i]).map(&mut add).collect()).collect()
}
fn mark_fn(h: &HashMap<u32, u32>) -> impl Fn(u32) -> u32 + '_ {
    move |i| h.get(&i).copied().unwrap_or(0)
}

pub fn c02(c: &Case, o: &mut Obs) -> R {
    let m = &c.forest[0];
    flavours!(c, c02_t / c02_b(c, m, o));
    Ok(())
}
dual! {
    fn c02_t / c02_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        for &ord in ORDS {
            let all = order_ids(m, ord);
            let leaves = leaf_order(m, ord);
            let leaf_set = id_set(&leaves);
            let at = |s: &str, k: usize| format!("{} {:?} {} after {}", N::NAME, ord, s, k);
            let mut t = N::build(m);
            for k in points(c, o, n) {
                // Take k references out of the iterator, drop it, then write through all of them.
                guard(n);
                let mut t = N::build(m);
                let mut refs: Vec<&mut V> = mt!(t, ord, |it| it.by_ref().take(k).collect());
                for r in refs.iter_mut().rev() { let i = r.id; r.write(i + 7); }
                drop(refs);
                let seen = &all[..k.min(n)];
                let seen_set = id_set(seen);
                o.eval(&[0, ord as u64, N::NAME.len() as u64, k as u64], k >= 2 && n >= 3);
                ctx(eq("marks", &snap(&t), &snap_model(m, &|i| if seen_set.contains(&i) { i + 7 } else { 0 })), || at("writes through collected references", k))?;
                // The same for leaves() taken at that point, with the earlier references still alive.
                guard(n);
                let mut t = N::build(m);
                let (mut a, mut b): (Vec<&mut V>, Vec<&mut V>) = mt!(t, ord, |it| {
                    let a = it.by_ref().take(k).collect();
                    let b = it.leaves().take(n + 1).collect();
                    (a, b)
                });
                for r in b.iter_mut() { let i = r.id; r.write(i + 1000); }
                for r in a.iter_mut() { let i = r.id; r.write(r.mark + i + 7); }
                drop((a, b));
                let want = |i: u32| if seen_set.contains(&i) { i + 7 } else if leaf_set.contains(&i) { i + 1000 } else { 0 };
                o.eval(&[1, ord as u64, N::NAME.len() as u64, k as u64], k >= 1 && k < n);
                ctx(eq("marks", &snap(&t), &snap_model(m, &want)), || at("writes through leaves()", k))?;
                // Writing through the ancestor stack, switching to leaves() on the way.
                guard(n);
                let mut t = N::build(m);
                let mut marks = HashMap::new();
                let w1 = bumps(&inf, m.id, seen, &mut marks);
                let rest: Vec<u32> = leaves.iter().copied().filter(|i| !seen_set.contains(i)).collect();
                let w2 = bumps(&inf, m.id, &rest, &mut marks);
                let (g1, g2) = mt!(t, ord, |it| {
                    let mut a = it.attach_ancestors();
                    let mut g1 = vec![];
                    for _ in 0..k {
                        a.advance();
                        match a.get_mut() {
                            Some(s) => {
                                for x in s.iter_mut() { x.write(x.mark + 1); }
                                g1.push(s.iter().map(|x| (x.id, x.mark)).collect::<Vec<_>>());
                            }
                            None => break,
                        }
                    }
                    let mut l = a.leaves();
                    (g1, bump_stacks(&mut l, n + 2))
                });
                o.eval(&[2, ord as u64, N::NAME.len() as u64, k as u64], k >= 1 && k < n);
                ctx(eq("stacks", &g1, &w1), || at("ancestor marks", k))?;
                ctx(eq("stacks", &g2.map_err(|e| at(&e, k))?, &w2), || at("ancestor marks in leaves()", k))?;
                ctx(eq("marks", &snap(&t), &snap_model(m, &mark_fn(&marks))), || at("ancestor marks", k))?;
            }
            // Adding 1 along every ancestor stack leaves every node with its subtree's size.
            let mut marks = HashMap::new();
            let want = bumps(&inf, m.id, &all, &mut marks);
            guard(n);
            let got = mt!(t, ord, |it| bump_stacks(&mut it.attach_ancestors(), n + 2));
            ctx(eq("stacks", &got.map_err(|e| at(&e, n))?, &want), || at("ancestors", n))?;
            ctx(eq("marks", &snap(&t), &snap_model(m, &mark_fn(&marks))), || at("ancestors", n))?;
            guard(n);
            let t = N::build(m);
            let got = own!(t, ord, |it| bump_stacks(&mut it.attach_ancestors(), n + 2));
            ctx(eq("stacks", &got.map_err(|e| at(&e, n))?, &want), || at("owned ancestors", n))?;
            o.eval(&[3, ord as u64, N::NAME.len() as u64], m.depth() >= 2);
            guard(n);
            let t = N::build(m);
            let got = own!(t, ord, |it| bump_rows(&mut it.attach_context(), n + 2));
            ctx(eq("stacks", &got.map_err(|e| at(&e, n))?, &want), || at("owned context", n))?;
            // KF-1: see C18.
            if !(N::HEAP_KIDS && ord == Ord::Post) {
                guard(n);
                let mut t = N::build(m);
                let got = mt!(t, ord, |it| bump_rows(&mut it.attach_context(), n + 2));
                ctx(eq("stacks", &got.map_err(|e| at(&e, n))?, &want), || at("context", n))?;
                ctx(eq("marks", &snap(&t), &snap_model(m, &mark_fn(&marks))), || at("context", n))?;
                o.eval(&[4, ord as u64, N::NAME.len() as u64], m.depth() >= 2);
                // The same, and everything below each node through children_mut().
                let mut marks = HashMap::new();
                let want = bumps_around(m, &inf, m.id, &all, &mut marks);
                guard(n);
                let mut t = N::build(m);
                let got = mt!(t, ord, |it| bump_around(&mut it.attach_context(), n + 2));
                ctx(eq("rows", &got.map_err(|e| at(&e, n))?, &want), || at("context and children", n))?;
                ctx(eq("marks", &snap(&t), &snap_model(m, &mark_fn(&marks))), || at("context and children", n))?;
                o.eval(&[7, ord as u64, N::NAME.len() as u64], m.depth() >= 2 && n >= 4);
            }
        }
        // collections: the tree twice, all references held at once
        for &ord in ORDS {
            guard(2 * n);
            let mut v: Vec<N> = vec![N::build(m), N::build(m)];
            let mut refs: Vec<&mut V> = cmut!((&mut v), ord, |it| it.take(2 * n + 1).collect());
            for (i, r) in refs.iter_mut().enumerate() { r.write(i as u32 + 1); }
            drop(refs);
            let all = order_ids(m, ord);
            for (j, t) in v.iter().enumerate() {
                let at: HashMap<u32, usize> = all.iter().copied().zip(1..).collect();
                let pos = |i: u32| (j * n + at[&i]) as u32;
                ctx(eq("marks", &snap(t), &snap_model(m, &pos)), || format!("{} {:?} mutable collection traversal", N::NAME, ord))?;
            }
            o.eval(&[5, ord as u64, N::NAME.len() as u64], n >= 2);
            if !(N::HEAP_KIDS && ord == Ord::Post) {
                guard(2 * n);
                let mut v: Vec<N> = vec![N::build(m), N::build(m)];
                let mut marks = HashMap::new();
                let w = bumps(&inf, m.id, &all, &mut marks);
                let got = cmut!((&mut v), ord, |it| bump_rows(&mut it.attach_context(), 2 * n + 2));
                ctx(eq("stacks", &got?, &[w.clone(), w].concat()), || format!("{} {:?} mutable collection context", N::NAME, ord))?;
                for t in &v {
                    ctx(eq("marks", &snap(t), &snap_model(m, &mark_fn(&marks))), || format!("{} {:?} mutable collection context", N::NAME, ord))?;
                }
                o.eval(&[6, ord as u64, N::NAME.len() as u64], m.depth() >= 2);
                guard(2 * n);
                let mut v: Vec<N> = vec![N::build(m), N::build(m)];
                let mut marks = HashMap::new();
                let w = bumps_around(m, &inf, m.id, &all, &mut marks);
                let got = cmut!((&mut v), ord, |it| bump_around(&mut it.attach_context(), 2 * n + 2));
                ctx(eq("rows", &got?, &[w.clone(), w].concat()), || format!("{} {:?} mutable collection context and children", N::NAME, ord))?;
                for t in &v {
                    ctx(eq("marks", &snap(t), &snap_model(m, &mark_fn(&marks))), || format!("{} {:?} mutable collection context and children", N::NAME, ord))?;
                }
                o.eval(&[8, ord as u64, N::NAME.len() as u64], m.depth() >= 2 && n >= 4);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C15 edits to children
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edit {
    Keep,
    Clear,
    DropFirst,
    DropLast,
    Reverse,
    Rotate,
    /// Add a new subtree with this many extra children at the end.
    Push(usize),
    PushFront(usize),
}
pub fn edit_of(seed: u64, id: u32, allow_push: bool) -> Edit {
    let x = mix(seed, id as u64);
    match x % 12 {
        0 => Edit::Clear,
        1 => Edit::DropFirst,
        2 => Edit::DropLast,
        3 => Edit::Reverse,
        4 => Edit::Rotate,
        5 | 6 if allow_push => Edit::Push((x >> 20) as usize % 3),
        7 if allow_push => Edit::PushFront((x >> 20) as usize % 3),
        _ => Edit::Keep,
    }
}
fn edit_in(seed: u64, id: u32, allow_push: bool, reorder: bool) -> Edit {
    match edit_of(seed, id, allow_push) {
        Edit::Reverse | Edit::Rotate if !reorder => Edit::DropFirst,
        e => e,
    }
}
pub const FRESH: u32 = 1_000_000;
fn fresh(id: u32, extra: usize, bin: bool) -> M {
    // Ids derive from the parent, so the reference and the real run agree without shared state.
    let base = FRESH + id * 10;
    let leaf = |i: u32| M { id: i, kids: if bin { vec![None, None] } else { vec![] } };
    let mut m = leaf(base);
    for k in 0..extra {
        if bin {
            m.kids[k % 2] = Some(leaf(base + 1 + k as u32));
        } else {
            m.kids.push(Some(leaf(base + 1 + k as u32)));
        }
    }
    m
}
pub fn edit_model(kids: &mut Vec<Option<M>>, e: Edit, id: u32) {
    match e {
        Edit::Keep => {}
        Edit::Clear => kids.clear(),
        Edit::DropFirst => {
            if !kids.is_empty() {
                kids.remove(0);
            }
        }
        Edit::DropLast => {
            kids.pop();
        }
        Edit::Reverse => kids.reverse(),
        Edit::Rotate => {
            if !kids.is_empty() {
                kids.rotate_left(1)
            }
        }
        Edit::Push(n) => kids.push(Some(fresh(id, n, false))),
        Edit::PushFront(n) => kids.insert(0, Some(fresh(id, n, false))),
    }
}
/// Edits applied to the real children collection of a context.
pub trait EditKids {
    /// Whether new nodes can be added through this collection, and whether edits reach the tree.
    const CAN_PUSH: bool;
    const PERSISTS: bool;
    /// Whether the collection can be reordered (a plain iterator can only be consumed).
    const REORDER: bool = true;
    fn edit(&mut self, e: Edit, id: u32);
}
fn vec_edit<T>(v: &mut Vec<T>, e: Edit, new: Option<T>) {
    match e {
        Edit::Keep => {}
        Edit::Clear => v.clear(),
        Edit::DropFirst => {
            if !v.is_empty() {
                drop(v.remove(0));
            }
        }
        Edit::DropLast => drop(v.pop()),
        Edit::Reverse => v.reverse(),
        Edit::Rotate => {
            if !v.is_empty() {
                v.rotate_left(1)
            }
        }
        Edit::Push(_) => v.extend(new),
        Edit::PushFront(_) => v.splice(0..0, new).for_each(drop),
    }
}
fn extra(e: Edit) -> Option<usize> {
    match e {
        Edit::Push(n) | Edit::PushFront(n) => Some(n),
        _ => None,
    }
}
macro_rules! edit_kids {
    ($([$($g:tt)*] $t:ty, $persists:expr, |$s:ident| $v:expr, |$s2:ident, $new:ident| $back:expr;)*) => {$(
        impl<$($g)*> EditKids for $t {
            const CAN_PUSH: bool = true;
            const PERSISTS: bool = $persists;
            fn edit(&mut self, e: Edit, id: u32) {
                let new = extra(e).map(|n| N::build(&fresh(id, n, false)));
                let $s = &mut *self;
                let mut v: Vec<N> = $v;
                vec_edit(&mut v, e, new);
                let ($s2, $new) = (self, v);
                $back
            }
        }
    )*};
}
edit_kids!(
    [N: TN] Vec<N>, false, |s| std::mem::take(s), |s, v| *s = v;
    ['a, N: TN] &'a mut Vec<N>, true, |s| std::mem::take(*s), |s, v| **s = v;
    [N: TN] LinkedList<N>, false, |s| std::mem::take(s).into_iter().collect(), |s, v| *s = v.into_iter().collect();
    ['a, N: TN] &'a mut LinkedList<N>, true, |s| std::mem::take(*s).into_iter().collect(), |s, v| **s = v.into_iter().collect();
    [N: TN] VecDeque<N>, false, |s| std::mem::take(s).into_iter().collect(), |s, v| *s = v.into_iter().collect();
    ['a, N: TN] &'a mut VecDeque<N>, true, |s| std::mem::take(*s).into_iter().collect(), |s, v| **s = v.into_iter().collect();
);
impl<'a> EditKids for Vec<&'a mut RNode> {
    const CAN_PUSH: bool = false;
    const PERSISTS: bool = false;
    fn edit(&mut self, e: Edit, _: u32) {
        vec_edit(self, e, None)
    }
}
/// Children handed out as a real iterator: consuming items hides them from the traversal.
impl<'a, N> EditKids for std::slice::IterMut<'a, N> {
    const CAN_PUSH: bool = false;
    const PERSISTS: bool = false;
    const REORDER: bool = false;
    fn edit(&mut self, e: Edit, _: u32) {
        match e {
            Edit::Clear => self.by_ref().for_each(drop),
            Edit::DropFirst => drop(self.next()),
            Edit::DropLast => drop(self.next_back()),
            _ => {}
        }
    }
}
impl<N> EditKids for std::vec::IntoIter<N> {
    const CAN_PUSH: bool = false;
    const PERSISTS: bool = false;
    fn edit(&mut self, e: Edit, _: u32) {
        match e {
            Edit::Clear => self.by_ref().for_each(drop),
            Edit::DropFirst => drop(self.next()),
            Edit::DropLast => drop(self.next_back()),
            Edit::Reverse => self.as_mut_slice().reverse(),
            Edit::Rotate if self.len() > 0 => self.as_mut_slice().rotate_left(1),
            _ => {}
        }
    }
}
impl<I: EditKids> EditKids for Blind<I> {
    const CAN_PUSH: bool = false;
    const PERSISTS: bool = false;
    const REORDER: bool = I::REORDER;
    fn edit(&mut self, e: Edit, id: u32) {
        self.0.edit(e, id)
    }
}
/// Owned inorder/postorder contexts have no children to edit.
impl EditKids for () {
    const CAN_PUSH: bool = false;
    const PERSISTS: bool = false;
    fn edit(&mut self, _: Edit, _: u32) {}
}
pub trait EditSlots {
    fn edit(&mut self, e: Edit, id: u32);
}
impl<N: BN> EditSlots for [Option<N>; 2] {
    fn edit(&mut self, e: Edit, id: u32) {
        edit_bin(self, e, |n| Some(N::build(&fresh(id, n, true))))
    }
}
impl EditSlots for () {
    fn edit(&mut self, _: Edit, _: u32) {}
}
/// Binary slots.
pub fn edit_model_bin(kids: &mut [Option<M>], e: Edit, id: u32, can_push: bool) {
    match e {
        Edit::Keep => {}
        Edit::Clear => kids.iter_mut().for_each(|k| *k = None),
        Edit::DropFirst => kids[0] = None,
        Edit::DropLast => kids[1] = None,
        Edit::Reverse | Edit::Rotate => kids.swap(0, 1),
        Edit::Push(n) if can_push => kids[1] = Some(fresh(id, n, true)),
        Edit::PushFront(n) if can_push => kids[0] = Some(fresh(id, n, true)),
        _ => {}
    }
}
fn edit_bin<T>(kids: &mut [Option<T>; 2], e: Edit, new: impl FnOnce(usize) -> Option<T>) {
    match e {
        Edit::Keep => {}
        Edit::Clear => kids.iter_mut().for_each(|k| *k = None),
        Edit::DropFirst => kids[0] = None,
        Edit::DropLast => kids[1] = None,
        Edit::Reverse | Edit::Rotate => kids.swap(0, 1),
        Edit::Push(n) => {
            if let Some(x) = new(n) {
                kids[1] = Some(x)
            }
        }
        Edit::PushFront(n) => {
            if let Some(x) = new(n) {
                kids[0] = Some(x)
            }
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub id: u32,
    pub anc: Vec<u32>,
    pub path: Vec<usize>,
    pub kids: Vec<Option<u32>>,
}
/// The reference: visit a node, edit its children, continue with the edited children.
fn walk_model(m: &mut M, ord: Ord, f: &mut dyn FnMut(&mut M)) -> Vec<Seen> {
    let mut out = vec![];
    let see = |m: &M, anc: &[u32], path: &[usize]| Seen { id: m.id, anc: anc.to_vec(), path: path.to_vec(), kids: m.kid_ids() };
    fn pre(m: &mut M, anc: &mut Vec<u32>, path: &mut Vec<usize>, see: &dyn Fn(&M, &[u32], &[usize]) -> Seen, f: &mut dyn FnMut(&mut M), out: &mut Vec<Seen>) {
        anc.push(m.id);
        out.push(see(m, anc, path));
        f(m);
        for (i, k) in m.kids.iter_mut().enumerate() {
            if let Some(k) = k {
                path.push(i);
                pre(k, anc, path, see, f, out);
                path.pop();
            }
        }
        anc.pop();
    }
    fn post(m: &mut M, anc: &mut Vec<u32>, path: &mut Vec<usize>, see: &dyn Fn(&M, &[u32], &[usize]) -> Seen, f: &mut dyn FnMut(&mut M), out: &mut Vec<Seen>) {
        anc.push(m.id);
        for (i, k) in m.kids.iter_mut().enumerate() {
            if let Some(k) = k {
                path.push(i);
                post(k, anc, path, see, f, out);
                path.pop();
            }
        }
        out.push(see(m, anc, path));
        f(m);
        anc.pop();
    }
    match ord {
        Ord::Pre => pre(m, &mut vec![], &mut vec![], &see, f, &mut out),
        Ord::Post => post(m, &mut vec![], &mut vec![], &see, f, &mut out),
        _ => {
            let mut level: Vec<(Vec<u32>, Vec<usize>, &mut M)> = vec![(vec![m.id], vec![], m)];
            while !level.is_empty() {
                let mut next = vec![];
                for (anc, path, m) in level {
                    out.push(see(m, &anc, &path));
                    f(m);
                    for (i, k) in m.kids.iter_mut().enumerate() {
                        if let Some(k) = k {
                            let (mut a, mut p) = (anc.clone(), path.clone());
                            a.push(k.id);
                            p.push(i);
                            next.push((a, p, k));
                        }
                    }
                }
                level = next;
            }
        }
    }
    out
}
fn edit_walk<S, X, C>(it: &mut S, cap: usize, edit: &mut dyn FnMut(&mut C, u32)) -> R<Vec<Seen>>
where
    X: HasId,
    C: KidIds,
    S: StreamingIteratorMut<Item = tree_iterators_rs::prelude::TreeContext<X, C>> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let Some(c) = it.get_mut() else { return Ok(out) };
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        let anc: Vec<u32> = c.ancestors().iter().map(|x| x.id()).collect();
        let id = *anc.last().ok_or("empty ancestors()")?;
        out.push(Seen { id, anc, path: c.path().to_vec(), kids: c.children().kid_ids() });
        edit(c.children_mut(), id);
        let again = c.ancestors().last().map(|x| x.id());
        if again != Some(id) {
            return Err(format!("ancestors() changed by editing children: {:?}", again));
        }
    }
}
/// The same tree twice in a collection: one row after the other, each path led by the tree's index.
fn twice(rows: &[Seen]) -> Vec<Seen> {
    let at = |t: usize| rows.iter().cloned().map(move |mut r| { r.path.insert(0, t); r });
    at(0).chain(at(1)).collect()
}
fn seeds(c: &Case, o: &Obs) -> Vec<u64> {
    if o.exhaustive {
        (0..if o.thorough { 12 } else { 5 }).map(|i| mix(c.hash64(), i)).collect()
    } else {
        (0..if lite() { 1 } else { 3 }).map(|i| mix(c.num(i) as u64, i as u64)).collect()
    }
}
pub fn c15(c: &Case, o: &mut Obs) -> R {
    let m = &c.forest[0];
    if c.bin {
        if flavour_on(0, 2) { c15_b::<CNode>(c, m, o)?; }
        if flavour_on(1, 2) { c15_b::<tree_iterators_rs::prelude::BinaryTree<V>>(c, m, o)?; }
    } else {
        if flavour_on(0, 6) { c15_t::<LNode>(c, m, o)?; }
        if flavour_on(1, 6) { c15_t::<tree_iterators_rs::prelude::Tree<V>>(c, m, o)?; }
        if flavour_on(2, 6) { c15_t::<DNode>(c, m, o)?; }
        if flavour_on(3, 6) { c15_t::<RNode>(c, m, o)?; }
        if flavour_on(4, 6) { c15_t::<INode>(c, m, o)?; }
        if flavour_on(5, 6) { c15_t::<WNode>(c, m, o)?; }
    }
    Ok(())
}
fn c15_t<N>(c: &Case, m: &M, o: &mut Obs) -> R
where
    N: TN,
    <N as tree_iterators_rs::prelude::OwnedTreeNode>::OwnedChildren: EditKids,
    for<'a> <N as tree_iterators_rs::prelude::MutBorrowedTreeNode<'a>>::MutBorrowedChildren: EditKids,
{
    use crate::drive::{t_mut as mt, t_own as own, tc_mut as cmut, tc_own as cown};
    use tree_iterators_rs::prelude::*;
    for seed in seeds(c, o) {
        for ord in [Ord::Pre, Ord::Bfs] {
            let at = |s: &str| format!("{} {} {:?} with edits of seed {}", N::NAME, s, ord, seed);
            // by value
            let (push, reorder) = (N::OwnedChildren::CAN_PUSH, N::OwnedChildren::REORDER);
            let lim = |id: u32| push && id < FRESH;
            let mut model = m.clone();
            let mut edits = 0;
            let want = walk_model(&mut model, ord, &mut |x| {
                let e = edit_in(seed, x.id, lim(x.id), reorder);
                edits += (e != Edit::Keep && !(x.kids.is_empty() && extra(e).is_none())) as usize;
                edit_model(&mut x.kids, e, x.id)
            });
            let cap = want.len() + 2;
            guard(2 * cap + m.size());
            let t = N::build(m);
            let got = own!(t, ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditKids::edit(k, edit_in(seed, id, lim(id), reorder), id)));
            o.eval(&[0, seed, ord as u64, N::NAME.len() as u64], edits >= 1 && want.len() >= 3);
            ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("owned"))?;
            // the same tree twice in a collection
            let want = twice(&want);
            let cap = want.len() + 2;
            guard(2 * cap + 2 * m.size());
            let got = cown!([m, m].map(N::build), ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditKids::edit(k, edit_in(seed, id, lim(id), reorder), id)));
            o.eval(&[3, seed, ord as u64, N::NAME.len() as u64], edits >= 1 && want.len() >= 6);
            ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("owned collection"))?;
            // by mutable reference
            c15_mut::<N, _>(m, ord, seed, o, &at)?;
        }
        if !N::HEAP_KIDS {
            let at = |s: &str| format!("{} {} Post with edits of seed {}", N::NAME, s, seed);
            c15_mut::<N, _>(m, Ord::Post, seed, o, &at)?;
        }
    }
    fn c15_mut<N, F: Fn(&str) -> String>(m: &M, ord: Ord, seed: u64, o: &mut Obs, at: &F) -> R
    where
        N: TN,
        for<'a> <N as MutBorrowedTreeNode<'a>>::MutBorrowedChildren: EditKids,
    {
        let push = <<N as MutBorrowedTreeNode<'static>>::MutBorrowedChildren as EditKids>::CAN_PUSH;
        let reorder = <<N as MutBorrowedTreeNode<'static>>::MutBorrowedChildren as EditKids>::REORDER;
        let persists = <<N as MutBorrowedTreeNode<'static>>::MutBorrowedChildren as EditKids>::PERSISTS;
        let lim = |id: u32| push && id < FRESH;
        let mut model = m.clone();
        let want = walk_model(&mut model, ord, &mut |x| edit_model(&mut x.kids, edit_in(seed, x.id, lim(x.id), reorder), x.id));
        let cap = want.len() + 2;
        guard(2 * cap + m.size());
        let mut t = N::build(m);
        let got = mt!(t, ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditKids::edit(k, edit_in(seed, id, lim(id), reorder), id)));
        o.eval(&[1, seed, ord as u64, N::NAME.len() as u64], want.len() >= 3);
        ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("mutable"))?;
        let expect = if persists { &model } else { m };
        ctx(eq("tree afterwards", &snap(&t), &snap_model(expect, &|_| 0)), || at("mutable"))?;
        let want = twice(&want);
        let cap = want.len() + 2;
        guard(2 * cap + 2 * m.size());
        let mut v = [m, m].map(N::build);
        let got = cmut!(v.iter_mut(), ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditKids::edit(k, edit_in(seed, id, lim(id), reorder), id)));
        o.eval(&[4, seed, ord as u64, N::NAME.len() as u64], want.len() >= 6);
        ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("mutable collection"))?;
        for t in &v {
            ctx(eq("tree afterwards", &snap(t), &snap_model(expect, &|_| 0)), || at("mutable collection"))?;
        }
        Ok(())
    }
    Ok(())
}
fn c15_b<N: BN>(c: &Case, m: &M, o: &mut Obs) -> R {
    use crate::drive::{b_mut as mt, b_own as own, bc_mut as cmut, bc_own as cown};
    use tree_iterators_rs::prelude::*;
    for seed in seeds(c, o) {
        for ord in [Ord::Pre, Ord::Bfs, Ord::Post] {
            let at = |s: &str| format!("{} {} {:?} with edits of seed {}", N::NAME, s, ord, seed);
            let lim = |id: u32| id < FRESH;
            if ord != Ord::Post {
                let mut model = m.clone();
                let want = walk_model(&mut model, ord, &mut |x| edit_model_bin(&mut x.kids, edit_of(seed, x.id, lim(x.id)), x.id, true));
                let cap = want.len() + 2;
                guard(2 * cap + m.size());
                let t = N::build(m);
                let got = own!(t, ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditSlots::edit(k, edit_of(seed, id, lim(id)), id)));
                o.eval(&[0, seed, ord as u64, N::NAME.len() as u64], want.len() >= 3);
                ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("owned"))?;
                let want = twice(&want);
                let cap = want.len() + 2;
                guard(2 * cap + 2 * m.size());
                let got = cown!([m, m].map(N::build), ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k, id| EditSlots::edit(k, edit_of(seed, id, lim(id)), id)));
                o.eval(&[3, seed, ord as u64, N::NAME.len() as u64], want.len() >= 6);
                ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("owned collection"))?;
            }
            let mut model = m.clone();
            let want = walk_model(&mut model, ord, &mut |x| edit_model_bin(&mut x.kids, edit_of(seed, x.id, false), x.id, false));
            let cap = want.len() + 2;
            guard(2 * cap + m.size());
            let mut t = N::build(m);
            let got = mt!(t, ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k: &mut [Option<&mut N>; 2], id| {
                edit_bin(k, edit_of(seed, id, false), |_| None)
            }));
            o.eval(&[1, seed, ord as u64, N::NAME.len() as u64], want.len() >= 3);
            ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("mutable"))?;
            // The slots only hold references: the tree itself keeps its shape.
            ctx(eq("tree afterwards", &snap(&t), &snap_model(m, &|_| 0)), || at("mutable"))?;
            let want = twice(&want);
            let cap = want.len() + 2;
            guard(2 * cap + 2 * m.size());
            let mut v = [m, m].map(N::build);
            let got = cmut!(v.iter_mut(), ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k: &mut [Option<&mut N>; 2], id| {
                edit_bin(k, edit_of(seed, id, false), |_| None)
            }));
            o.eval(&[4, seed, ord as u64, N::NAME.len() as u64], want.len() >= 6);
            ctx(eq("visited", &got.map_err(|e| at(&e))?, &want), || at("mutable collection"))?;
        }
        // Swapping the child nodes' contents through the references does reach the tree.
        for ord in [Ord::Pre, Ord::Bfs] {
            let at = || format!("{} mutable {:?} swapping child contents, seed {}", N::NAME, ord, seed);
            let swaps = |id: u32| mix(seed, id as u64) % 3 == 0;
            let mut model = m.clone();
            let want = walk_model(&mut model, ord, &mut |x| if swaps(x.id) && x.kids.iter().all(|k| k.is_some()) { x.kids.swap(0, 1) });
            let cap = want.len() + 2;
            guard(2 * cap);
            let mut t = N::build(m);
            let got = mt!(t, ord, |it| edit_walk(&mut it.attach_context(), cap, &mut |k: &mut [Option<&mut N>; 2], id| {
                if let ([Some(a), Some(b)], true) = (k, swaps(id)) { std::mem::swap(*a, *b); }
            }));
            o.eval(&[2, seed, ord as u64, N::NAME.len() as u64], want.len() >= 3);
            ctx(eq("visited", &got.map_err(|e| format!("{} {}", at(), e))?, &want), at)?;
            ctx(eq("tree afterwards", &snap(&t), &snap_model(&model, &|_| 0)), at)?;
        }
    }
    Ok(())
}

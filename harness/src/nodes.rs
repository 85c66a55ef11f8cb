//! Concrete node types the generated shapes are built as: the library's own `Tree` / `BinaryTree`
//! and several third-party-style implementations of the node traits.
use crate::model::M;
use crate::val::{work, HasId, MutId, V};
use std::collections::{LinkedList, VecDeque};
use tree_iterators_rs::prelude::*;

/// A node whose identity and shape the harness can read back without the library.
pub trait Peek {
    fn pid(&self) -> u32;
    fn pmark(&self) -> u32;
    fn pkids(&self) -> Vec<Option<&dyn Peek>>;
}
macro_rules! peek_ref {
    ($t:ty) => {
        impl<N: Peek> Peek for $t {
            fn pid(&self) -> u32 {
                (**self).pid()
            }
            fn pmark(&self) -> u32 {
                (**self).pmark()
            }
            fn pkids(&self) -> Vec<Option<&dyn Peek>> {
                (**self).pkids()
            }
        }
    };
}
peek_ref!(&N);
peek_ref!(&mut N);
/// Rebuild (shape, id, mark) from a real tree by direct field access.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Snap {
    pub id: u32,
    pub mark: u32,
    pub kids: Vec<Option<Snap>>,
}
pub fn snap(p: &dyn Peek) -> Snap {
    Snap { id: p.pid(), mark: p.pmark(), kids: p.pkids().into_iter().map(|k| k.map(snap)).collect() }
}
pub fn snap_model(m: &M, mark: &dyn Fn(u32) -> u32) -> Snap {
    Snap {
        id: m.id,
        mark: mark(m.id),
        kids: m.kids.iter().map(|k| k.as_ref().map(|k| snap_model(k, mark))).collect(),
    }
}

/// The subtree below a node as a flat list: per child slot `EMPTY`, or the id, its own slots, `END`.
pub fn flat(p: &dyn Peek, out: &mut Vec<u32>) {
    for k in p.pkids() {
        match k {
            None => out.push(EMPTY),
            Some(k) => {
                out.push(k.pid());
                flat(k, out);
                out.push(END);
            }
        }
    }
}
pub const EMPTY: u32 = u32::MAX;
pub const END: u32 = u32::MAX - 1;
pub fn flat_model(m: &M, out: &mut Vec<u32>) {
    for k in &m.kids {
        match k {
            None => out.push(EMPTY),
            Some(k) => {
                out.push(k.id);
                flat_model(k, out);
                out.push(END);
            }
        }
    }
}
pub fn flat_of(m: &M) -> Vec<u32> {
    let mut v = vec![];
    flat_model(m, &mut v);
    v
}
/// The children of whatever collection a context or a fold hands out.
pub trait KidIds {
    fn with_kids(&self, f: &mut dyn FnMut(Option<&dyn Peek>));
    fn kid_ids(&self) -> Vec<Option<u32>> {
        let mut v = vec![];
        self.with_kids(&mut |k| v.push(k.map(|k| k.pid())));
        v
    }
    /// Everything below the children too ("children can act as a way to search sub-trees").
    fn kid_flat(&self) -> Vec<u32> {
        let mut v = vec![];
        self.with_kids(&mut |k| match k {
            None => v.push(EMPTY),
            Some(k) => {
                v.push(k.pid());
                flat(k, &mut v);
                v.push(END);
            }
        });
        v
    }
}
macro_rules! kid_ids_seq {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> KidIds for $t {
            fn with_kids(&self, f: &mut dyn FnMut(Option<&dyn Peek>)) { for k in self.iter() { f(Some(k as &dyn Peek)) } }
        }
    )*};
}
kid_ids_seq!(
    [N: Peek] Vec<N>, ['a, N: Peek] &'a Vec<N>, ['a, N: Peek] &'a mut Vec<N>,
    [N: Peek] LinkedList<N>, ['a, N: Peek] &'a LinkedList<N>, ['a, N: Peek] &'a mut LinkedList<N>,
    [N: Peek] VecDeque<N>, ['a, N: Peek] &'a VecDeque<N>, ['a, N: Peek] &'a mut VecDeque<N>,
);
macro_rules! kid_ids_iter {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> KidIds for $t {
            fn with_kids(&self, f: &mut dyn FnMut(Option<&dyn Peek>)) { for k in self.as_slice() { f(Some(k as &dyn Peek)) } }
        }
    )*};
}
kid_ids_iter!([N: Peek] std::vec::IntoIter<N>, ['a, N: Peek] std::slice::Iter<'a, N>, ['a, N: Peek] std::slice::IterMut<'a, N>);
impl<N: Peek> KidIds for [Option<N>; 2] {
    fn with_kids(&self, f: &mut dyn FnMut(Option<&dyn Peek>)) {
        for k in self {
            f(k.as_ref().map(|k| k as &dyn Peek))
        }
    }
}
/// Owned inorder/postorder contexts carry no children.
impl KidIds for () {
    fn with_kids(&self, _: &mut dyn FnMut(Option<&dyn Peek>)) {}
}

/// Write to a node and everything below it (mark + 1), without using the library; what was seen
/// goes to `out`.
pub trait Bump {
    fn bump(&mut self, out: &mut Vec<(u32, u32)>);
}
fn bump_value<X: MutId>(v: &mut X, out: &mut Vec<(u32, u32)>) {
    v.set(v.mark() + 1);
    out.push((v.id(), v.mark()));
}
macro_rules! bump_node {
    ($($t:ident: $v:ident, |$n:ident| $kids:expr;)*) => {$(
        impl Bump for $t {
            fn bump(&mut self, out: &mut Vec<(u32, u32)>) {
                bump_value(&mut self.$v, out);
                let $n = self;
                for k in $kids {
                    k.bump(out);
                }
            }
        }
    )*};
}
use counted::{KNode, QNode};
type VTree = Tree<V>;
type VBinaryTree = BinaryTree<V>;
bump_node!(
    VTree: value, |n| &mut n.children;
    VBinaryTree: value, |n| [&mut n.left, &mut n.right].into_iter().flatten();
    LNode: v, |n| &mut n.kids;
    DNode: v, |n| &mut n.kids;
    RNode: v, |n| &mut n.kids;
    INode: v, |n| &mut n.kids;
    WNode: v, |n| &mut n.kids;
    CNode: v, |n| n.kids.iter_mut().flatten();
    KNode: v, |n| &mut n.kids;
    QNode: v, |n| n.kids.iter_mut().flatten();
);
impl<N: Bump> Bump for &mut N {
    fn bump(&mut self, out: &mut Vec<(u32, u32)>) {
        (**self).bump(out)
    }
}
/// The same for whatever collection of children a mutable context hands out.
pub trait BumpKids {
    fn bump_kids(&mut self, out: &mut Vec<(u32, u32)>);
}
macro_rules! bump_kids {
    ($([$($g:tt)*] $t:ty, |$s:ident| $it:expr;)*) => {$(
        impl<$($g)*> BumpKids for $t {
            fn bump_kids(&mut self, out: &mut Vec<(u32, u32)>) {
                let $s = self;
                for k in $it {
                    k.bump(out);
                }
            }
        }
    )*};
}
bump_kids!(
    [N: Bump] Vec<N>, |s| s;
    ['a, N: Bump] &'a mut Vec<N>, |s| s.iter_mut();
    ['a, N: Bump] &'a mut LinkedList<N>, |s| s.iter_mut();
    ['a, N: Bump] &'a mut VecDeque<N>, |s| s.iter_mut();
    [N: Bump] [Option<N>; 2], |s| s.iter_mut().flatten();
);
/// An iterator of children: replaced by one over the same children.
impl<'a, N: Bump> BumpKids for std::slice::IterMut<'a, N> {
    fn bump_kids(&mut self, out: &mut Vec<(u32, u32)>) {
        let all = std::mem::take(self).into_slice();
        for k in all.iter_mut() {
            k.bump(out);
        }
        *self = all.iter_mut();
    }
}
impl<I: BumpKids> BumpKids for Blind<I> {
    fn bump_kids(&mut self, out: &mut Vec<(u32, u32)>) {
        self.0.bump_kids(out)
    }
}

/// Node with a collection of children, in all three ownership flavours.
pub trait TN:
    Peek
    + Sized
    + 'static
    + OwnedTreeNode<OwnedValue = V, OwnedChildren: KidIds>
    + for<'a> MutBorrowedTreeNode<'a, MutBorrowedValue = &'a mut V, MutBorrowedChildren: KidIds + BumpKids>
    + for<'a> BorrowedTreeNode<'a, BorrowedValue = &'a V, BorrowedChildren: KidIds>
{
    const NAME: &'static str;
    /// The borrowed/mutably borrowed children collections own heap memory.
    const HEAP_KIDS: bool = false;
    fn build(m: &M) -> Self;
}
/// Node with two optional children, in all three ownership flavours.
pub trait BN:
    Peek
    + Bump
    + Sized
    + 'static
    + OwnedBinaryTreeNode<OwnedValue = V>
    + for<'a> MutBorrowedBinaryTreeNode<'a, MutBorrowedValue = &'a mut V>
    + for<'a> BorrowedBinaryTreeNode<'a, BorrowedValue = &'a V>
{
    const NAME: &'static str;
    /// The borrowed/mutably borrowed children collections own heap memory.
    const HEAP_KIDS: bool = false;
    fn build(m: &M) -> Self;
}

// ---------------------------------------------------------------- the library's own types

impl<X: HasId> Peek for Tree<X> {
    fn pid(&self) -> u32 {
        self.value.id()
    }
    fn pmark(&self) -> u32 {
        self.value.mark()
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        self.children.iter().map(|k| Some(k as &dyn Peek)).collect()
    }
}
impl TN for Tree<V> {
    const NAME: &'static str = "Tree";
    fn build(m: &M) -> Self {
        Tree { value: V::new(m.id), children: m.present().map(Self::build).collect() }
    }
}
impl<X: HasId> Peek for BinaryTree<X> {
    fn pid(&self) -> u32 {
        self.value.id()
    }
    fn pmark(&self) -> u32 {
        self.value.mark()
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        [&self.left, &self.right].into_iter().map(|k| k.as_ref().map(|k| &**k as &dyn Peek)).collect()
    }
}
impl BN for BinaryTree<V> {
    const NAME: &'static str = "BinaryTree";
    fn build(m: &M) -> Self {
        let [l, r] = [0, 1].map(|i| m.kids[i].as_ref().map(|k| Box::new(Self::build(k))));
        BinaryTree { value: V::new(m.id), left: l, right: r }
    }
}

/// Write through every value of a result tree, without using the library.
pub trait Poke {
    fn poke(&mut self, f: &dyn Fn(u32) -> u32);
}
impl<X: MutId> Poke for Tree<X> {
    fn poke(&mut self, f: &dyn Fn(u32) -> u32) {
        let id = self.value.id();
        self.value.set(f(id));
        for k in &mut self.children {
            k.poke(f);
        }
    }
}
impl<X: MutId> Poke for BinaryTree<X> {
    fn poke(&mut self, f: &dyn Fn(u32) -> u32) {
        let id = self.value.id();
        self.value.set(f(id));
        for k in [&mut self.left, &mut self.right].into_iter().flatten() {
            k.poke(f);
        }
    }
}
/// The children argument of fold closures.
pub trait Slots<T> {
    fn slots(self) -> Vec<Option<T>>;
}
impl<T> Slots<T> for Vec<T> {
    fn slots(self) -> Vec<Option<T>> {
        self.into_iter().map(Some).collect()
    }
}
impl<T> Slots<T> for [Option<T>; 2] {
    fn slots(self) -> Vec<Option<T>> {
        self.into_iter().collect()
    }
}

// ---------------------------------------------------------------- third-party style nodes

macro_rules! seq_node {
    ($name:ident, $label:literal, $coll:ident) => {
        /// Third-party node storing its children in a different standard collection.
        pub struct $name {
            pub v: V,
            pub kids: $coll<$name>,
        }
        impl Peek for $name {
            fn pid(&self) -> u32 {
                self.v.id
            }
            fn pmark(&self) -> u32 {
                self.v.mark
            }
            fn pkids(&self) -> Vec<Option<&dyn Peek>> {
                self.kids.iter().map(|k| Some(k as &dyn Peek)).collect()
            }
        }
        impl OwnedTreeNode for $name {
            type OwnedValue = V;
            type OwnedChildren = $coll<$name>;
            fn get_value_and_children(self) -> (V, $coll<$name>) {
                work(1);
                (self.v, self.kids)
            }
        }
        impl<'a> MutBorrowedTreeNode<'a> for $name {
            type MutBorrowedValue = &'a mut V;
            type MutBorrowedChildren = &'a mut $coll<$name>;
            fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, &'a mut $coll<$name>) {
                work(1);
                (&mut self.v, &mut self.kids)
            }
        }
        impl<'a> BorrowedTreeNode<'a> for $name {
            type BorrowedValue = &'a V;
            type BorrowedChildren = &'a $coll<$name>;
            fn get_value_and_children_iter(&'a self) -> (&'a V, &'a $coll<$name>) {
                work(1);
                (&self.v, &self.kids)
            }
        }
        impl TN for $name {
            const NAME: &'static str = $label;
            fn build(m: &M) -> Self {
                $name { v: V::new(m.id), kids: m.present().map(Self::build).collect() }
            }
        }
    };
}
seq_node!(LNode, "LinkedListNode", LinkedList);
seq_node!(DNode, "VecDequeNode", VecDeque);

/// Third-party node handing out *owned* collections of references / an iterator as its children.
pub struct RNode {
    pub v: V,
    pub kids: Vec<RNode>,
}
impl Peek for RNode {
    fn pid(&self) -> u32 {
        self.v.id
    }
    fn pmark(&self) -> u32 {
        self.v.mark
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        self.kids.iter().map(|k| Some(k as &dyn Peek)).collect()
    }
}
impl OwnedTreeNode for RNode {
    type OwnedValue = V;
    type OwnedChildren = std::vec::IntoIter<RNode>;
    fn get_value_and_children(self) -> (V, std::vec::IntoIter<RNode>) {
        work(1);
        (self.v, self.kids.into_iter())
    }
}
impl<'a> MutBorrowedTreeNode<'a> for RNode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = Vec<&'a mut RNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Vec<&'a mut RNode>) {
        work(1);
        (&mut self.v, self.kids.iter_mut().collect())
    }
}
impl<'a> BorrowedTreeNode<'a> for RNode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = Vec<&'a RNode>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Vec<&'a RNode>) {
        work(1);
        (&self.v, self.kids.iter().collect())
    }
}
impl TN for RNode {
    const NAME: &'static str = "RefVecNode";
    const HEAP_KIDS: bool = true;
    fn build(m: &M) -> Self {
        RNode { v: V::new(m.id), kids: m.present().map(Self::build).collect() }
    }
}

/// Third-party node handing out plain iterators as its children, in every ownership.
pub struct INode {
    pub v: V,
    pub kids: Vec<INode>,
}
impl Peek for INode {
    fn pid(&self) -> u32 {
        self.v.id
    }
    fn pmark(&self) -> u32 {
        self.v.mark
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        self.kids.iter().map(|k| Some(k as &dyn Peek)).collect()
    }
}
impl OwnedTreeNode for INode {
    type OwnedValue = V;
    type OwnedChildren = std::vec::IntoIter<INode>;
    fn get_value_and_children(self) -> (V, std::vec::IntoIter<INode>) {
        work(1);
        (self.v, self.kids.into_iter())
    }
}
impl<'a> MutBorrowedTreeNode<'a> for INode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = std::slice::IterMut<'a, INode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, std::slice::IterMut<'a, INode>) {
        work(1);
        (&mut self.v, self.kids.iter_mut())
    }
}
impl<'a> BorrowedTreeNode<'a> for INode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = std::slice::Iter<'a, INode>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, std::slice::Iter<'a, INode>) {
        work(1);
        (&self.v, self.kids.iter())
    }
}
impl TN for INode {
    const NAME: &'static str = "SliceIterNode";
    fn build(m: &M) -> Self {
        INode { v: V::new(m.id), kids: m.present().map(Self::build).collect() }
    }
}

/// Third-party node whose children are handed out by forward-only iterators that know nothing
/// about their length.
pub struct WNode {
    pub v: V,
    pub kids: Vec<WNode>,
}
pub struct Blind<I>(pub I);
impl<I: Iterator> Iterator for Blind<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
impl<I: std::iter::FusedIterator> std::iter::FusedIterator for Blind<I> {}
macro_rules! blind_kids {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> KidIds for Blind<$t> {
            fn with_kids(&self, f: &mut dyn FnMut(Option<&dyn Peek>)) { for k in self.0.as_slice() { f(Some(k as &dyn Peek)) } }
        }
    )*};
}
blind_kids!([N: Peek] std::vec::IntoIter<N>, ['a, N: Peek] std::slice::Iter<'a, N>, ['a, N: Peek] std::slice::IterMut<'a, N>);
impl Peek for WNode {
    fn pid(&self) -> u32 {
        self.v.id
    }
    fn pmark(&self) -> u32 {
        self.v.mark
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        self.kids.iter().map(|k| Some(k as &dyn Peek)).collect()
    }
}
impl OwnedTreeNode for WNode {
    type OwnedValue = V;
    type OwnedChildren = Blind<std::vec::IntoIter<WNode>>;
    fn get_value_and_children(self) -> (V, Self::OwnedChildren) {
        work(1);
        (self.v, Blind(self.kids.into_iter()))
    }
}
impl<'a> MutBorrowedTreeNode<'a> for WNode {
    type MutBorrowedValue = &'a mut V;
    type MutBorrowedChildren = Blind<std::slice::IterMut<'a, WNode>>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, Self::MutBorrowedChildren) {
        work(1);
        (&mut self.v, Blind(self.kids.iter_mut()))
    }
}
impl<'a> BorrowedTreeNode<'a> for WNode {
    type BorrowedValue = &'a V;
    type BorrowedChildren = Blind<std::slice::Iter<'a, WNode>>;
    fn get_value_and_children_iter(&'a self) -> (&'a V, Self::BorrowedChildren) {
        work(1);
        (&self.v, Blind(self.kids.iter()))
    }
}
impl TN for WNode {
    const NAME: &'static str = "ForwardIterNode";
    fn build(m: &M) -> Self {
        WNode { v: V::new(m.id), kids: m.present().map(Self::build).collect() }
    }
}

/// Third-party binary node.
pub struct CNode {
    pub v: V,
    pub kids: [Option<Box<CNode>>; 2],
}
impl Peek for CNode {
    fn pid(&self) -> u32 {
        self.v.id
    }
    fn pmark(&self) -> u32 {
        self.v.mark
    }
    fn pkids(&self) -> Vec<Option<&dyn Peek>> {
        self.kids.iter().map(|k| k.as_ref().map(|k| &**k as &dyn Peek)).collect()
    }
}
impl OwnedBinaryTreeNode for CNode {
    type OwnedValue = V;
    fn get_value_and_children_binary(self) -> (V, [Option<Self>; 2]) {
        work(1);
        (self.v, self.kids.map(|k| k.map(|k| *k)))
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for CNode {
    type MutBorrowedValue = &'a mut V;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut V, [Option<&'a mut Self>; 2]) {
        work(1);
        (&mut self.v, self.kids.each_mut().map(|k| k.as_deref_mut()))
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for CNode {
    type BorrowedValue = &'a V;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a V, [Option<&'a Self>; 2]) {
        work(1);
        (&self.v, self.kids.each_ref().map(|k| k.as_deref()))
    }
}
impl BN for CNode {
    const NAME: &'static str = "BoxArrayNode";
    fn build(m: &M) -> Self {
        let kids = [0, 1].map(|i| m.kids[i].as_ref().map(|k| Box::new(Self::build(k))));
        CNode { v: V::new(m.id), kids }
    }
}

/// Nodes that count how often each of them is asked for its value and children.
pub mod counted {
    use super::*;
    use std::cell::RefCell;
    thread_local! { static C: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }
    pub fn reset(n: usize) {
        C.with(|c| {
            let mut c = c.borrow_mut();
            c.clear();
            c.resize(n, 0)
        })
    }
    pub fn counts() -> Vec<u32> {
        C.with(|c| c.borrow().clone())
    }
    fn hit(id: u32) {
        work(1);
        C.with(|c| {
            if let Some(x) = c.borrow_mut().get_mut(id as usize) {
                *x += 1
            }
        })
    }
    pub struct KNode {
        pub v: V,
        pub kids: Vec<KNode>,
    }
    impl Peek for KNode {
        fn pid(&self) -> u32 {
            self.v.id
        }
        fn pmark(&self) -> u32 {
            self.v.mark
        }
        fn pkids(&self) -> Vec<Option<&dyn Peek>> {
            self.kids.iter().map(|k| Some(k as &dyn Peek)).collect()
        }
    }
    impl OwnedTreeNode for KNode {
        type OwnedValue = V;
        type OwnedChildren = Vec<KNode>;
        fn get_value_and_children(self) -> (V, Vec<KNode>) {
            hit(self.v.id);
            (self.v, self.kids)
        }
    }
    impl<'a> MutBorrowedTreeNode<'a> for KNode {
        type MutBorrowedValue = &'a mut V;
        type MutBorrowedChildren = &'a mut Vec<KNode>;
        fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut V, &'a mut Vec<KNode>) {
            hit(self.v.id);
            (&mut self.v, &mut self.kids)
        }
    }
    impl<'a> BorrowedTreeNode<'a> for KNode {
        type BorrowedValue = &'a V;
        type BorrowedChildren = &'a Vec<KNode>;
        fn get_value_and_children_iter(&'a self) -> (&'a V, &'a Vec<KNode>) {
            hit(self.v.id);
            (&self.v, &self.kids)
        }
    }
    impl TN for KNode {
        const NAME: &'static str = "CountingNode";
        fn build(m: &M) -> Self {
            KNode { v: V::new(m.id), kids: m.present().map(Self::build).collect() }
        }
    }
    pub struct QNode {
        pub v: V,
        pub kids: [Option<Box<QNode>>; 2],
    }
    impl Peek for QNode {
        fn pid(&self) -> u32 {
            self.v.id
        }
        fn pmark(&self) -> u32 {
            self.v.mark
        }
        fn pkids(&self) -> Vec<Option<&dyn Peek>> {
            self.kids.iter().map(|k| k.as_ref().map(|k| &**k as &dyn Peek)).collect()
        }
    }
    impl OwnedBinaryTreeNode for QNode {
        type OwnedValue = V;
        fn get_value_and_children_binary(self) -> (V, [Option<Self>; 2]) {
            hit(self.v.id);
            (self.v, self.kids.map(|k| k.map(|k| *k)))
        }
    }
    impl<'a> MutBorrowedBinaryTreeNode<'a> for QNode {
        type MutBorrowedValue = &'a mut V;
        fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut V, [Option<&'a mut Self>; 2]) {
            hit(self.v.id);
            (&mut self.v, self.kids.each_mut().map(|k| k.as_deref_mut()))
        }
    }
    impl<'a> BorrowedBinaryTreeNode<'a> for QNode {
        type BorrowedValue = &'a V;
        fn get_value_and_children_binary_iter(&'a self) -> (&'a V, [Option<&'a Self>; 2]) {
            hit(self.v.id);
            (&self.v, self.kids.each_ref().map(|k| k.as_deref()))
        }
    }
    impl BN for QNode {
        const NAME: &'static str = "CountingBinaryNode";
        fn build(m: &M) -> Self {
            let kids = [0, 1].map(|i| m.kids[i].as_ref().map(|k| Box::new(Self::build(k))));
            QNode { v: V::new(m.id), kids }
        }
    }
}
pub fn id_of<T: HasId>(t: &T) -> u32 {
    t.id()
}

//! Dispatch macros: one body, every (ownership x order) entry point of a node type.
use crate::model::*;
use crate::val::{HasId, MutId};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::TreeContext;

macro_rules! t_own {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::OwnedTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder(); let r = $b; r }
            _ => { let mut $it = $n.dfs_postorder(); let r = $b; r }
        }
    }};
}
macro_rules! t_ref {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::BorrowedTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs_iter(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder_iter(); let r = $b; r }
            _ => { let mut $it = $n.dfs_postorder_iter(); let r = $b; r }
        }
    }};
}
macro_rules! t_mut {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::MutBorrowedTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs_iter_mut(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder_iter_mut(); let r = $b; r }
            _ => { let mut $it = $n.dfs_postorder_iter_mut(); let r = $b; r }
        }
    }};
}
macro_rules! b_own {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::OwnedBinaryTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder(); let r = $b; r }
            Ord::In => { let mut $it = $n.dfs_inorder(); let r = $b; r }
            Ord::Post => { let mut $it = $n.dfs_postorder(); let r = $b; r }
        }
    }};
}
macro_rules! b_ref {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::BorrowedBinaryTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs_iter(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder_iter(); let r = $b; r }
            Ord::In => { let mut $it = $n.dfs_inorder_iter(); let r = $b; r }
            Ord::Post => { let mut $it = $n.dfs_postorder_iter(); let r = $b; r }
        }
    }};
}
macro_rules! b_mut {
    ($n:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::MutBorrowedBinaryTreeNode as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $n.bfs_iter_mut(); let r = $b; r }
            Ord::Pre => { let mut $it = $n.dfs_preorder_iter_mut(); let r = $b; r }
            Ord::In => { let mut $it = $n.dfs_inorder_iter_mut(); let r = $b; r }
            Ord::Post => { let mut $it = $n.dfs_postorder_iter_mut(); let r = $b; r }
        }
    }};
}
/// Build the node from the model and run the body on the iterator of the given ownership/order.
macro_rules! t_any {
    ($N:ident, $m:expr, $own:expr, $ord:expr, |$it:ident| $b:expr) => {{
        #[allow(unused_mut)]
        let mut n = <$N as $crate::nodes::TN>::build($m);
        match $own {
            Own::O => $crate::drive::t_own!(n, $ord, |$it| $b),
            Own::R => $crate::drive::t_ref!(n, $ord, |$it| $b),
            Own::W => $crate::drive::t_mut!(n, $ord, |$it| $b),
        }
    }};
}
macro_rules! b_any {
    ($N:ident, $m:expr, $own:expr, $ord:expr, |$it:ident| $b:expr) => {{
        #[allow(unused_mut)]
        let mut n = <$N as $crate::nodes::BN>::build($m);
        match $own {
            Own::O => $crate::drive::b_own!(n, $ord, |$it| $b),
            Own::R => $crate::drive::b_ref!(n, $ord, |$it| $b),
            Own::W => $crate::drive::b_mut!(n, $ord, |$it| $b),
        }
    }};
}
/// Collection (`*_each`) versions; `$coll` is the collection expression of the right ownership.
macro_rules! tc_own {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::OwnedIntoIteratorOfTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each(); let r = $b; r }
            _ => { let mut $it = $c.dfs_postorder_each(); let r = $b; r }
        }
    }};
}
macro_rules! tc_ref {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::BorrowedIntoIteratorOfTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each_iter(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each_iter(); let r = $b; r }
            _ => { let mut $it = $c.dfs_postorder_each_iter(); let r = $b; r }
        }
    }};
}
macro_rules! tc_mut {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::MutBorrowedIntoIteratorOfTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each_iter_mut(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each_iter_mut(); let r = $b; r }
            _ => { let mut $it = $c.dfs_postorder_each_iter_mut(); let r = $b; r }
        }
    }};
}
macro_rules! bc_own {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::OwnedIntoIteratorOfBinaryTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each(); let r = $b; r }
            Ord::In => { let mut $it = $c.dfs_inorder_each(); let r = $b; r }
            Ord::Post => { let mut $it = $c.dfs_postorder_each(); let r = $b; r }
        }
    }};
}
macro_rules! bc_ref {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::BorrowedIntoIteratorOfBinaryTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each_iter(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each_iter(); let r = $b; r }
            Ord::In => { let mut $it = $c.dfs_inorder_each_iter(); let r = $b; r }
            Ord::Post => { let mut $it = $c.dfs_postorder_each_iter(); let r = $b; r }
        }
    }};
}
macro_rules! bc_mut {
    ($c:expr, $ord:expr, |$it:ident| $b:expr) => {{
        use tree_iterators_rs::prelude::MutBorrowedIntoIteratorOfBinaryTrees as _;
        #[allow(unused_mut)]
        match $ord {
            Ord::Bfs => { let mut $it = $c.bfs_each_iter_mut(); let r = $b; r }
            Ord::Pre => { let mut $it = $c.dfs_preorder_each_iter_mut(); let r = $b; r }
            Ord::In => { let mut $it = $c.dfs_inorder_each_iter_mut(); let r = $b; r }
            Ord::Post => { let mut $it = $c.dfs_postorder_each_iter_mut(); let r = $b; r }
        }
    }};
}
pub(crate) use {b_any, b_mut, b_own, b_ref, bc_mut, bc_own, bc_ref, t_any, t_mut, t_own, t_ref, tc_mut, tc_own, tc_ref};

pub type R<T = ()> = Result<T, String>;

/// Collect ids, refusing to run away: at most `cap` items.
pub fn ids<I: Iterator>(it: I, cap: usize) -> R<Vec<u32>>
where
    I::Item: HasId,
{
    let mut out = vec![];
    for x in it {
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        out.push(x.id());
    }
    Ok(out)
}
/// Call `next()` exactly `k` times (stopping at the first None).
pub fn take_ids<I: Iterator>(it: &mut I, k: usize) -> Vec<u32>
where
    I::Item: HasId,
{
    let mut out = vec![];
    for _ in 0..k {
        match it.next() {
            Some(x) => out.push(x.id()),
            None => break,
        }
    }
    out
}
pub fn stack_ids<S, X: HasId>(it: &mut S) -> Option<Vec<u32>>
where
    S: StreamingIterator<Item = [X]> + ?Sized,
{
    it.next().map(|s| s.iter().map(|x| x.id()).collect())
}
pub fn stacks<S, X: HasId>(it: &mut S, cap: usize) -> R<Vec<Vec<u32>>>
where
    S: StreamingIterator<Item = [X]> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let a: Option<Vec<u32>> = it.get().map(|s| s.iter().map(|x| x.id()).collect());
        let Some(a) = a else { return Ok(out) };
        let again: Option<Vec<u32>> = it.get().map(|s| s.iter().map(|x| x.id()).collect());
        if again.as_ref() != Some(&a) {
            return Err(format!("get() is not stable: {:?} then {:?}", a, again));
        }
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        out.push(a);
    }
}
/// Advance `k` times, collecting what is visible, stopping at the first None.
pub fn take_stacks<S, X: HasId>(it: &mut S, k: usize) -> Vec<Vec<u32>>
where
    S: StreamingIterator<Item = [X]> + ?Sized,
{
    let mut out = vec![];
    for _ in 0..k {
        match stack_ids(it) {
            Some(x) => out.push(x),
            None => break,
        }
    }
    out
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Row {
    pub path: Vec<usize>,
    pub anc: Vec<u32>,
    /// Everything below the node, flattened (`nodes::flat`).
    pub kids: Option<Vec<u32>>,
}
pub fn row<X: HasId, C: crate::nodes::KidIds>(c: &TreeContext<X, C>, with_kids: bool) -> R<Row> {
    let r = Row {
        path: c.path().to_vec(),
        anc: c.ancestors().iter().map(|x| x.id()).collect(),
        kids: if with_kids { Some(c.children().kid_flat()) } else { None },
    };
    if c.depth() + 1 != r.anc.len() {
        return Err(format!("depth() = {} but ancestors() = {:?}", c.depth(), r.anc));
    }
    Ok(r)
}
pub fn rows<S, X: HasId, C: crate::nodes::KidIds>(it: &mut S, cap: usize, with_kids: bool) -> R<Vec<Row>>
where
    S: StreamingIterator<Item = TreeContext<X, C>> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let Some(c) = it.get() else { return Ok(out) };
        let r = row(c, with_kids)?;
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        out.push(r);
    }
}
pub fn take_rows<S, X: HasId, C>(it: &mut S, k: usize) -> usize
where
    S: StreamingIterator<Item = TreeContext<X, C>> + ?Sized,
{
    let mut n = 0;
    for _ in 0..k {
        match it.next() {
            Some(c) => {
                let _ = c.ancestors().last().map(|x| x.id());
                n += 1;
            }
            None => break,
        }
    }
    n
}
/// Walk a streaming ancestor iterator mutably, adding 1 to the mark of every ancestor seen.
pub fn bump_stacks<S, X: MutId>(it: &mut S, cap: usize) -> R<Vec<Vec<(u32, u32)>>>
where
    S: StreamingIteratorMut<Item = [X]> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let Some(s) = it.get_mut() else { return Ok(out) };
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        for x in s.iter_mut() {
            let m = x.mark();
            x.set(m + 1);
        }
        out.push(s.iter().map(|x| (x.id(), x.mark())).collect());
    }
}
pub fn bump_rows<S, X: MutId, C>(it: &mut S, cap: usize) -> R<Vec<Vec<(u32, u32)>>>
where
    S: StreamingIteratorMut<Item = TreeContext<X, C>> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let Some(s) = it.get_mut() else { return Ok(out) };
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        for x in s.ancestors_mut().iter_mut() {
            let m = x.mark();
            x.set(m + 1);
        }
        out.push(s.ancestors().iter().map(|x| (x.id(), x.mark())).collect());
    }
}

/// At every node: write to all ancestors, then to everything below through `children_mut()`.
pub fn bump_around<S, X: MutId, C: crate::nodes::BumpKids>(it: &mut S, cap: usize) -> R<Vec<Vec<(u32, u32)>>>
where
    S: StreamingIteratorMut<Item = TreeContext<X, C>> + ?Sized,
{
    let mut out = vec![];
    loop {
        it.advance();
        let Some(s) = it.get_mut() else { return Ok(out) };
        if out.len() >= cap {
            return Err(format!("yields more than {} elements", cap));
        }
        for x in s.ancestors_mut().iter_mut() {
            let m = x.mark();
            x.set(m + 1);
        }
        let mut row: Vec<_> = s.ancestors().iter().map(|x| (x.id(), x.mark())).collect();
        s.children_mut().bump_kids(&mut row);
        out.push(row);
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}
pub fn ctx(e: R<()>, f: impl FnOnce() -> String) -> R {
    e.map_err(|e| format!("{}: {}", f(), e))
}

/// An iterator whose provided methods stay reachable behind a pointer (the judging code below is
/// compiled once, not once per iterator type). Items are reduced to `T` on the way out.
pub trait AnyIt<T> {
    fn next(&mut self) -> Option<T>;
    fn nth(&mut self, n: usize) -> Option<T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<T>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(T));
    fn for_each(&mut self, f: &mut dyn FnMut(T));
    fn position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize>;
    fn find(&mut self, f: &dyn Fn(&T) -> bool) -> Option<T>;
}
struct KeyIt<I, K>(I, K);
impl<I: Iterator, T, K: Fn(I::Item) -> T> AnyIt<T> for KeyIt<I, K> {
    fn next(&mut self) -> Option<T> {
        self.0.next().map(&self.1)
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        self.0.nth(n).map(&self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<T> {
        self.0.last().map(&self.1)
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(T)) {
        let KeyIt(i, k) = *self;
        i.fold((), |_, x| f(k(x)))
    }
    fn for_each(&mut self, f: &mut dyn FnMut(T)) {
        let k = &self.1;
        self.0.by_ref().for_each(|x| f(k(x)))
    }
    fn position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize> {
        let k = &self.1;
        self.0.position(|x| f(k(x)))
    }
    fn find(&mut self, f: &dyn Fn(&T) -> bool) -> Option<T> {
        let k = &self.1;
        // `find` itself hands out references to items that cannot be looked at without taking them.
        self.0.find_map(|x| Some(k(x)).filter(|x| f(x)))
    }
}
/// How many ways of driving an iterator `consume` knows.
pub const WAYS: u64 = 10;
/// Drive an iterator in one of the ways the `Iterator` trait offers (a type may override each of
/// them) and compare with the expected sequence.
pub fn consume<'a, I: Iterator + 'a, T: PartialEq + std::fmt::Debug>(it: I, key: impl Fn(I::Item) -> T + 'a, want: &[T], way: u64, k: usize) -> R {
    consume_any(Box::new(KeyIt(it, key)), want, way, k)
}
fn consume_any<'a, T: PartialEq + std::fmt::Debug>(mut it: Box<dyn AnyIt<T> + 'a>, want: &[T], way: u64, k: usize) -> R {
    let n = want.len();
    let k = k % (n + 1);
    let bounds = |it: &dyn AnyIt<T>, left: usize| -> R {
        let (lo, hi) = it.hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size_hint {:?} with {} elements left", (lo, hi), left));
        }
        Ok(())
    };
    let one = |what: &str, i: usize, got: Option<T>| -> R {
        if got.as_ref() != want.get(i) {
            return Err(format!("{} {} gives {:?}, expected {:?}", what, i + 1, got, want.get(i)));
        }
        Ok(())
    };
    if way == 0 {
        for i in 0..n {
            bounds(&*it, n - i)?;
            one("next() number", i, it.next())?;
        }
        bounds(&*it, 0)?;
        for _ in 0..3 {
            one("next() past the end, number", n, it.next())?;
        }
        return Ok(());
    }
    if way == 1 || way == 2 {
        // nth(1) / nth(2) repeatedly
        let step = way as usize;
        let mut i = 0;
        loop {
            one("nth() skipping to number", i + step, it.nth(step))?;
            i += step + 1;
            if i > n {
                return Ok(());
            }
            bounds(&*it, n - i)?;
        }
    }
    for i in 0..k {
        one("next() number", i, it.next())?;
    }
    bounds(&*it, n - k)?;
    let at = |what: &str| format!("{} after {} next() calls", what, k);
    // An endless iterator must not hang the harness.
    let cap = n + 2;
    let mut got = vec![];
    match way {
        3 | 7 => eq(&at("count()"), &it.count(), &(n - k)),
        4 => eq(&at("last()"), &it.last().as_ref(), &want[k..].last()),
        5 => {
            it.fold(&mut |x| {
                assert!(got.len() <= cap, "fold() goes on past {} elements", n);
                got.push(x)
            });
            eq(&at("fold()"), &got.as_slice(), &&want[k..])
        }
        8 => {
            // One of the elements left, or none of them.
            let j = k + k * 7 % (n - k + 1);
            let mut i = k;
            let p = it.position(&mut |x| {
                assert!(i <= n, "position() goes on past {} elements", n);
                let ok = want.get(i) == Some(&x);
                i += 1;
                !ok || i == j + 1
            });
            eq(&at("position()"), &p, &(j < n).then(|| j - k))?;
            for i in (j + 1).min(n)..n + 1 {
                one("next() after position(), number", i, it.next())?;
            }
            Ok(())
        }
        9 => {
            let j = k + k * 7 % (n - k + 1);
            let f = it.find(&|x| want.get(j) == Some(x));
            eq(&at("find_map()"), &f.as_ref(), &want.get(j))?;
            for i in (j + 1).min(n)..n + 1 {
                one("next() after find_map(), number", i, it.next())?;
            }
            Ok(())
        }
        _ => {
            it.for_each(&mut |x| {
                assert!(got.len() <= cap, "for_each() goes on past {} elements", n);
                got.push(x)
            });
            eq(&at("for_each()"), &got.as_slice(), &&want[k..])?;
            one("next() past the end, number", n, it.next())
        }
    }
}
/// The ways tried on a case: all of them on small ones, else two that rotate.
pub fn ways(all: bool, h: u64) -> Vec<u64> {
    if crate::props::lite() {
        vec![h % WAYS]
    } else if all {
        (0..WAYS).collect()
    } else {
        vec![h % WAYS, (h >> 16) % WAYS]
    }
}
pub fn stream_ways(all: bool, h: u64) -> Vec<u64> {
    if crate::props::lite() {
        vec![h % STREAM_WAYS]
    } else if all {
        (0..STREAM_WAYS).collect()
    } else {
        vec![0, 1 + h % (STREAM_WAYS - 1)]
    }
}
pub const STREAM_WAYS: u64 = 8;
pub trait AnyStream<T> {
    fn advance(&mut self);
    fn get(&self) -> Option<T>;
    fn next(&mut self) -> Option<T>;
    fn is_done(&self) -> bool;
    fn nth(&mut self, n: usize) -> Option<T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(T));
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(T));
    fn position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize>;
}
struct LookStream<S, K>(S, K);
impl<S: StreamingIterator, T, K: Fn(&S::Item) -> T> AnyStream<T> for LookStream<S, K> {
    fn advance(&mut self) {
        self.0.advance()
    }
    fn get(&self) -> Option<T> {
        self.0.get().map(&self.1)
    }
    fn next(&mut self) -> Option<T> {
        self.0.next().map(&self.1)
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        self.0.nth(n).map(&self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(T)) {
        let LookStream(s, k) = *self;
        s.fold((), |_, x| f(k(x)))
    }
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(T)) {
        let LookStream(s, k) = *self;
        s.for_each(|x| f(k(x)))
    }
    fn position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize> {
        let k = &self.1;
        self.0.position(|x| f(k(x)))
    }
}
/// The same for streaming iterators; `look` copies what an item shows.
pub fn consume_stream<'a, S: StreamingIterator + 'a, T: PartialEq + std::fmt::Debug>(it: S, look: impl Fn(&S::Item) -> T + 'a, want: &[T], way: u64, k: usize) -> R {
    consume_any_stream(Box::new(LookStream(it, look)), want, way, k)
}
fn consume_any_stream<'a, T: PartialEq + std::fmt::Debug>(mut it: Box<dyn AnyStream<T> + 'a>, want: &[T], way: u64, k: usize) -> R {
    let n = want.len();
    let k = k % (n + 1);
    let bounds = |it: &dyn AnyStream<T>, left: usize| -> R {
        let (lo, hi) = it.hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size_hint {:?} with {} elements left", (lo, hi), left));
        }
        Ok(())
    };
    let one = |what: &str, i: usize, got: Option<T>| -> R {
        if got.as_ref() != want.get(i) {
            return Err(format!("{} {} gives {:?}, expected {:?}", what, i + 1, got, want.get(i)));
        }
        Ok(())
    };
    if way == 0 {
        for i in 0..n {
            bounds(&*it, n - i)?;
            it.advance();
            one("get() after advance() number", i, it.get())?;
            if it.is_done() {
                return Err(format!("is_done() after {} of {} advances", i + 1, n));
            }
            one("get() again after advance() number", i, it.get())?;
        }
        bounds(&*it, 0)?;
        it.advance();
        if !it.is_done() {
            return Err("is_done() is false after the end".into());
        }
        return one("get() past the end, number", n, it.get());
    }
    if way == 1 || way == 2 {
        let step = way as usize;
        let mut i = 0;
        while i + step < n {
            one("nth() skipping to number", i + step, it.nth(step))?;
            i += step + 1;
        }
        return if i < n { one("nth() past the end, number", n, it.nth(step)) } else { Ok(()) };
    }
    for i in 0..k {
        one("next() number", i, it.next())?;
    }
    bounds(&*it, n - k)?;
    let at = |what: &str| format!("{} after {} next() calls", what, k);
    let cap = n + 2;
    match way {
        3 => eq(&at("count()"), &it.count(), &(n - k)),
        4 => {
            let mut got = vec![];
            it.for_each(&mut |x| {
                assert!(got.len() <= cap, "for_each() goes on past {} elements", n);
                got.push(x)
            });
            eq(&at("for_each()"), &got.as_slice(), &&want[k..])
        }
        5 => {
            let mut got = vec![];
            it.fold(&mut |x| {
                assert!(got.len() <= cap, "fold() goes on past {} elements", n);
                got.push(x)
            });
            eq(&at("fold()"), &got.as_slice(), &&want[k..])
        }
        6 => {
            let j = k + k * 7 % (n - k + 1);
            let mut i = k;
            let p = it.position(&mut |x| {
                assert!(i <= n, "position() goes on past {} elements", n);
                let ok = want.get(i) == Some(&x);
                i += 1;
                !ok || i == j + 1
            });
            eq(&at("position()"), &p, &(j < n).then(|| j - k))?;
            if j >= n { return Ok(()) }
            one("get() after position(), number", j, it.get())?;
            if j + 1 < n { one("next() after position(), number", j + 1, it.next()) } else { Ok(()) }
        }
        _ => {
            if k < n {
                one("nth(0) number", k, it.nth(0))?;
            }
            if k + 1 < n {
                it.advance();
                it.get();
                one("get() number", k + 1, it.get())?;
            }
            Ok(())
        }
    }
}

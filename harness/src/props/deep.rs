//! C20: operations on very deep trees inside a small call stack.
use super::*;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

/// Arena description of a deep tree: children lists with optional slots; node 0 is the root.
#[derive(Clone)]
struct Arena {
    kids: Vec<Vec<Option<usize>>>,
}
impl Arena {
    /// A spine of `len` nodes; at each spine node the spine goes on at a pseudo-random position
    /// among copies of the decoration's root children.
    fn new(bin: bool, deco: &M, len: usize, seed: u64, style: usize) -> Arena {
        let mut kids: Vec<Vec<Option<usize>>> = vec![];
        fn copy(m: &M, kids: &mut Vec<Vec<Option<usize>>>) -> usize {
            let id = kids.len();
            kids.push(vec![]);
            let ks = m.kids.iter().map(|k| k.as_ref().map(|k| copy(k, kids))).collect();
            kids[id] = ks;
            id
        }
        kids.push(vec![]);
        let mut at = 0;
        for i in 0..len {
            let x = mix(seed, i as u64);
            let decorate = match style % 4 {
                0 => false,
                1 => i % 2 == 0,
                2 => i > len - len / 8,
                _ => x % 5 == 0,
            };
            let right = match style / 4 % 4 {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                _ => x >> 8 & 1 == 0,
            };
            let spine = kids.len();
            kids.push(vec![]);
            let side: Option<usize> = decorate.then(|| copy(deco, &mut kids));
            kids[at] = match (bin, right) {
                (true, true) => vec![side, Some(spine)],
                (true, false) => vec![Some(spine), side],
                (false, true) => side.into_iter().chain([spine]).map(Some).collect(),
                (false, false) => [spine].into_iter().chain(side).map(Some).collect(),
            };
            at = spine;
        }
        for k in &mut kids {
            if bin && k.is_empty() {
                *k = vec![None, None];
            }
        }
        Arena { kids }
    }
    /// A stem of `stem` nodes that forks into `arms` arms of about `len` nodes each.
    fn fork(bin: bool, stem: usize, arms: usize, len: usize, seed: u64) -> Arena {
        let mut kids: Vec<Vec<Option<usize>>> = vec![if bin { vec![None, None] } else { vec![] }];
        let mut push = |kids: &mut Vec<Vec<Option<usize>>>, at: usize| {
            let id = kids.len();
            kids.push(if bin { vec![None, None] } else { vec![] });
            if bin {
                let side = mix(seed, id as u64) as usize & 1;
                let side = if kids[at][side].is_some() { 1 - side } else { side };
                kids[at][side] = Some(id);
            } else {
                kids[at].push(Some(id));
            }
            id
        };
        let mut at = 0;
        for _ in 0..stem { at = push(&mut kids, at); }
        for a in 0..arms.min(if bin { 2 } else { arms }) {
            let mut x = at;
            for _ in 0..len - mix(seed, 1000 + a as u64) as usize % (1 + len / 8) { x = push(&mut kids, x); }
        }
        Arena { kids }
    }
    /// A stem of a few nodes, then `width` children on one node.
    fn star(bin: bool, width: usize, seed: u64) -> Arena {
        if bin { return Arena { kids: vec![vec![None, None]] } }
        let mut kids: Vec<Vec<Option<usize>>> = vec![];
        for i in 0..seed as usize % 3 { kids.push(vec![Some(i + 1)]); }
        let at = kids.len();
        kids.push((0..width).map(|i| Some(at + 1 + i)).collect());
        kids.extend((0..width).map(|_| vec![]));
        Arena { kids }
    }
    fn present(&self, i: usize) -> impl DoubleEndedIterator<Item = usize> + '_ {
        self.kids[i].iter().filter_map(|k| *k)
    }
    fn depths(&self) -> Vec<u32> {
        let mut d = vec![0; self.kids.len()];
        let mut st = vec![0];
        while let Some(i) = st.pop() {
            for k in self.present(i) {
                d[k] = d[i] + 1;
                st.push(k);
            }
        }
        d
    }
    fn order(&self, o: Ord) -> Vec<u32> {
        let mut out = vec![];
        if o == Ord::Bfs {
            let mut q = std::collections::VecDeque::from([0]);
            while let Some(i) = q.pop_front() {
                out.push(i as u32);
                q.extend(self.present(i));
            }
            return out;
        }
        let mut st = vec![(0usize, false)];
        while let Some((i, open)) = st.pop() {
            if open {
                out.push(i as u32);
                continue;
            }
            match o {
                Ord::Pre => {
                    out.push(i as u32);
                    st.extend(self.present(i).rev().map(|k| (k, false)));
                }
                Ord::Post => {
                    st.push((i, true));
                    st.extend(self.present(i).rev().map(|k| (k, false)));
                }
                _ => {
                    st.extend(self.kids[i][1].map(|k| (k, false)));
                    st.push((i, true));
                    st.extend(self.kids[i][0].map(|k| (k, false)));
                }
            }
        }
        out
    }
}

/// A node that tears itself down without recursion.
#[derive(Default)]
pub struct DT {
    v: u32,
    kids: Vec<DT>,
}
impl Drop for DT {
    fn drop(&mut self) {
        let mut st = std::mem::take(&mut self.kids);
        while let Some(mut x) = st.pop() {
            st.append(&mut x.kids);
        }
    }
}
#[derive(Default)]
pub struct DB {
    v: u32,
    kids: [Option<Box<DB>>; 2],
}
impl Drop for DB {
    fn drop(&mut self) {
        let mut st: Vec<Box<DB>> = std::mem::take(&mut self.kids).into_iter().flatten().collect();
        while let Some(mut x) = st.pop() {
            st.extend(std::mem::take(&mut x.kids).into_iter().flatten());
        }
    }
}
impl OwnedTreeNode for DT {
    type OwnedValue = u32;
    type OwnedChildren = Vec<DT>;
    fn get_value_and_children(mut self) -> (u32, Vec<DT>) {
        (self.v, std::mem::take(&mut self.kids))
    }
}
impl<'a> BorrowedTreeNode<'a> for DT {
    type BorrowedValue = &'a u32;
    type BorrowedChildren = &'a Vec<DT>;
    fn get_value_and_children_iter(&'a self) -> (&'a u32, &'a Vec<DT>) {
        (&self.v, &self.kids)
    }
}
impl<'a> MutBorrowedTreeNode<'a> for DT {
    type MutBorrowedValue = &'a mut u32;
    type MutBorrowedChildren = &'a mut Vec<DT>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut u32, &'a mut Vec<DT>) {
        (&mut self.v, &mut self.kids)
    }
}
impl OwnedBinaryTreeNode for DB {
    type OwnedValue = u32;
    fn get_value_and_children_binary(mut self) -> (u32, [Option<DB>; 2]) {
        (self.v, std::mem::take(&mut self.kids).map(|k| k.map(|k| *k)))
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for DB {
    type BorrowedValue = &'a u32;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a u32, [Option<&'a DB>; 2]) {
        (&self.v, self.kids.each_ref().map(|k| k.as_deref()))
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for DB {
    type MutBorrowedValue = &'a mut u32;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut u32, [Option<&'a mut DB>; 2]) {
        (&mut self.v, self.kids.each_mut().map(|k| k.as_deref_mut()))
    }
}
fn build_t(a: &Arena) -> DT {
    let mut done: Vec<Option<DT>> = a.kids.iter().map(|_| None).collect();
    for i in a.order(Ord::Post) {
        let i = i as usize;
        let kids = a.present(i).map(|k| done[k].take().unwrap()).collect();
        done[i] = Some(DT { v: i as u32, kids });
    }
    done[0].take().unwrap()
}
fn build_b(a: &Arena) -> DB {
    let mut done: Vec<Option<Box<DB>>> = a.kids.iter().map(|_| None).collect();
    for i in a.order(Ord::Post) {
        let i = i as usize;
        let kids = [0, 1].map(|s| a.kids[i][s].and_then(|k| done[k].take()));
        done[i] = Some(Box::new(DB { v: i as u32, kids }));
    }
    *done[0].take().unwrap()
}
/// Preorder values of a result tree, taking it apart iteratively.
fn unpick_t<X>(t: Tree<X>, f: impl Fn(&X) -> u32) -> Vec<u32> {
    let mut out = vec![];
    let mut st = vec![t];
    while let Some(t) = st.pop() {
        out.push(f(&t.value));
        st.extend(t.children.into_iter().rev());
    }
    out
}
fn unpick_b<X>(t: BinaryTree<X>, f: impl Fn(&X) -> u32) -> Vec<u32> {
    let mut out = vec![];
    let mut st = vec![t];
    while let Some(t) = st.pop() {
        out.push(f(&t.value));
        st.extend(t.right.map(|b| *b));
        st.extend(t.left.map(|b| *b));
    }
    out
}
const ENDLESS: usize = 1 << 20;
pub const SMALL_STACK: usize = 128 << 10;
/// For the quadratic operations, which see shorter paths.
pub const SMALLER_STACK: usize = 48 << 10;
/// Run on a fresh small stack; an overflow kills the process and the supervisor reports it.
fn small<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    on_stack(SMALL_STACK, f)
}
fn on_stack<T: Send + 'static>(size: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(size).spawn(f).unwrap().join() {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}
trait N32 {
    fn n(&self) -> u32;
}
impl N32 for u32 {
    fn n(&self) -> u32 {
        *self
    }
}
impl N32 for &u32 {
    fn n(&self) -> u32 {
        **self
    }
}
impl N32 for &mut u32 {
    fn n(&self) -> u32 {
        **self
    }
}
fn collect<I: Iterator>(it: I) -> Vec<u32>
where
    I::Item: N32,
{
    // (more than any tree here has: an iterator that never ends must not hang the harness)
    it.take(ENDLESS).map(|x| x.n()).collect()
}
fn streamed<S, X: N32>(mut s: S) -> (Vec<u32>, Vec<u32>)
where
    S: StreamingIterator<Item = [X]>,
{
    streamed_upto(&mut s, usize::MAX)
}
fn streamed_upto<S, X: N32>(s: &mut S, k: usize) -> (Vec<u32>, Vec<u32>)
where
    S: StreamingIterator<Item = [X]>,
{
    let (mut v, mut d) = (vec![], vec![]);
    while v.len() < k.min(ENDLESS) {
        let Some(a) = s.next() else { break };
        v.push(a[a.len() - 1].n());
        d.push(a.len() as u32 - 1);
    }
    (v, d)
}
fn contexts<S, X: N32, C>(mut s: S) -> (Vec<u32>, Vec<u32>)
where
    S: StreamingIterator<Item = TreeContext<X, C>>,
{
    contexts_upto(&mut s, usize::MAX)
}
fn contexts_upto<S, X: N32, C>(s: &mut S, k: usize) -> (Vec<u32>, Vec<u32>)
where
    S: StreamingIterator<Item = TreeContext<X, C>>,
{
    let (mut v, mut d) = (vec![], vec![]);
    while v.len() < k.min(ENDLESS) {
        let Some(c) = s.next() else { break };
        v.push(c.ancestors()[c.depth()].n());
        d.push(c.path().len() as u32);
    }
    (v, d)
}
macro_rules! go {
    ($o:ident, $r:ident, $w:ident, $t:ident, $own:ident, $ord:ident, |$it:ident| $x:expr) => {
        match $own {
            Own::O => $o!($t, $ord, |$it| $x),
            Own::R => $r!($t, $ord, |$it| $x),
            Own::W => $w!($t, $ord, |$it| $x),
        }
    };
}
const OPS: [&str; 9] = ["map", "map_path", "fold", "fold_path", "prune by depth predicate", "prune_depth", "pipeline collect", "at_path to the deepest node", "cloned()"];
macro_rules! three {
    ($t:ident, $own:ident, $a:ident, $b:ident, $c:ident, $x:expr) => { match $own { Own::O => $t.$a($x), Own::R => $t.$b($x), Own::W => $t.$c($x) } };
}
macro_rules! deep_ops {
    ($what:ident, $t:ident, $own:ident, $unpick:ident, $lim:ident, $b:ident) => {{
        match $what {
            0 => $unpick(three!($t, $own, map, map_ref, map_mut, |v| v.n()), |x| *x),
            1 => $unpick(three!($t, $own, map_path, map_path_ref, map_path_mut, |p, v| (p.len() as u32, v.n())), |x| x.1),
            2 => vec![three!($t, $own, fold, fold_ref, fold_mut, |k, _| 1 + Slots::<u32>::slots(k).into_iter().flatten().sum::<u32>())],
            3 => vec![three!($t, $own, fold_path, fold_path_ref, fold_path_mut, |k, _, _| 1 + Slots::<u32>::slots(k).into_iter().flatten().sum::<u32>())],
            4 => match $own {
                Own::O => $unpick($t.prune_path(|p, _| p.len() > $lim).unwrap(), |x| x.n()),
                Own::R => $unpick($t.prune_path_ref(|p, _| p.len() > $lim).unwrap(), |x| x.n()),
                Own::W => $unpick($t.prune_path_mut(|p, _| p.len() > $lim).unwrap(), |x| x.n()),
            },
            5 => match $own {
                Own::O => $unpick($t.prune_depth($lim), |x| x.n()),
                Own::R => $unpick($t.prune_depth_ref($lim), |x| x.n()),
                Own::W => $unpick($t.prune_depth_mut($lim), |x| x.n()),
            },
            6 => match $own {
                Own::O => $unpick($t.into_pipeline().map_tree(|v| v.n()).prune(|_| false).collect_tree().unwrap(), |x| *x),
                Own::R => $unpick($t.into_pipeline_ref().map_tree(|v| v.n()).prune(|_| false).collect_tree().unwrap(), |x| *x),
                Own::W => $unpick($t.into_pipeline_mut().map_tree(|v| v.n()).prune(|_| false).collect_tree().unwrap(), |x| *x),
            },
            8 => match $own {
                Own::W => {
                    let r = $t.map_mut(|v| v);
                    let c = r.cloned();
                    $unpick(r, |x| x.n());
                    $unpick(c, |x| *x)
                }
                _ => {
                    let r = $t.map_ref(|v| v);
                    let c = r.cloned();
                    $unpick(r, |x| x.n());
                    $unpick(c, |x| *x)
                }
            },
            _ => {
                let depths = $b.depths();
                let deepest = (0..depths.len()).max_by_key(|i| depths[*i]).unwrap();
                let mut parent = vec![None; depths.len()];
                for i in 0..depths.len() {
                    for (s, k) in $b.kids[i].iter().enumerate() {
                        if let Some(k) = k { parent[*k] = Some((i, s)); }
                    }
                }
                let mut path = vec![];
                let mut at = deepest;
                while let Some((p, s)) = parent[at] { path.push(s); at = p; }
                path.reverse();
                let v = match $own {
                    Own::O => $t.at_path(&path).map(|x| x.v),
                    Own::R => $t.at_path_ref(&path).map(|x| x.v),
                    Own::W => $t.at_path_mut(&path).map(|x| x.v),
                };
                vec![(v == Some(deepest as u32)) as u32]
            }
        }
    }};
}
macro_rules! deep {
    ($fn:ident, $N:ident, $build:ident, $unpick:ident, $ords:expr, $bin:expr, $own:ident, $rf:ident, $mt:ident) => {
        fn $fn(c: &Case, o: &mut Obs) -> R {
            use crate::drive::{$mt, $own, $rf};
            let full = Arena::new($bin, &c.forest[0], 3000 + c.num(0) % 3000, c.num(1) as u64, c.num(2));
            // Breadth-first metadata is iterative deepening: quadratic, so a shorter spine.
            let short = Arena::new($bin, &M { id: 0, kids: if $bin { vec![None, None] } else { vec![] } }, 2400 + c.num(0) % 400, c.num(1) as u64, c.num(2));
            let fork = Arena::fork($bin, [0, 1, 600][c.num(3) % 3], 2 + c.num(4) % 2, if c.num(4) % 2 == 0 || $bin { 2100 } else { 1400 } - 100 * (c.num(0) % 4), c.num(1) as u64);
            for own in OWNS {
                for &ord in &$ords {
                    for what in 0..10u64 {
                        let quadratic = ord == Ord::Bfs && !matches!(what, 0 | 3 | 5);
                        let (a, stack) = match quadratic {
                            true if (c.num(3) as u64 + what / 2 + own as u64) % 2 == 0 => (&fork, SMALLER_STACK),
                            true => (&short, SMALLER_STACK),
                            _ => (&full, SMALL_STACK),
                        };
                        let all = a.order(ord);
                        let depths = a.depths();
                        let leaf = |i: &u32| a.present(*i as usize).next().is_none();
                        let lo = a.order(if ord == Ord::Bfs { Ord::Bfs } else { Ord::Post });
                        let n = all.len();
                        let k = mix(c.num(5) as u64, what + 10 * own as u64) as usize % n;
                        let b = a.clone();
                        let (got, gd) = on_stack(stack, move || {
                            #[allow(unused_mut)]
                            let mut t = $build(&b);
                            match what {
                                0 => (go!($own, $rf, $mt, t, own, ord, |it| collect(it)), None),
                                1 => { let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| streamed(it.attach_ancestors())); (v, Some(d)) }
                                2 => { let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| contexts(it.attach_context())); (v, Some(d)) }
                                3 => (go!($own, $rf, $mt, t, own, ord, |it| { let mut v: Vec<u32> = it.by_ref().take(k).map(|x| x.n()).collect(); v.extend(collect(it.leaves())); v }), None),
                                4 => { let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| streamed(it.attach_ancestors().leaves())); (v, Some(d)) }
                                6 => { let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| streamed_upto(&mut it.attach_ancestors(), k)); (v, Some(d)) }
                                7 => { let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| contexts_upto(&mut it.attach_context(), k)); (v, Some(d)) }
                                8 | 9 => {
                                    let (v, d) = go!($own, $rf, $mt, t, own, ord, |it| {
                                        let mut s = it.attach_ancestors();
                                        let (mut v, mut d) = streamed_upto(&mut s, k);
                                        let mut l = s.leaves();
                                        let (v2, d2) = streamed_upto(&mut l, if what == 8 { usize::MAX } else { 1 });
                                        v.extend(v2);
                                        d.extend(d2);
                                        (v, d)
                                    });
                                    (v, Some(d))
                                }
                                // abandoned half way
                                _ => (go!($own, $rf, $mt, t, own, ord, |it| collect(it.by_ref().take(k))), None),
                            }
                        });
                        let leaves: Vec<u32> = lo.iter().copied().filter(leaf).collect();
                        let want: Vec<u32> = match what {
                            0 | 1 | 2 => all.clone(),
                            3 | 8 | 9 => {
                                let mut early = vec![false; n];
                                for i in &all[..k] { early[*i as usize] = true; }
                                all[..k].iter().copied().chain(leaves.into_iter().filter(|i| !early[*i as usize]).take(if what == 9 { 1 } else { n })).collect()
                            }
                            4 => leaves,
                            _ => all[..k].to_vec(),
                        };
                        o.eval(&[what, own as u64, ord as u64], true);
                        let at = || format!("deep tree of {} nodes, {:?} {:?} traversal {} (k = {})", n, own, ord, ["plain", "with ancestors", "with context", "leaves() midway", "ancestors leaves()", "abandoned", "with ancestors abandoned", "with context abandoned", "with ancestors, leaves() midway", "with ancestors, leaves() midway and abandoned"][what as usize], k);
                        if got != want {
                            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                            return Err(format!("{}: {} elements, expected {}; first difference at {}: {:?} / {:?}", at(), got.len(), want.len(), i, got.get(i), want.get(i)));
                        }
                        if let Some(gd) = gd {
                            if let Some(i) = (0..want.len()).find(|&i| gd[i] != depths[want[i] as usize]) {
                                return Err(format!("{}: element {} reported at depth {}, expected {}", at(), i, gd[i], depths[want[i] as usize]));
                            }
                        }
                    }
                }
                // whole-tree operations
                let n = full.kids.len();
                let pre = full.order(Ord::Pre);
                let depths = full.depths();
                let lim = c.num(6) % 3000;
                for what in 0..OPS.len() {
                    let b = full.clone();
                    let got: Vec<u32> = small(move || {
                        #[allow(unused_mut)]
                        let mut t = $build(&b);
                        deep_ops!(what, t, own, $unpick, lim, b)
                    });
                    let want: Vec<u32> = match what {
                        0 | 1 | 6 | 8 => pre.clone(),
                        2 | 3 => vec![n as u32],
                        7 => vec![1],
                        _ => pre.iter().copied().filter(|i| depths[*i as usize] as usize <= lim).collect(),
                    };
                    o.eval(&[10 + what as u64, own as u64], true);
                    if got != want {
                        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                        return Err(format!("spine tree of {} nodes, {:?} {}: {} results, expected {}; first difference at {}: {:?} / {:?}", n, own, OPS[what], got.len(), want.len(), i, got.get(i), want.get(i)));
                    }
                }
            }
            Ok(())
        }
    };
}
deep!(deep_t, DT, build_t, unpick_t, T_ORDS, false, t_own, t_ref, t_mut);
deep!(deep_b, DB, build_b, unpick_b, B_ORDS, true, b_own, b_ref, b_mut);

const C_OPS: [&str; 12] = ["bfs", "preorder", "inorder", "postorder", "bfs with context", "preorder with context", "postorder with context", "chain", "trees", "fold", "map_each", "fold_path_each"];
macro_rules! deep_coll {
    ($fn:ident, $N:ident, $build:ident, $unpick:ident, $bin:expr, $own:ident, $rf:ident, $mt:ident, $To:ident, $Tr:ident, $Tm:ident, $Ti:ident) => {
        /// Collections of deep trees, by value and by (mutable) reference.
        fn $fn(c: &Case, o: &mut Obs) -> R {
            use crate::drive::{$mt, $own, $rf};
            use tree_iterators_rs::prelude::{$Ti, $Tm, $To, $Tr};
            let leaf = M { id: 0, kids: if $bin { vec![None, None] } else { vec![] } };
            let s = c.num(1) as u64;
            let forest = [
                Arena::new($bin, &leaf, 1000 + c.num(0) % 400, s, c.num(2)),
                Arena::fork($bin, 0, 2, 900, s),
                Arena::new($bin, &leaf, 1, s, 0),
                Arena::new($bin, &leaf, 1200, mix(s, 1), c.num(3)),
            ];
            for own in OWNS {
                for what in 0..C_OPS.len() as u64 {
                    if what == 2 && !$bin { continue; }
                    let ord = [Ord::Bfs, Ord::Pre, if $bin { Ord::In } else { Ord::Pre }, Ord::Post, Ord::Bfs, Ord::Pre, Ord::Post][(what as usize).min(6)];
                    let ord = if what > 6 { Ord::Pre } else { ord };
                    let mut want = vec![];
                    for (i, a) in forest.iter().enumerate() {
                        if what == 9 || what == 11 { want.push((i, a.kids.len() as u32)); continue; }
                        want.extend(a.order(ord).into_iter().map(|x| (if what < 4 { 0 } else { i }, x)));
                    }
                    // how much is taken before it is abandoned
                    let k = match mix(c.num(5) as u64, what * 4 + own as u64) as usize % (2 * want.len()) { k if k < want.len() => k, _ => usize::MAX };
                    if what < 8 { want.truncate(k); }
                    let b = forest.clone();
                    let got: Vec<(usize, u32)> = on_stack(SMALLER_STACK, move || {
                        let mut v: Vec<$N> = b.iter().map($build).collect();
                        macro_rules! per { ($x:ident, $y:ident, $z:ident, $e:expr) => { match own { Own::O => v.$x($e).collect::<Vec<_>>(), Own::R => v.$y($e).collect(), Own::W => v.$z($e).collect() } }; }
                        macro_rules! each { ($it:ident, $e:expr) => { match own {
                            Own::O => $own!(v, ord, |$it| $e),
                            Own::R => $rf!((&v), ord, |$it| $e),
                            Own::W => $mt!((&mut v), ord, |$it| $e),
                        } }; }
                        match what {
                            0..=3 => { let got = each!(it, { let mut l = vec![]; while l.len() < k.min(ENDLESS) { match it.next() { Some(x) => l.push(x.n()), None => break } } l }); got.into_iter().map(|x| (0, x)).collect() }
                            4..=6 => each!(it, {
                                let mut s = it.attach_context();
                                let mut l = vec![];
                                while l.len() < k.min(ENDLESS) { match s.next() { Some(x) => l.push((x.path()[0], x.ancestors().last().unwrap().n())), None => break } }
                                l
                            }),
                            7 => {
                                macro_rules! chain { ($it:expr) => {{
                                    let mut s = $it.map_path(|p, v| (p[0], v.n())).prune(|_| false).prune_path(|p, _| p.len() > 100_000);
                                    let mut l = vec![];
                                    while l.len() < k.min(ENDLESS) { match s.next() { Some(x) => l.push(x), None => break } }
                                    l
                                }}; }
                                match own { Own::O => chain!(v.into_pipeline()), Own::R => chain!((&v).into_pipeline_ref()), Own::W => chain!((&mut v).into_pipeline_mut()) }
                            }
                            8 => {
                                let ts: Vec<_> = match own { Own::O => v.into_pipeline().map_trees(|v| v.n()).trees().collect(), Own::R => (&v).into_pipeline_ref().map_trees(|v| v.n()).trees().collect(), Own::W => (&mut v).into_pipeline_mut().map_trees(|v| v.n()).trees().collect() };
                                ts.into_iter().enumerate().flat_map(|(i, t)| $unpick(t, |x| *x).into_iter().map(move |x| (i, x))).collect()
                            }
                            9 => {
                                macro_rules! fold { ($it:expr) => { $it.prune(|_| false).fold_trees(|k, _| 1 + Slots::<u32>::slots(k).into_iter().flatten().sum::<u32>()).enumerate().collect() }; }
                                match own { Own::O => fold!(v.into_pipeline()), Own::R => fold!((&v).into_pipeline_ref()), Own::W => fold!((&mut v).into_pipeline_mut()) }
                            }
                            10 => per!(map_each, map_each_ref, map_each_mut, |v| v.n()).into_iter().enumerate().flat_map(|(i, t)| $unpick(t, |x| *x).into_iter().map(move |x| (i, x))).collect(),
                            _ => per!(fold_path_each, fold_path_each_ref, fold_path_each_mut, |k, p, _| (p[0], 1 + Slots::<(usize, u32)>::slots(k).into_iter().flatten().map(|x| x.1).sum::<u32>())),
                        }
                    });
                    o.eval(&[30 + what, own as u64], true);
                    if got != want {
                        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                        return Err(format!("collection of four deep trees, {:?} {} (k = {}): {} results, expected {}; first difference at {}: {:?} / {:?}", own, C_OPS[what as usize], k, got.len(), want.len(), i, got.get(i), want.get(i)));
                    }
                }
            }
            Ok(())
        }
    };
}
use crate::drive::{bc_mut, bc_own, bc_ref, tc_mut, tc_own, tc_ref};
deep_coll!(coll_t, DT, build_t, unpick_t, false, tc_own, tc_ref, tc_mut, OwnedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, TreeCollectionIterator);
deep_coll!(coll_b, DB, build_b, unpick_b, true, bc_own, bc_ref, bc_mut, OwnedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BinaryTreeCollectionIterator);

/// Very wide nodes and very long collections, kept or cut off, inside the small stack.
macro_rules! wide {
    ($fn:ident, $N:ident, $build:ident, $unpick:ident, $bin:expr, $ords:expr, $own:ident, $rf:ident, $mt:ident, $cown:ident, $To:ident, $Tr:ident, $Tm:ident, $Ti:ident) => {
        fn $fn(c: &Case, o: &mut Obs) -> R {
            use crate::drive::{$cown, $mt, $own, $rf};
            use tree_iterators_rs::prelude::{$Ti, $Tm, $To, $Tr};
            let width = 12_000 + c.num(0) % 3000;
            let a = Arena::star($bin, width, c.num(1) as u64);
            let n = a.kids.len();
            let stem = n.saturating_sub(width);
            // Keep nearly all of the leaves, some, or none.
            let rate = [1u64, 8, 16][c.num(2) % 3];
            let seed = c.num(3) as u64;
            let cut = move |id: u32| id as usize >= stem && mix(seed, id as u64) % 16 < rate;
            for own in OWNS {
                if !$bin {
                    for &ord in &$ords {
                        let b = a.clone();
                        let k = mix(c.num(4) as u64, own as u64) as usize % n;
                        let got: Vec<Vec<u32>> = on_stack(SMALLER_STACK, move || {
                            macro_rules! t { (|$it:ident| $e:expr) => {{ #[allow(unused_mut)] let mut t = $build(&b); go!($own, $rf, $mt, t, own, ord, |$it| $e) }}; }
                            vec![
                                t!(|it| collect(it)),
                                t!(|it| streamed(it.attach_ancestors()).0),
                                t!(|it| contexts(it.attach_context()).0),
                                t!(|it| { it.by_ref().take(k).for_each(drop); collect(it.leaves()) }),
                                t!(|it| { let mut s = it.attach_ancestors(); streamed_upto(&mut s, k); streamed(s.leaves()).0 }),
                            ]
                        });
                        let all = a.order(ord);
                        let mut early = vec![false; n];
                        for i in &all[..k] { early[*i as usize] = true; }
                        let late: Vec<u32> = (stem as u32..n as u32).filter(|i| !early[*i as usize]).collect();
                        let wants = [all.clone(), all.clone(), all.clone(), late.clone(), late];
                        for (i, (g, w)) in got.iter().zip(&wants).enumerate() {
                            o.eval(&[50 + i as u64, own as u64, ord as u64], true);
                            if g != w { return Err(format!("node with {} children, {:?} {:?} form {}: {} elements, expected {}", width, own, ord, i, g.len(), w.len())) }
                        }
                    }
                    let b = a.clone();
                    let got: Vec<Vec<u32>> = on_stack(SMALLER_STACK, move || {
                        macro_rules! t { ($t:ident => $e:expr) => {{ #[allow(unused_mut)] let mut $t = $build(&b); $e }}; }
                        vec![
                            t!(t => $unpick(match own { Own::O => t.prune(|v| cut(v.n())).unwrap(), Own::R => t.prune_ref(|v| cut(v.n())).unwrap().map(|v| v.n()), Own::W => t.prune_mut(|v| cut(v.n())).unwrap().map(|v| v.n()) }, |x| *x)),
                            t!(t => match own { Own::O => $unpick(t.prune_path(|_, v| cut(v.n())).unwrap(), |x| x.n()), Own::R => $unpick(t.prune_path_ref(|_, v| cut(v.n())).unwrap(), |x| x.n()), Own::W => $unpick(t.prune_path_mut(|_, v| cut(v.n())).unwrap(), |x| x.n()) }),
                            t!(t => match own { Own::O => t.into_pipeline().prune(|v| cut(v.n())).prune_path(|_, _| false).map(|x| x.n()).collect(), Own::R => t.into_pipeline_ref().prune(|v| cut(v.n())).prune_path(|_, _| false).map(|x| x.n()).collect(), Own::W => t.into_pipeline_mut().prune(|v| cut(v.n())).prune_path(|_, _| false).map(|x| x.n()).collect() }),
                            t!(t => match own { Own::O => $unpick(t.prune_depth(stem - 1), |x| x.n()), Own::R => $unpick(t.prune_depth_ref(stem - 1), |x| x.n()), Own::W => $unpick(t.prune_depth_mut(stem - 1), |x| x.n()) }),
                            t!(t => $unpick(three!(t, own, map, map_ref, map_mut, |v| v.n()), |x| *x)),
                            t!(t => vec![three!(t, own, fold_path, fold_path_ref, fold_path_mut, |k, _, _| 1 + Slots::<u32>::slots(k).into_iter().flatten().sum::<u32>())]),
                        ]
                    });
                    let kept: Vec<u32> = (0..n as u32).filter(|i| !cut(*i)).collect();
                    let wants = [kept.clone(), kept.clone(), kept, (0..stem as u32).collect(), (0..n as u32).collect(), vec![n as u32]];
                    for (i, (g, w)) in got.iter().zip(&wants).enumerate() {
                        o.eval(&[60 + i as u64, own as u64], true);
                        if g != w { return Err(format!("node with {} children, {:?} {}: {} results, expected {}", width, own, ["prune", "prune_path", "chain", "prune_depth", "map", "fold_path"][i], g.len(), w.len())) }
                    }
                }
                // A collection of as many trees of one node each.
                let ids: Vec<u32> = (stem as u32..(stem + width) as u32).collect();
                let i2 = ids.clone();
                let got: Vec<Vec<u32>> = on_stack(SMALLER_STACK, move || {
                    macro_rules! t { ($t:ident => $e:expr) => {{ #[allow(unused_mut)] let mut $t: Vec<$N> = i2.iter().map(|i| { let mut x = $N::default(); x.v = *i; x }).collect(); $e }}; }
                    macro_rules! chain { ($t:ident, |$p:ident| $e:expr) => { match own { Own::O => { let $p = $t.into_pipeline(); $e } Own::R => { let $p = (&$t).into_pipeline_ref(); $e } Own::W => { let $p = (&mut $t).into_pipeline_mut(); $e } } }; }
                    vec![
                        t!(t => match own { Own::O => collect(t.bfs_each()), Own::R => collect((&t).bfs_each_iter()), Own::W => collect((&mut t).bfs_each_iter_mut()) }),
                        t!(t => match own { Own::O => contexts(t.dfs_postorder_each().attach_context()).0, Own::R => contexts((&t).dfs_postorder_each_iter().attach_context()).0, Own::W => contexts((&mut t).dfs_postorder_each_iter_mut().attach_context()).0 }),
                        t!(t => chain!(t, |p| p.prune(|v| cut(v.n())).map(|x| x.n()).collect())),
                        t!(t => chain!(t, |p| p.map_trees(|v| v.n()).prune_path(|_, v| cut(*v)).trees().map(|x| x.value).collect())),
                        t!(t => chain!(t, |p| p.map_trees(|v| v.n()).prune_depth(0).prune(|v| cut(*v)).fold_trees(|_, x| x).collect())),
                        t!(t => chain!(t, |p| p.map_trees(|v| v.n()).prune_path(|_, v| cut(*v)).fold_path(|_, _, x| x).collect())),
                        t!(t => match own { Own::O => t.prune_each(|v| cut(v.n())).map(|t| t.value.n()).collect(), Own::R => (&t).prune_each_ref(|v| cut(v.n())).map(|t| t.value.n()).collect(), Own::W => (&mut t).prune_each_mut(|v| cut(v.n())).map(|t| t.value.n()).collect() }),
                    ]
                });
                let kept: Vec<u32> = ids.iter().copied().filter(|i| !cut(*i)).collect();
                for (i, g) in got.iter().enumerate() {
                    let w = if i < 2 { &ids } else { &kept };
                    o.eval(&[70 + i as u64, own as u64], true);
                    if g != w { return Err(format!("collection of {} single nodes, {:?} {}: {} results, expected {}", width, own, ["bfs", "postorder with context", "chain", "trees", "fold", "fold with path", "prune_each"][i], g.len(), w.len())) }
                }
            }
            Ok(())
        }
    };
}
wide!(wide_t, DT, build_t, unpick_t, false, T_ORDS, t_own, t_ref, t_mut, tc_own, OwnedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, TreeCollectionIterator);
wide!(wide_b, DB, build_b, unpick_b, true, B_ORDS, b_own, b_ref, b_mut, bc_own, OwnedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BinaryTreeCollectionIterator);

pub fn c20(c: &Case, o: &mut Obs) -> R {
    if c.bin {
        deep_b(c, o)?;
        coll_b(c, o)?;
        wide_b(c, o)
    } else {
        deep_t(c, o)?;
        coll_t(c, o)?;
        wide_t(c, o)
    }
}

// ------------------------------------------------------------------ paths of more than 2^16 nodes
/// What the path and the ancestors of each node are, checked without storing them all.
struct Track {
    parent: Vec<(usize, usize)>,
    depth: Vec<u32>,
    prev: usize,
    steps: u64,
    jumps: u64,
    err: Option<String>,
}
impl Track {
    fn new(a: &Arena) -> Track {
        let mut parent = vec![(0, 0); a.kids.len()];
        for (i, k) in a.kids.iter().enumerate() {
            for (s, k) in k.iter().enumerate() {
                if let Some(k) = k { parent[*k] = (i, s); }
            }
        }
        Track { parent, depth: a.depths(), prev: 0, steps: 0, jumps: 0, err: None }
    }
    /// The last segments always, all of them after a jump and now and then.
    fn see(&mut self, id: u32, path: Option<&[usize]>, anc: Option<&dyn Fn(usize) -> Option<u32>>) {
        let id = id as usize;
        if self.err.is_some() || id >= self.parent.len() { self.err.get_or_insert(format!("a node {} that does not exist", id)); return }
        let d = self.depth[id] as usize;
        let jump = d.abs_diff(self.prev);
        self.jumps += (jump > 1) as u64;
        let all = jump > 60_000 || jump > 1 && self.jumps < 60 || self.steps % 9973 == 0;
        self.prev = d;
        self.steps += 1;
        if path.map_or(false, |p| p.len() != d) || anc.map_or(false, |a| a(d).is_none() || a(d + 1).is_some()) {
            self.err = Some(format!("node {} at depth {}: reported with a path of length {:?}", id, d, path.map(|p| p.len())));
            return;
        }
        let mut at = id;
        for k in (0..d).rev().take(if all { d } else { 3 }) {
            let (p, s) = self.parent[at];
            if path.map_or(false, |x| x[k] != s) || anc.map_or(false, |a| a(k + 1) != Some(at as u32) || a(k) != Some(p as u32)) {
                self.err = Some(format!("node {} at depth {}: path or ancestors wrong at depth {}", id, d, k));
                return;
            }
            at = p;
        }
    }
    fn done(self, ids: &[u32], want: &[u32]) -> R {
        if let Some(e) = self.err { return Err(e) }
        if ids != want {
            let i = ids.iter().zip(want).take_while(|(a, b)| a == b).count();
            return Err(format!("{} elements, expected {}; first difference at {}: {:?} / {:?}", ids.len(), want.len(), i, ids.get(i), want.get(i)));
        }
        Ok(())
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Deep { Plain, Ancestors, Contexts, Leaves, AncestorLeaves, Map, Fold, Prune, Chain }
macro_rules! very_deep {
    ($fn:ident, $N:ident, $build:ident, $unpick:ident, $ords:expr, $bin:expr, $own:ident, $rf:ident, $mt:ident) => {
        fn $fn(c: &Case, o: &mut Obs, what: Deep) -> R {
            use crate::drive::{$mt, $own, $rf};
            let a = Arena::fork($bin, c.num(0) % 3, 3, 66_000, c.num(1) as u64);
            let pre = a.order(Ord::Pre);
            let leaf = |i: &u32| a.present(*i as usize).next().is_none();
            for own in OWNS {
                let at = |w: &str| format!("tree of {} nodes, more than 2^16 deep, {:?} {}", pre.len(), own, w);
                let mut tr = Track::new(&a);
                #[allow(unused_mut)]
                let mut t = $build(&a);
                val::set_work_limit(u64::MAX);
                if matches!(what, Deep::Plain | Deep::Ancestors | Deep::Contexts | Deep::Leaves | Deep::AncestorLeaves) {
                    for &ord in $ords.iter().filter(|x| **x != Ord::Bfs) {
                        let mut tr = Track::new(&a);
                        let all = a.order(ord);
                        let k = mix(c.num(2) as u64, ord as u64) as usize % all.len();
                        let mut t = $build(&a);
                        let mut ids: Vec<u32> = vec![];
                        macro_rules! stack { ($x:expr) => {{ let x = $x; let id = x[x.len() - 1].n(); ids.push(id); tr.see(id, None, Some(&|i| x.get(i).map(|x| x.n()))); }}; }
                        go!($own, $rf, $mt, t, own, ord, |it| match what {
                            Deep::Plain => ids = collect(it),
                            Deep::Leaves => { ids.extend(it.by_ref().take(k).map(|x| x.n())); ids.extend(collect(it.leaves())) }
                            Deep::Ancestors => { let mut s = it.attach_ancestors(); while let Some(x) = s.next() { stack!(x); if ids.len() > ENDLESS { break } } }
                            Deep::AncestorLeaves => {
                                let mut s = it.attach_ancestors();
                                while ids.len() < k { match s.next() { Some(x) => stack!(x), None => break } }
                                let mut s = s.leaves();
                                while let Some(x) = s.next() { stack!(x); if ids.len() > ENDLESS { break } }
                            }
                            _ => {
                                let mut s = it.attach_context();
                                while let Some(x) = s.next() {
                                    let y = x.ancestors();
                                    let id = y[y.len() - 1].n();
                                    ids.push(id);
                                    if ids.len() > ENDLESS { break }
                                    tr.see(id, Some(x.path()), Some(&|i| y.get(i).map(|y| y.n())));
                                }
                            }
                        });
                        let want: Vec<u32> = if matches!(what, Deep::Leaves | Deep::AncestorLeaves) {
                            let mut early = vec![false; all.len()];
                            for i in &all[..k] { early[*i as usize] = true; }
                            all[..k].iter().copied().chain(a.order(Ord::Post).into_iter().filter(|i| leaf(i) && !early[*i as usize])).collect()
                        } else { all };
                        o.eval(&[90, what as u64, own as u64, ord as u64], true);
                        ctx(tr.done(&ids, &want), || format!("{:?} {}", ord, at(&format!("{:?} (k = {})", what, k))))?;
                    }
                    continue;
                }
                let lim = 65_530 + c.num(3) % 12;
                let (got, want): (Vec<u32>, Vec<u32>) = match what {
                    Deep::Map => {
                        ($unpick(match own { Own::O => t.map_path(|p: &[usize], v| { tr.see(v.n(), Some(p), None); v.n() }), Own::R => t.map_path_ref(|p: &[usize], v| { tr.see(v.n(), Some(p), None); v.n() }), Own::W => t.map_path_mut(|p: &[usize], v| { tr.see(v.n(), Some(p), None); v.n() }) }, |x| *x), pre.clone())
                    }
                    Deep::Fold => {
                        let mut ids = vec![];
                        macro_rules! fold { ($m:ident) => { t.$m(|k, p: &[usize], v| { let kids: u32 = Slots::<u32>::slots(k).into_iter().flatten().sum(); tr.see(v.n(), Some(p), None); ids.push(v.n()); 1 + kids }) }; }
                        let total = match own { Own::O => fold!(fold_path), Own::R => fold!(fold_path_ref), Own::W => fold!(fold_path_mut) };
                        if total as usize != pre.len() { return Err(at(&format!("fold_path counts {} nodes", total))) }
                        ids.sort_unstable();
                        (ids, { let mut w = pre.clone(); w.sort_unstable(); w })
                    }
                    Deep::Prune => {
                        let d = a.depths();
                        let r = match own { Own::O => $unpick(t.prune_depth(lim), |x| x.n()), Own::R => $unpick(t.prune_depth_ref(lim), |x| x.n()), Own::W => $unpick(t.prune_depth_mut(lim), |x| x.n()) };
                        let want: Vec<u32> = pre.iter().copied().filter(|i| d[*i as usize] as usize <= lim).collect();
                        if r != want { return Err(at(&format!("prune_depth({}) keeps {} nodes, expected {}", lim, r.len(), want.len()))) }
                        let mut t = $build(&a);
                        macro_rules! prune { ($m:ident) => { $unpick(t.$m(|p: &[usize], v| { tr.see(v.n(), Some(p), None); p.len() > lim }).unwrap(), |x| x.n()) }; }
                        (match own { Own::O => prune!(prune_path), Own::R => prune!(prune_path_ref), Own::W => prune!(prune_path_mut) }, want)
                    }
                    _ => {
                        let mut ids = vec![];
                        macro_rules! chain { ($it:expr) => { for x in $it.map_path(|p, v| (p.len(), v.n())).prune(|_| false).map_path(|p, x| { tr.see(x.1, Some(p), None); x }).prune_path(|p, x| p.len() != x.0).take(ENDLESS) { ids.push(x.1) } }; }
                        match own { Own::O => chain!(t.into_pipeline()), Own::R => chain!(t.into_pipeline_ref()), Own::W => chain!(t.into_pipeline_mut()) }
                        (ids, pre.clone())
                    }
                };
                o.eval(&[91, what as u64, own as u64], true);
                ctx(tr.done(&got, &want), || at(&format!("{:?}", what)))?;
            }
            Ok(())
        }
    };
}
very_deep!(very_deep_t, DT, build_t, unpick_t, T_ORDS, false, t_own, t_ref, t_mut);
very_deep!(very_deep_b, DB, build_b, unpick_b, B_ORDS, true, b_own, b_ref, b_mut);
/// Run on one input of each kind: the widest of the fixed large ones.
pub fn very_deep(c: &Case, o: &mut Obs, what: &[Deep]) -> R {
    if lite() || c.forest.first().map_or(true, |m| !(60_000..140_000).contains(&m.size()) && !(what == [Deep::Chain] && (1100..1120).contains(&m.size()))) { return Ok(()) }
    for &w in what {
        if c.bin { very_deep_b(c, o, w)? } else { very_deep_t(c, o, w)? }
    }
    Ok(())
}

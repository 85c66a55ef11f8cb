//! C12 / C13: chained lazy pipelines against stage-by-stage reference semantics.
use super::*;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use tree_iterators_rs::prelude::{BinaryTree, Tree};

/// What prune/map closures look at: a hash value carried by the element.
pub trait HH: HasId {
    fn h(&self) -> u64;
}
impl HH for V {
    fn h(&self) -> u64 {
        self.touch();
        self.id as u64
    }
}
impl HH for &V {
    fn h(&self) -> u64 {
        self.touch();
        self.id as u64
    }
}
impl HH for &mut V {
    fn h(&self) -> u64 {
        self.touch();
        self.id as u64
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H(pub u64);
impl HasId for H {
    fn id(&self) -> u32 {
        self.0 as u32
    }
    fn mark(&self) -> u32 {
        0
    }
}
impl HH for H {
    fn h(&self) -> u64 {
        self.0
    }
}

/// Reference tree of values.
#[derive(Clone, Debug)]
pub struct P {
    /// Where the node came from (reference side only; not compared).
    pub id: u32,
    pub h: u64,
    pub kids: Vec<Option<P>>,
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.h == o.h && self.kids == o.kids
    }
}
impl Eq for P {}
pub fn p_of(m: &M) -> P {
    P { id: m.id, h: m.id as u64, kids: m.kids.iter().map(|k| k.as_ref().map(p_of)).collect() }
}
impl P {
    fn count(&self) -> usize {
        1 + self.kids.iter().flatten().map(|k| k.count()).sum::<usize>()
    }
}
pub trait ToP {
    fn to_p(&self) -> P;
}
impl<X: HH> ToP for Tree<X> {
    fn to_p(&self) -> P {
        P { id: 0, h: self.value.h(), kids: self.children.iter().map(|k| Some(k.to_p())).collect() }
    }
}
impl<X: HH> ToP for BinaryTree<X> {
    fn to_p(&self) -> P {
        P { id: 0, h: self.value.h(), kids: [&self.left, &self.right].into_iter().map(|k| k.as_ref().map(|k| k.to_p())).collect() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stage {
    Map(u64),
    MapPath(u64),
    Prune(u64, u64),
    PrunePath(u64, u64),
    Depth(usize),
}
pub type Log = Vec<(u64, Vec<usize>)>;

pub fn phash(p: &[usize]) -> u64 {
    p.iter().fold(17u64, |a, &x| mix(a, x as u64 + 1))
}
pub fn hits(seed: u64, d: u64, h: u64) -> bool {
    mix(seed, h) % 16 < d
}
/// `path[0]` of a binary collection is not pinned down once a whole tree was removed.
fn norm(p: &[usize], amb: bool) -> Vec<usize> {
    let mut p = p.to_vec();
    if amb && !p.is_empty() {
        p[0] = 0;
    }
    p
}

/// Apply one stage to the reference tree. Returns None if the root goes away.
fn apply(t: &P, s: Stage, bin: bool, path: &mut Vec<usize>, base: usize, amb: bool, log: &mut Vec<(u32, u64, Vec<usize>)>) -> Option<P> {
    let np = norm(path, amb);
    let h = match s {
        Stage::Map(k) => {
            log.push((t.id, t.h, vec![]));
            mix(t.h, k)
        }
        Stage::MapPath(k) => {
            log.push((t.id, t.h, np.clone()));
            mix(mix(t.h, k), phash(&np))
        }
        Stage::Prune(k, d) => {
            log.push((t.id, t.h, vec![]));
            if hits(k, d, t.h) {
                return None;
            }
            t.h
        }
        Stage::PrunePath(k, d) => {
            log.push((t.id, t.h, np.clone()));
            if hits(mix(k, phash(&np)), d, t.h) {
                return None;
            }
            t.h
        }
        Stage::Depth(_) => t.h,
    };
    let mut kids = vec![];
    for (i, c) in t.kids.iter().enumerate() {
        let r = match (c, s) {
            (None, _) => None,
            (Some(_), Stage::Depth(d)) if path.len() - base >= d => None,
            (Some(c), _) => {
                path.push(i);
                let r = apply(c, s, bin, path, base, amb, log);
                path.pop();
                r
            }
        };
        if bin || r.is_some() {
            kids.push(r);
        }
    }
    Some(P { id: t.id, h, kids })
}
#[derive(Clone)]
pub struct Expect {
    pub stages: Vec<(Stage, bool)>,
    /// Per stage: every closure call of stage-by-stage evaluation in order, and whether lazy
    /// evaluation has to make it too (no proper ancestor is removed by any stage).
    pub logs: Vec<Vec<(bool, u64, Vec<usize>)>>,
    /// (index of the tree in a collection, tree)
    pub out: Vec<(usize, P)>,
    pub amb: bool,
}
/// `coll`: paths are prefixed by the tree's index.
pub fn expect(trees: &[&M], prog: &[Stage], bin: bool, coll: bool) -> Expect {
    expect_p(trees.iter().map(|m| p_of(m)).collect(), prog, bin, coll)
}
pub fn expect_p(trees: Vec<P>, prog: &[Stage], bin: bool, coll: bool) -> Expect {
    fn ancs(p: &P, st: &mut Vec<u32>, out: &mut std::collections::HashMap<u32, Vec<u32>>) {
        st.push(p.id);
        out.insert(p.id, st.clone());
        for k in p.kids.iter().flatten() {
            ancs(k, st, out);
        }
        st.pop();
    }
    let mut inf = std::collections::HashMap::new();
    for t in &trees {
        ancs(t, &mut vec![], &mut inf);
    }
    let mut cur: Vec<(usize, P)> = trees.into_iter().enumerate().collect();
    let mut e = Expect { stages: vec![], logs: vec![], out: vec![], amb: false };
    let mut logs = vec![];
    for &s in prog {
        let mut log = vec![];
        let mut next = vec![];
        e.stages.push((s, e.amb));
        for (i, t) in &cur {
            let mut path = if coll { vec![*i] } else { vec![] };
            let base = path.len();
            if let Some(p) = apply(t, s, bin, &mut path, base, e.amb, &mut log) {
                next.push((*i, p));
            }
        }
        if next.len() != cur.len() && coll {
            if bin {
                e.amb = true;
            } else {
                for (k, x) in next.iter_mut().enumerate() {
                    x.0 = k;
                }
            }
        }
        logs.push(log);
        cur = next;
    }
    e.out = cur;
    let mut alive = std::collections::HashSet::new();
    let mut st: Vec<&P> = e.out.iter().map(|x| &x.1).collect();
    while let Some(p) = st.pop() {
        alive.insert(p.id);
        st.extend(p.kids.iter().flatten());
    }
    // A node cut off by a depth limit is never looked at; the limit acts on its parent.
    let min_d = prog.iter().filter_map(|s| if let Stage::Depth(d) = s { Some(*d) } else { None }).min().unwrap_or(usize::MAX);
    e.logs = logs
        .into_iter()
        .map(|l| {
            l.into_iter()
                .map(|(id, h, p)| {
                    let anc = &inf[&id];
                    (anc.len() - 1 <= min_d && anc[..anc.len() - 1].iter().all(|a| alive.contains(a)), h, p)
                })
                .collect()
        })
        .collect();
    e
}
impl Expect {
    pub fn rows(&self, coll: bool) -> Vec<(u64, Vec<usize>)> {
        fn go(p: &P, path: &mut Vec<usize>, amb: bool, out: &mut Vec<(u64, Vec<usize>)>) {
            out.push((p.h, norm(path, amb)));
            for (i, k) in p.kids.iter().enumerate() {
                if let Some(k) = k {
                    path.push(i);
                    go(k, path, amb, out);
                    path.pop();
                }
            }
        }
        let mut out = vec![];
        for (i, t) in &self.out {
            let mut path = if coll { vec![*i] } else { vec![] };
            go(t, &mut path, self.amb, &mut out);
        }
        out
    }
    pub fn trees(&self) -> Vec<P> {
        self.out.iter().map(|x| x.1.clone()).collect()
    }
    /// fold_path result: h mixed with the path
    pub fn folded(&self, coll: bool) -> Vec<P> {
        fn go(p: &P, path: &mut Vec<usize>, amb: bool) -> P {
            let h = mix(p.h, phash(&norm(path, amb)));
            let kids = p
                .kids
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    k.as_ref().map(|k| {
                        path.push(i);
                        let r = go(k, path, amb);
                        path.pop();
                        r
                    })
                })
                .collect();
            P { id: p.id, h, kids }
        }
        self.out.iter().map(|(i, t)| go(t, &mut if coll { vec![*i] } else { vec![] }, self.amb)).collect()
    }
    pub fn nontrivial(&self) -> bool {
        self.stages.len() >= 2 && self.out.iter().map(|x| x.1.count()).sum::<usize>() >= 2
    }
}


pub fn program(c: &Case, off: usize) -> Vec<Stage> {
    let n = 1 + c.num(off) % 5;
    (0..n)
        .map(|i| {
            let k = c.num(off + 1 + 2 * i);
            let s = c.num(off + 2 + 2 * i);
            stage(k % 5, mix(s as u64, i as u64), k / 5)
        })
        .collect()
}
pub fn stage(kind: usize, seed: u64, par: usize) -> Stage {
    match kind {
        0 => Stage::Map(seed),
        1 => Stage::MapPath(seed),
        2 => Stage::Prune(seed, 1 + par as u64 % 6),
        3 => Stage::PrunePath(seed, 1 + par as u64 % 6),
        // Limits no tree reaches must not behave like small ones.
        _ if par % 6 == 5 => Stage::Depth([usize::MAX, usize::MAX - 1, 1 << 32 | par / 6 % 3, 1 << 63 | par / 6 % 3, 1 << 16 | par / 6 % 3, 256 | par / 6 % 3][par / 18 % 6]),
        _ => Stage::Depth(par % 7),
    }
}
/// Programs to run on a case: all pairs of stage kinds for exhaustive cases, else the case's own.
pub fn programs(c: &Case, o: &Obs) -> Vec<Vec<Stage>> {
    if o.exhaustive {
        let h = c.hash64();
        let mut v = vec![vec![]];
        for a in 0..5 {
            for b in 0..5 {
                let x = mix(h, (a * 5 + b) as u64);
                v.push(vec![stage(a, x, (x >> 20) as usize), stage(b, mix(x, 1), (x >> 30) as usize)]);
            }
        }
        v
    } else {
        let mut v = vec![program(c, 0), program(c, 11)];
        if lite() {
            v.truncate(1);
        }
        v
    }
}
#[derive(Debug, PartialEq, Eq)]
pub enum Outcome {
    Trees(Vec<P>),
    Rows(Vec<(u64, Vec<usize>)>),
}

/// One driver per pipeline trait family.
macro_rules! driver {
    ($mod:ident, $base:ident, $sub:ident, $map:ident, $coll:expr, $again:ident, chain = |$c4:ident| $chain:expr,
     collect = |$c1:ident| $collect:expr, fold = |$c2:ident, $f2:ident| $fold:expr, foldp = |$c3:ident, $f3:ident| $foldp:expr) => {
        pub mod $mod {
            use super::*;
            use tree_iterators_rs::prelude::{$base, $sub};
            trait Obj<X> {
                fn nx(&mut self) -> Option<X>;
                fn nth(&mut self, n: usize) -> Option<X>;
                fn hint(&self) -> (usize, Option<usize>);
                fn count(self: Box<Self>) -> usize;
                fn last(self: Box<Self>) -> Option<X>;
                fn each(self: Box<Self>, f: &mut dyn FnMut(X));
                fn path(&self) -> &[usize];
                fn depth(&self) -> usize;
                fn cut(&mut self);
            }
            struct Hold<I, X, C>(I, PhantomData<(X, C)>);
            impl<I: $base<X, C>, X, C> Obj<X> for Hold<I, X, C> {
                fn nx(&mut self) -> Option<X> {
                    self.0.next()
                }
                fn nth(&mut self, n: usize) -> Option<X> {
                    self.0.nth(n)
                }
                fn hint(&self) -> (usize, Option<usize>) {
                    self.0.size_hint()
                }
                fn count(self: Box<Self>) -> usize {
                    self.0.count()
                }
                fn last(self: Box<Self>) -> Option<X> {
                    self.0.last()
                }
                fn each(self: Box<Self>, f: &mut dyn FnMut(X)) {
                    self.0.fold((), |_, x| f(x))
                }
                fn path(&self) -> &[usize] {
                    self.0.current_path()
                }
                fn depth(&self) -> usize {
                    self.0.current_depth()
                }
                fn cut(&mut self) {
                    self.0.prune_current_subtree()
                }
            }
            pub struct Dyn<'a, X>(Box<dyn Obj<X> + 'a>);
            impl<'a, X: 'a> Dyn<'a, X> {
                pub fn new<C: 'a, I: $base<X, C> + 'a>(i: I) -> Self {
                    Dyn(Box::new(Hold(i, PhantomData)))
                }
            }
            impl<'a, X> Iterator for Dyn<'a, X> {
                type Item = X;
                fn next(&mut self) -> Option<X> {
                    self.0.nx()
                }
                // Every way of driving reaches the library's own type.
                fn nth(&mut self, n: usize) -> Option<X> {
                    self.0.nth(n)
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    self.0.hint()
                }
                fn count(self) -> usize {
                    self.0.count()
                }
                fn last(self) -> Option<X> {
                    self.0.last()
                }
                fn fold<B, F: FnMut(B, X) -> B>(self, init: B, mut f: F) -> B {
                    let mut acc = Some(init);
                    self.0.each(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
                    acc.unwrap()
                }
            }
            impl<'a, X> $base<X, ()> for Dyn<'a, X> {
                fn current_path(&self) -> &[usize] {
                    self.0.path()
                }
                fn current_depth(&self) -> usize {
                    self.0.depth()
                }
                fn prune_current_subtree(&mut self) {
                    self.0.cut()
                }
            }
            impl<'a, X> $sub<X, ()> for Dyn<'a, X> {}

            fn cut<'a, X: HH + 'a>(d: Dyn<'a, X>, s: Stage, amb: bool, log: Rc<RefCell<Log>>) -> Dyn<'a, X> {
                match s {
                    Stage::Prune(k, dd) => Dyn::new(d.prune(move |x: &X| {
                        val::work(1);
                        log.borrow_mut().push((x.h(), vec![]));
                        hits(k, dd, x.h())
                    })),
                    Stage::PrunePath(k, dd) => Dyn::new(d.prune_path(move |p: &[usize], x: &X| {
                        val::work(1);
                        let p = norm(p, amb);
                        log.borrow_mut().push((x.h(), p.clone()));
                        hits(mix(k, phash(&p)), dd, x.h())
                    })),
                    Stage::Depth(n) => Dyn::new(d.prune_depth(n)),
                    _ => unreachable!(),
                }
            }
            fn mapped<'a, X: HH + 'a>(d: Dyn<'a, X>, s: Stage, amb: bool, log: Rc<RefCell<Log>>) -> Dyn<'a, H> {
                match s {
                    Stage::Map(k) => Dyn::new(d.$map(move |x: X| {
                        val::work(1);
                        log.borrow_mut().push((x.h(), vec![]));
                        H(mix(x.h(), k))
                    })),
                    Stage::MapPath(k) => Dyn::new(d.map_path(move |p: &[usize], x: X| {
                        val::work(1);
                        let p = norm(p, amb);
                        log.borrow_mut().push((x.h(), p.clone()));
                        H(mix(mix(x.h(), k), phash(&p)))
                    })),
                    _ => unreachable!(),
                }
            }
            fn finish<'a, X: HH + 'a>(mut i: Dyn<'a, X>, e: &Expect, term: usize, cap: usize, salt: u64) -> R<Outcome> {
                let amb = e.amb;
                Ok(match term {
                    0 => {
                        let $c1 = i;
                        Outcome::Trees($collect)
                    }
                    1 => {
                        let ($c2, $f2) = (i, |k: Vec<Option<P>>, x: X| P { id: 0, h: x.h(), kids: k });
                        Outcome::Trees($fold)
                    }
                    2 => {
                        let ($c3, $f3) = (i, |k: Vec<Option<P>>, p: &[usize], x: X| P { id: 0, h: mix(x.h(), phash(&norm(p, amb))), kids: k });
                        Outcome::Trees($foldp)
                    }
                    3 => {
                        // next() or nth(1), looking at the position after each.
                        let mut out = vec![];
                        let mut hints = vec![];
                        let skip = (salt % 3 == 0) as usize;
                        loop {
                            hints.push(i.size_hint());
                            let Some(x) = (if skip == 1 { i.nth(1) } else { i.next() }) else { break };
                            let p = i.current_path().to_vec();
                            let d = i.current_depth();
                            let want = if $coll { p.len() - 1 } else { p.len() };
                            if d != want {
                                return Err(format!("current_depth() = {} at path {:?}", d, p));
                            }
                            out.push((x.h(), norm(&p, amb)));
                            if out.len() > cap {
                                return Err(format!("pipeline yields more than {} elements", cap));
                            }
                        }
                        let all = e.rows($coll);
                        for (k, (lo, hi)) in hints.into_iter().enumerate() {
                            let left = all.len().saturating_sub(k * (1 + skip));
                            if lo > left || hi.map_or(false, |h| h < left) {
                                return Err(format!("size_hint {:?} with {} elements left", (lo, hi), left));
                            }
                        }
                        if skip == 1 {
                            let odd: Vec<_> = all.iter().skip(1).step_by(2).cloned().collect();
                            eq("elements and paths after nth(1)", &out, &odd)?;
                            Outcome::Rows(all)
                        } else {
                            Outcome::Rows(out)
                        }
                    }
                    4 => {
                        let all = e.rows($coll);
                        let want: Vec<u64> = all.iter().map(|x| x.0).collect();
                        consume(i, |x| x.h(), &want, salt % WAYS, (salt >> 8) as usize)?;
                        Outcome::Rows(all)
                    }
                    _ => {
                        // The collected trees as the source of something else.
                        let $c4 = i;
                        $again(e, $chain, salt, cap)?;
                        Outcome::Trees(e.trees())
                    }
                })
            }
            /// Run the program on a real pipeline; returns the outcome and the closure logs.
            pub fn run<'a, X: HH + 'a, C: 'a, I: $sub<X, C> + 'a>(i: I, e: &Expect, term: usize, cap: usize, salt: u64) -> R<(Outcome, Vec<Log>)> {
                let logs: Vec<Rc<RefCell<Log>>> = e.stages.iter().map(|_| Default::default()).collect();
                let mut raw = Dyn::new(i);
                let mut k = 0;
                let out = loop {
                    if k == e.stages.len() {
                        break finish(raw, e, term, cap, salt)?;
                    }
                    let (s, amb) = e.stages[k];
                    if matches!(s, Stage::Map(_) | Stage::MapPath(_)) {
                        let mut d = mapped(raw, s, amb, logs[k].clone());
                        for j in k + 1..e.stages.len() {
                            let (s, amb) = e.stages[j];
                            d = if matches!(s, Stage::Map(_) | Stage::MapPath(_)) {
                                mapped(d, s, amb, logs[j].clone())
                            } else {
                                cut(d, s, amb, logs[j].clone())
                            };
                        }
                        break finish(d, e, term, cap, salt)?;
                    }
                    raw = cut(raw, s, amb, logs[k].clone());
                    k += 1;
                };
                Ok((out, logs.iter().map(|l| l.borrow().clone()).collect()))
            }
        }
    };
}
driver!(single_t, TreeIteratorBase, TreeIterator, map_tree, false, again_single_t, chain = |i| i.collect_tree(),
    collect = |i| i.collect_tree().iter().map(|t| t.to_p()).collect(),
    fold = |i, f| i.fold_tree(|k: Vec<P>, x| f(k.slots(), x)).into_iter().collect(),
    foldp = |i, f| i.fold_path(|k: Vec<P>, p, x| f(k.slots(), p, x)).into_iter().collect());
driver!(single_b, TreeIteratorBase, BinaryTreeIterator, map_tree, false, again_single_b, chain = |i| i.collect_tree(),
    collect = |i| i.collect_tree().iter().map(|t| t.to_p()).collect(),
    fold = |i, f| i.fold_tree(|k: [Option<P>; 2], x| f(k.slots(), x)).into_iter().collect(),
    foldp = |i, f| i.fold_path(|k: [Option<P>; 2], p, x| f(k.slots(), p, x)).into_iter().collect());
driver!(coll_t, TreeCollectionIteratorBase, TreeCollectionIterator, map_trees, true, again_coll_t, chain = |i| i.trees(),
    collect = |i| i.trees().map(|t| t.to_p()).collect(),
    fold = |i, f| i.fold_trees(|k: Vec<P>, x| f(k.slots(), x)).collect(),
    foldp = |i, f| i.fold_path(|k: Vec<P>, p, x| f(k.slots(), p, x)).collect());
driver!(coll_b, TreeCollectionIteratorBase, BinaryTreeCollectionIterator, map_trees, true, again_coll_b, chain = |i| i.trees().collect::<Vec<_>>(),
    collect = |i| i.trees().map(|t| t.to_p()).collect(),
    fold = |i, f| i.fold_trees(|k: [Option<P>; 2], x| f(k.slots(), x)).collect(),
    foldp = |i, f| i.fold_path(|k: [Option<P>; 2], p, x| f(k.slots(), p, x)).collect());


/// A reference tree as a model tree with contiguous ids, and the value of each id.
fn as_model(p: &P) -> (M, Vec<u32>) {
    fn go(p: &P, hs: &mut Vec<u32>) -> M {
        let id = hs.len() as u32;
        hs.push(p.h as u32);
        M { id, kids: p.kids.iter().map(|k| k.as_ref().map(|k| go(k, hs))).collect() }
    }
    let mut hs = vec![];
    (go(p, &mut hs), hs)
}
fn rows_of(trees: &[P], o: Ord, kids: bool, coll: bool) -> Vec<Row> {
    let mut out = vec![];
    for (t, p) in trees.iter().enumerate() {
        let (m, hs) = as_model(p);
        let inf = infos(&m);
        for x in m.order(o) {
            let f = &inf[x.id as usize];
            let mut path = if coll { vec![t] } else { vec![] };
            path.extend(&f.path);
            let flat = flat_of(x).into_iter().map(|i| if i >= END { i } else { hs[i as usize] }).collect();
            out.push(Row { path, anc: f.anc.iter().map(|i| hs[*i as usize]).collect(), kids: kids.then_some(flat) });
        }
    }
    out
}
fn second_program(salt: u64) -> Vec<Stage> {
    (0..1 + (salt >> 20) % 3).map(|i| stage((mix(salt, i) % 5) as usize, mix(salt, i + 10), (mix(salt, i + 20) % 1000) as usize)).collect()
}
/// What comes out of one chain as the source of another operation (salt picks which).
macro_rules! again_coll {
    ($name:ident, $drv:ident, $own:ident, $ords:ident, $Tree:ident, $Into:ident, $bin:expr) => {
        fn $name<'a, X: HH + 'a, S: tree_iterators_rs::prelude::$Into<$Tree<X>> + 'a>(e: &Expect, src: S, salt: u64, cap: usize) -> R {
            #[allow(unused_imports)]
            use tree_iterators_rs::prelude::*;
            let trees = e.trees();
            let ord = $ords[(salt >> 8) as usize % $ords.len()];
            match salt % 6 {
                0 | 1 => {
                    let prog = second_program(salt);
                    let term = (salt >> 12) as usize % 5;
                    let e2 = expect_p(trees, &prog, $bin, true);
                    let got = $drv::run(src.into_pipeline(), &e2, term, cap, salt / 64);
                    judge(got, &e2, term, true, &|| format!(".trees() then {:?} then {}", prog, TERMS[term]))
                }
                2 => {
                    let want: Vec<u32> = rows_of(&trees, ord, false, true).iter().map(|r| *r.anc.last().unwrap()).collect();
                    let r = crate::drive::$own!(src, ord, |it| consume(it, |x| x.id(), &want, (salt >> 12) % WAYS, (salt >> 30) as usize));
                    ctx(r, || format!(".trees() then {:?} over the collection", ord))
                }
                3 => {
                    let kids = matches!(ord, Ord::Bfs | Ord::Pre);
                    let got = crate::drive::$own!(src, ord, |it| rows(&mut it.attach_context(), cap, kids));
                    ctx(eq("contexts", &got?, &rows_of(&trees, ord, kids, true)), || format!(".trees() then {:?} with context", ord))
                }
                4 => {
                    let e2 = expect_p(trees, &[], $bin, true);
                    let got: Vec<P> = src.fold_path_each(|k, p: &[usize], x: X| { val::work(1); P { id: 0, h: mix(x.h(), phash(p)), kids: Slots::<P>::slots(k) } }).take(cap).collect();
                    eq(".trees().fold_path_each()", &got, &e2.folded(true))
                }
                _ => {
                    let e2 = expect_p(trees, &[Stage::MapPath(salt)], $bin, true);
                    let got: Vec<P> = src.map_path_each(|p: &[usize], x: X| { val::work(1); H(mix(mix(x.h(), salt), phash(p))) }).map(|t| t.to_p()).take(cap).collect();
                    eq(".trees().map_path_each()", &got, &e2.trees())
                }
            }
        }
    };
}
again_coll!(again_coll_t, coll_t, tc_own, T_ORDS, Tree, OwnedIntoIteratorOfTrees, false);
again_coll!(again_coll_b, coll_b, bc_own, B_ORDS, BinaryTree, OwnedIntoIteratorOfBinaryTrees, true);
macro_rules! again_single {
    ($name:ident, $drv:ident, $own:ident, $rf:ident, $ords:ident, $Tree:ident, $bin:expr) => {
        fn $name<'a, X: HH + 'a>(e: &Expect, src: Option<$Tree<X>>, salt: u64, cap: usize) -> R {
            #[allow(unused_imports)]
            use tree_iterators_rs::prelude::*;
            let trees = e.trees();
            let Some(t) = src else { return eq("collected trees", &0, &trees.len()) };
            if trees.len() != 1 {
                return Err("collect_tree() returns a tree although everything was pruned".into());
            }
            let ord = $ords[(salt >> 8) as usize % $ords.len()];
            match salt % 4 {
                0 | 1 => {
                    let prog = second_program(salt);
                    let term = (salt >> 12) as usize % 5;
                    let e2 = expect_p(trees, &prog, $bin, false);
                    let got = $drv::run(t.into_pipeline(), &e2, term, cap, salt / 64);
                    judge(got, &e2, term, false, &|| format!("collect_tree() then {:?} then {}", prog, TERMS[term]))
                }
                2 => {
                    let kids = matches!(ord, Ord::Bfs | Ord::Pre);
                    let got = crate::drive::$own!(t, ord, |it| rows(&mut it.attach_context(), cap, kids));
                    ctx(eq("contexts", &got?, &rows_of(&trees, ord, kids, false)), || format!("collect_tree() then {:?} with context", ord))
                }
                _ => {
                    let want: Vec<u32> = rows_of(&trees, ord, false, false).iter().map(|r| *r.anc.last().unwrap()).collect();
                    let r = crate::drive::$rf!(t, ord, |it| consume(it, |x| x.id(), &want, (salt >> 12) % WAYS, (salt >> 30) as usize));
                    ctx(r, || format!("collect_tree() then {:?} by reference", ord))
                }
            }
        }
    };
}
again_single!(again_single_t, single_t, t_own, t_ref, T_ORDS, Tree, false);
again_single!(again_single_b, single_b, b_own, b_ref, B_ORDS, BinaryTree, true);
pub fn judge(got: R<(Outcome, Vec<Log>)>, e: &Expect, term: usize, coll: bool, at: &dyn Fn() -> String) -> R {
    let (out, logs) = got.map_err(|x| format!("{}: {}", at(), x))?;
    let want = match term {
        0 | 1 | 5 => Outcome::Trees(e.trees()),
        2 => Outcome::Trees(e.folded(coll)),
        _ => Outcome::Rows(e.rows(coll)),
    };
    ctx(eq("result", &out, &want), at)?;
    for (k, (l, w)) in logs.iter().zip(&e.logs).enumerate() {
        // Between lazy evaluation (subtrees removed by a later stage are never seen by earlier
        // stages) and stage-by-stage evaluation, in order, each call at most once.
        let mut i = 0;
        for (must, h, p) in w {
            if l.get(i).map_or(false, |x| x.0 == *h && x.1 == *p) {
                i += 1;
            } else if *must {
                break;
            }
        }
        let missed = w.iter().filter(|x| x.0 && !l.iter().any(|y| y.0 == x.1 && y.1 == x.2)).count();
        if i != l.len() || missed > 0 {
            let w: Vec<_> = w.iter().filter(|x| x.0).map(|x| (x.1, x.2.clone())).collect();
            return Err(format!("{} stage {}: closure calls (value, path): got {:?}, expected {:?}", at(), k, l, w));
        }
    }
    Ok(())
}
pub fn prog_key(p: &[Stage]) -> u64 {
    p.iter().fold(5, |a, s| {
        mix(
            a,
            match *s {
                Stage::Map(k) => mix(k, 1),
                Stage::MapPath(k) => mix(k, 2),
                Stage::Prune(k, d) => mix(k, 3 + d),
                Stage::PrunePath(k, d) => mix(k, 30 + d),
                Stage::Depth(d) => 100u64.wrapping_add(d as u64),
            },
        )
    })
}
pub const TERMS: [&str; 6] = ["collect", "fold", "fold_path", "current_path after each element", "iteration in some way", "collect and use again"];

pub fn c12(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Chain])?;
    let m = &c.forest[0];
    flavours!(c, c12_t / c12_b(c, m, o));
    Ok(())
}
dual! {
    fn c12_t / c12_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        for prog in programs(c, o) {
            let e = expect(&[m], &prog, BIN, false);
            for own in OWNS {
                for term in 0..TERMS.len() {
                    let salt = mix(mix(c.hash64(), prog_key(&prog)), (own as u64) << 8 | term as u64);
                    guard(m.size() * (6 + prog.len()));
                    let cap = m.size() + 2;
                    let mut t = N::build(m);
                    let got = match own {
                        Own::O => drv::run(t.into_pipeline(), &e, term, cap, salt),
                        Own::R => drv::run(t.into_pipeline_ref(), &e, term, cap, salt),
                        Own::W => drv::run(t.into_pipeline_mut(), &e, term, cap, salt),
                    };
                    o.eval(&[own as u64, term as u64, N::NAME.len() as u64, prog_key(&prog)], e.nontrivial());
                    judge(got, &e, term, false, &|| format!("{} {:?} {:?} then {} (salt {})", N::NAME, own, prog, TERMS[term], salt))?;
                }
            }
        }
        Ok(())
    }
}

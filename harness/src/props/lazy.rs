//! C19: how often, and when, nodes are asked for their value and children.
use super::comb::{depth_model, prune_model, shifted};
use super::*;
use crate::nodes::counted::{self, KNode, QNode};
use std::collections::BTreeSet;

fn requested(base: u32) -> R<BTreeSet<u32>> {
    let mut s = BTreeSet::new();
    for (i, &n) in counted::counts().iter().enumerate() {
        if n > 1 {
            return Err(format!("node {} was asked {} times", base + i as u32, n));
        }
        if n == 1 {
            s.insert(i as u32);
        }
    }
    Ok(s)
}
fn subset(what: &dyn Fn() -> String, got: R<BTreeSet<u32>>, allowed: &BTreeSet<u32>, exact: bool) -> R {
    let got = got.map_err(|e| format!("{}: {}", what(), e))?;
    if exact && &got != allowed {
        return Err(format!("{}: nodes asked for their children: {:?}, expected exactly {:?}", what(), got, allowed));
    }
    if !got.is_subset(allowed) {
        return Err(format!("{}: nodes asked for their children: {:?}, allowed {:?}", what(), got, allowed));
    }
    Ok(())
}
fn snap_ids(s: &Snap, out: &mut BTreeSet<u32>) {
    out.insert(s.id);
    for k in s.kids.iter().flatten() {
        snap_ids(k, out);
    }
}
pub fn c19(c: &Case, o: &mut Obs) -> R {
    let m = &c.forest[0];
    if c.bin {
        c19_b::<QNode>(c, m, o)?;
        c19c_b::<QNode>(c, m, o)?;
    } else {
        c19_t::<KNode>(c, m, o)?;
        c19c_t::<KNode>(c, m, o)?;
    }
    if lite() { return Ok(()) }
    infinite(c, o)?;
    endless_width(c, o)?;
    endless_collection(c, o)
}
/// The same tree with other ids.
dual! {
    /// Collections: the tree, a lone node, the tree again.
    fn c19c_t / c19c_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let trees = [m.clone(), M { id: m.id + n as u32, kids: if BIN { vec![None, None] } else { vec![] } }, shifted(m, n as u32 + 1)];
        let total = 2 * n + 1;
        let start = || { guard(total); counted::reset(total) };
        let build = || -> Vec<N> { trees.iter().map(N::build).collect() };
        let all: BTreeSet<u32> = (0..total as u32).collect();
        let inf = infos(m);
        let rel = |i: u32| i - m.id;
        let roots: Vec<u32> = trees.iter().map(|t| rel(t.id)).collect();
        // Everything above a node, in its own tree.
        let above = |i: u32| -> Vec<u32> {
            let t = roots.iter().rposition(|r| *r <= i).unwrap();
            if t == 1 { vec![i] } else { inf[(i - roots[t]) as usize].anc.iter().map(|a| rel(*a) + roots[t]).collect() }
        };
        for own in OWNS {
            macro_rules! each { ($ord:expr, |$it:ident| $b:expr) => {{
                start();
                let mut v = build();
                match own {
                    Own::O => { cown!(v, $ord, |$it| $b); }
                    Own::R => { cref!((&v), $ord, |$it| $b); }
                    Own::W => { cmut!((&mut v), $ord, |$it| $b); }
                }
            }}; }
            for &ord in ORDS {
                let order: Vec<u32> = trees.iter().flat_map(|t| t.order(ord)).map(|x| rel(x.id)).collect();
                let mut ks = if lite() { vec![c.num(0) % (total + 1)] } else { vec![0, 1, n - 1, n, n + 1, n + 2, total - 1, total, total + 1, c.num(0) % total, c.num(1) % total] };
                ks.sort_unstable();
                ks.dedup();
                for k in ks {
                    let mut allowed: BTreeSet<u32> = order[..k.min(total)].iter().copied().collect();
                    if ord == Ord::In || ord == Ord::Post {
                        for i in &order[..k.min(total)] { allowed.extend(above(*i)); }
                    }
                    if k > total { allowed = all.clone(); }
                    let at = |s: &'static str| move || format!("{} {:?} {:?} collection {} stopped after {}", N::NAME, own, ord, s, k);
                    each!(ord, |it| take_ids(&mut it, k));
                    subset(&at("plain"), requested(m.id), &allowed, k > total)?;
                    o.eval(&[20, own as u64, ord as u64, k as u64], k >= 1 && k < total);
                    each!(ord, |it| { let mut s = it.attach_context(); take_rows(&mut s, k) });
                    subset(&at("with context"), requested(m.id), &allowed, k > total)?;
                    o.eval(&[21, own as u64, ord as u64, k as u64], k >= 1 && k < total);
                }
            }
            // Operations that hand out one result per tree: after j of them, the trees used and at
            // most a look at the next root.
            let pre: Vec<u32> = trees.iter().flat_map(|t| t.order(Ord::Pre)).map(|x| rel(x.id)).collect();
            for j in 0..=3usize {
                let upto = |j: usize| *[0, n, n + 1, total].get(j).unwrap_or(&total);
                let mut allowed: BTreeSet<u32> = pre[..upto(j)].iter().copied().collect();
                if j > 0 { allowed.extend(roots.get(j)); }
                let k = if j == 0 { 0 } else { c.num(j) % (total + 1) };
                let seen: BTreeSet<u32> = pre[..k].iter().copied().collect();
                let at = |s: &'static str| move || format!("{} {:?} collection {} stopped after {} trees", N::NAME, own, s, j);
                macro_rules! op { ($name:literal, $a:ident, $b:ident, $c:ident, $($x:expr),*) => {{
                    start();
                    #[allow(unused_mut)]
                    let mut v = build();
                    match own { Own::O => { drop(v.$a($($x),*).take(j).count()); } Own::R => { drop((&v).$b($($x),*).take(j).count()); } Own::W => { drop((&mut v).$c($($x),*).take(j).count()); } }
                    subset(&at($name), requested(m.id), &allowed, false)?;
                }}; }
                op!("map_each", map_each, map_each_ref, map_each_mut, |v| v.id());
                op!("map_path_each", map_path_each, map_path_each_ref, map_path_each_mut, |_, v| v.id());
                op!("fold_each", fold_each, fold_each_ref, fold_each_mut, |_, v| v.id());
                op!("fold_path_each", fold_path_each, fold_path_each_ref, fold_path_each_mut, |_, _, v| v.id());
                op!("prune_each", prune_each, prune_each_ref, prune_each_mut, |_| false);
                op!("prune_path_each", prune_path_each, prune_path_each_ref, prune_path_each_mut, |_, _| false);
                o.eval(&[22, own as u64, j as u64], n >= 2 && j >= 1);
                // a chain, node by node
                start();
                let mut v = build();
                match own {
                    Own::O => { v.into_pipeline().map_trees(|v| v.id()).prune_depth(usize::MAX).take(k).count(); }
                    Own::R => { (&v).into_pipeline_ref().map_trees(|v| v.id()).prune_depth(usize::MAX).take(k).count(); }
                    Own::W => { (&mut v).into_pipeline_mut().map_trees(|v| v.id()).prune_depth(usize::MAX).take(k).count(); }
                }
                subset(&|| format!("{} {:?} collection chain stopped after {} nodes", N::NAME, own, k), requested(m.id), &seen, false)?;
                o.eval(&[23, own as u64, k as u64], k >= 1 && k < total);
            }
            for path in super::paths::probes(c, o, m).into_iter().take(if lite() { 2 } else { 12 }) {
                for t in [0usize, 2] {
                    let mut want = BTreeSet::new();
                    for i in 0..path.len() {
                        match trees[t].at(&path[..i]) { Some(x) => { want.insert(rel(x.id)); } None => break }
                    }
                    let full: Vec<usize> = std::iter::once(t).chain(path.iter().copied()).collect();
                    start();
                    let mut v = build();
                    match own { Own::O => { v.at_path(&full); } Own::R => { (&v).at_path_ref(&full); } Own::W => { (&mut v).at_path_mut(&full); } }
                    subset(&|| format!("{} {:?} collection at_path {:?}", N::NAME, own, full), requested(m.id), &want, true)?;
                    o.eval(&[24, own as u64, t as u64, path.iter().fold(1, |a, x| mix(a, *x as u64))], path.len() >= 2);
                }
            }
        }
        Ok(())
    }
}
dual! {
    fn c19_t / c19_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        let all: BTreeSet<u32> = (0..n as u32).collect();
        let start = || { guard(n); counted::reset(n) };
        for own in OWNS {
            for &ord in ORDS {
                let order: Vec<u32> = m.order(ord).iter().map(|x| x.id).collect();
                for k in super::traverse::points(c, o, n) {
                    // What may have been asked once k elements are out: for top-down orders only
                    // those elements, for the others also the ancestors of the next element, and
                    // (inorder) nothing to the right of it.
                    let mut allowed: BTreeSet<u32> = order[..k.min(n)].iter().copied().collect();
                    if k < n && k > 0 && (ord == Ord::In || ord == Ord::Post) {
                        for i in &order[..k] {
                            allowed.extend(&inf[*i as usize].anc);
                        }
                    }
                    if k >= n { allowed = all.clone(); }
                    // The streaming forms may look at the root before the first element is out.
                    let mut allowed_s = allowed.clone();
                    allowed_s.insert(0);
                    let nt = k >= 1 && k < n;
                    let at = |s: &'static str| move || format!("{} {:?} {:?} {} stopped after {}", N::NAME, own, ord, s, k);
                    start();
                    any!(N, m, own, ord, |it| { take_ids(&mut it, k) });
                    subset(&at("plain"), requested(m.id), &allowed, k > n)?;
                    o.eval(&[0, own as u64, ord as u64, k as u64], nt);
                    start();
                    any!(N, m, own, ord, |it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, k) });
                    subset(&at("with ancestors"), requested(m.id), &allowed_s, k > n)?;
                    o.eval(&[1, own as u64, ord as u64, k as u64], nt);
                    start();
                    any!(N, m, own, ord, |it| { let mut s = it.attach_context(); take_rows(&mut s, k) });
                    subset(&at("with context"), requested(m.id), &allowed_s, k > n)?;
                    o.eval(&[2, own as u64, ord as u64, k as u64], nt);
                    if lite() { continue; }
                    start();
                    any!(N, m, own, ord, |it| { take_ids(&mut it, k); it.leaves().count() });
                    subset(&at("leaves()"), requested(m.id), &all, true)?;
                    start();
                    any!(N, m, own, ord, |it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, k); let mut l = s.leaves(); take_stacks(&mut l, n + 1) });
                    subset(&at("ancestors leaves()"), requested(m.id), &all, true)?;
                    o.eval(&[3, own as u64, ord as u64, k as u64], nt);
                }
            }
            if lite() { continue; }
            // whole-tree operations
            let at = |s: &'static str| move || format!("{} {:?} {}", N::NAME, own, s);
            macro_rules! three { ($a:ident, $b:ident, $c:ident, $($x:expr),*) => {{
                start();
                #[allow(unused_mut)]
                let mut t = N::build(m);
                match own { Own::O => { drop(t.$a($($x),*)); } Own::R => { drop(t.$b($($x),*)); } Own::W => { drop(t.$c($($x),*)); } }
            }}; }
            three!(map, map_ref, map_mut, |v| v.id());
            subset(&at("map"), requested(m.id), &all, true)?;
            three!(map_path, map_path_ref, map_path_mut, |_, v| v.id());
            subset(&at("map_path"), requested(m.id), &all, true)?;
            three!(fold, fold_ref, fold_mut, |_, v| v.id());
            subset(&at("fold"), requested(m.id), &all, true)?;
            three!(fold_path, fold_path_ref, fold_path_mut, |_, _, v| v.id());
            subset(&at("fold_path"), requested(m.id), &all, true)?;
            o.eval(&[4, own as u64], n >= 2);
            for mask in masks(c, o, n).into_iter().step_by(if o.exhaustive { 3 } else { 1 }) {
                let p = |id: u32| mask.hit(id - m.id);
                let mut log = vec![];
                prune_model(m, &p, BIN, &mut log);
                let want: BTreeSet<u32> = log.iter().copied().collect();
                three!(prune, prune_ref, prune_mut, |v| p(v.id()));
                subset(&at("prune"), requested(m.id), &want, true)?;
                three!(prune_path, prune_path_ref, prune_path_mut, |_, v| p(v.id()));
                subset(&at("prune_path"), requested(m.id), &want, true)?;
                o.eval(&[5, own as u64, mask.key()], want.len() < n);
                // lazily: a later stage keeps earlier ones from going below what it removed
                start();
                let mut t = N::build(m);
                match own {
                    Own::O => { t.into_pipeline().map_tree(|v| v.id()).prune(|i| p(*i)).count(); }
                    Own::R => { t.into_pipeline_ref().map_tree(|v| v.id()).prune(|i| p(*i)).count(); }
                    Own::W => { t.into_pipeline_mut().map_tree(|v| v.id()).prune(|i| p(*i)).count(); }
                }
                subset(&at("map then prune"), requested(m.id), &want, true)?;
            }
            for d in 0..=m.depth() + 1 {
                let mut want = BTreeSet::new();
                snap_ids(&depth_model(m, d, BIN), &mut want);
                three!(prune_depth, prune_depth_ref, prune_depth_mut, d);
                subset(&at("prune_depth"), requested(m.id), &want, true)?;
                o.eval(&[6, own as u64, d as u64], want.len() < n);
            }
            for path in super::paths::probes(c, o, m) {
                let mut want = BTreeSet::new();
                for i in 0..path.len() {
                    match m.at(&path[..i]) { Some(x) => { want.insert(x.id); } None => break }
                }
                start();
                let mut t = N::build(m);
                match own { Own::O => { t.at_path(&path); } Own::R => { t.at_path_ref(&path); } Own::W => { t.at_path_mut(&path); } }
                subset(&|| format!("{} {:?} at_path {:?}", N::NAME, own, path), requested(m.id), &want, true)?;
                o.eval(&[7, own as u64, path.iter().fold(1, |a, x| mix(a, *x as u64))], path.len() >= 2);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ endless trees
/// Node `(path code)` of an endless tree: children are made up on request.
pub struct Endless {
    id: u64,
    width: u64,
    seed: u64,
}
impl Endless {
    fn arity(&self) -> u64 {
        1 + mix(self.seed, self.id) % self.width
    }
    fn kid(&self, i: u64) -> Endless {
        Endless { id: mix(self.id, i + 1), width: self.width, seed: self.seed }
    }
}
impl tree_iterators_rs::prelude::OwnedTreeNode for Endless {
    type OwnedValue = u64;
    type OwnedChildren = Vec<Endless>;
    fn get_value_and_children(self) -> (u64, Vec<Endless>) {
        val::work(1);
        let k = (0..self.arity()).map(|i| self.kid(i)).collect();
        (self.id, k)
    }
}
pub struct EndlessB(Endless);
impl tree_iterators_rs::prelude::OwnedBinaryTreeNode for EndlessB {
    type OwnedValue = u64;
    fn get_value_and_children_binary(self) -> (u64, [Option<EndlessB>; 2]) {
        val::work(1);
        let a = self.0.arity();
        (self.0.id, [0, 1].map(|i| (mix(a, self.0.id) % 3 != i).then(|| EndlessB(self.0.kid(i)))))
    }
}
fn endless_ref(seed: u64, width: u64, bin: bool, bfs: bool, k: usize) -> Vec<u64> {
    let mut q = std::collections::VecDeque::new();
    q.push_back(Endless { id: 1, width, seed });
    let mut out = vec![];
    while out.len() < k {
        let x = q.pop_front().unwrap();
        out.push(x.id);
        let kids: Vec<Endless> = if bin {
            let a = x.arity();
            (0..2).filter(|i| mix(a, x.id) % 3 != *i).map(|i| x.kid(i)).collect()
        } else {
            (0..x.arity()).map(|i| x.kid(i)).collect()
        };
        if bfs {
            q.extend(kids);
        } else {
            for y in kids.into_iter().rev() {
                q.push_front(y);
            }
        }
    }
    out
}
fn infinite(c: &Case, o: &mut Obs) -> R {
    use streaming_iterator::StreamingIterator;
    use tree_iterators_rs::prelude::*;
    let seed = mix(c.hash64(), 77);
    let width = 1 + c.num(3) as u64 % 4;
    let k = if o.exhaustive { 12 } else { 20 + c.num(4) % 100 };
    let root = || Endless { id: 1, width, seed };
    guard(40 * k);
    let at = |s: &'static str| move || format!("endless tree (seed {}, width {}), first {} of {}", seed, width, k, s);
    let broot = || EndlessB(root());
    for bin in [false, true] {
        let bfs = endless_ref(seed, width, bin, true, k);
        let pre = endless_ref(seed, width, bin, false, k);
        guard(40 * k);
        let g: Vec<u64> = if bin { broot().bfs().take(k).collect() } else { root().bfs().take(k).collect() };
        ctx(eq("elements", &g, &bfs), at("bfs"))?;
        guard(40 * k);
        let g: Vec<u64> = if bin { broot().dfs_preorder().take(k).collect() } else { root().dfs_preorder().take(k).collect() };
        ctx(eq("elements", &g, &pre), at("preorder"))?;
        guard(40 * k);
        let g: Vec<u64> = if bin { broot().into_pipeline().map_tree(|x| x + 1).take(k).collect() } else { root().into_pipeline().map_tree(|x| x + 1).take(k).collect() };
        ctx(eq("elements", &g, &pre.iter().map(|x| x + 1).collect()), at("pipeline"))?;
        macro_rules! last { ($it:expr) => {{ guard(400 * k); let mut s = $it; let mut v = vec![]; while v.len() < k { match s.next() { Some(a) => v.push(*a.last().unwrap()), None => break } } v }}; }
        macro_rules! lastc { ($it:expr) => {{ guard(400 * k); let mut s = $it; let mut v = vec![]; while v.len() < k { match s.next() { Some(a) => v.push(*a.ancestors().last().unwrap()), None => break } } v }}; }
        let g = if bin { last!(broot().bfs().attach_ancestors()) } else { last!(root().bfs().attach_ancestors()) };
        ctx(eq("elements", &g, &bfs), at("bfs with ancestors"))?;
        let g = if bin { last!(broot().dfs_preorder().attach_ancestors()) } else { last!(root().dfs_preorder().attach_ancestors()) };
        ctx(eq("elements", &g, &pre), at("preorder with ancestors"))?;
        let g = if bin { lastc!(broot().bfs().attach_context()) } else { lastc!(root().bfs().attach_context()) };
        ctx(eq("elements", &g, &bfs), at("bfs with context"))?;
        let g = if bin { lastc!(broot().dfs_preorder().attach_context()) } else { lastc!(root().dfs_preorder().attach_context()) };
        ctx(eq("elements", &g, &pre), at("preorder with context"))?;
        // a depth limit makes an endless tree finite
        let d = c.num(5) % 5;
        fn upto(x: &Endless, d: usize, bin: bool) -> u64 {
            if d == 0 { return 1; }
            let a = x.arity();
            let n = if bin { 2 } else { a };
            1 + (0..n).filter(|i| !bin || mix(a, x.id) % 3 != *i).map(|i| upto(&x.kid(i), d - 1, bin)).sum::<u64>()
        }
        let want = upto(&root(), d, bin);
        guard(10 * want as usize);
        let got = if bin { broot().into_pipeline().prune_depth(d).count() } else { root().into_pipeline().prune_depth(d).count() } as u64;
        ctx(eq("nodes within the depth limit", &got, &want), at("depth-limited pipeline"))?;
        let got = if bin { broot().prune_depth(d).bfs().count() } else { root().prune_depth(d).bfs().count() } as u64;
        ctx(eq("nodes within the depth limit", &got, &want), at("prune_depth"))?;
        o.eval(&[8, bin as u64], k >= 2);
    }
    Ok(())
}

/// Endless in depth and, at most nodes, in width: the children come one by one from an iterator.
pub struct Wide(u64, u64);
#[derive(Clone)]
pub struct WideKids {
    id: u64,
    seed: u64,
    i: u64,
    n: u64,
}
impl Iterator for WideKids {
    type Item = Wide;
    fn next(&mut self) -> Option<Wide> {
        val::work(1);
        (self.i < self.n).then(|| {
            self.i += 1;
            Wide(mix(self.id, self.i), self.seed)
        })
    }
}
impl Wide {
    fn kids(&self) -> WideKids {
        // One to three children, or endlessly many.
        let n = match mix(self.1, self.0) % 5 { x @ 1..=3 => x, _ => u64::MAX };
        WideKids { id: self.0, seed: self.1, i: 0, n }
    }
}
impl tree_iterators_rs::prelude::OwnedTreeNode for Wide {
    type OwnedValue = u64;
    type OwnedChildren = WideKids;
    fn get_value_and_children(self) -> (u64, WideKids) {
        val::work(1);
        (self.0, self.kids())
    }
}
fn wide_ref(seed: u64, bfs: bool, k: usize, skip: &dyn Fn(u64) -> bool, depth: usize) -> Vec<u64> {
    let root = Wide(1, seed);
    let mut q = std::collections::VecDeque::from([(0usize, root.kids())]);
    let mut out = vec![];
    if k > 0 && !skip(root.0) { out.push(root.0); } else { return out; }
    while out.len() < k {
        let Some((d, it)) = (if bfs { q.front_mut() } else { q.back_mut() }) else { break };
        let d = *d + 1;
        match (if d > depth { None } else { it.next() }) {
            Some(x) if skip(x.0) => {}
            Some(x) => {
                out.push(x.0);
                q.push_back((d, x.kids()));
            }
            None => { if bfs { q.pop_front(); } else { q.pop_back(); } }
        }
    }
    out
}
fn endless_width(c: &Case, o: &mut Obs) -> R {
    use streaming_iterator::StreamingIterator;
    use tree_iterators_rs::prelude::*;
    let seed = mix(c.hash64(), 78);
    let k = if o.exhaustive { 10 } else { 20 + c.num(4) % 60 };
    let root = || Wide(1, seed);
    let at = |s: &'static str| move || format!("endlessly wide tree (seed {}), first {} of {}", seed, k, s);
    let no = |_: u64| false;
    let bfs = wide_ref(seed, true, k, &no, usize::MAX);
    let pre = wide_ref(seed, false, k, &no, usize::MAX);
    macro_rules! same { ($what:literal, $want:expr, $it:expr) => {{ guard(200 * k); let g: Vec<u64> = $it.take(k).collect(); ctx(eq("elements", &g, $want), at($what))?; }}; }
    same!("bfs", &bfs, root().bfs());
    same!("preorder", &pre, root().dfs_preorder());
    same!("chain", &pre, root().into_pipeline().map_tree(|x| x));
    same!("chain with paths", &pre, root().into_pipeline().map_path(|_, x| x).prune_path(|_, _| false));
    let cut = |x: u64| x != 1 && mix(x, 5) % 4 == 0;
    let kept = wide_ref(seed, false, k, &cut, usize::MAX);
    same!("prune", &kept, root().into_pipeline().prune(|x| cut(*x)));
    same!("prune_path", &kept, root().into_pipeline().prune_path(|_, x| cut(*x)));
    let d = 1 + c.num(5) % 4;
    let flat = wide_ref(seed, false, k, &no, d);
    same!("prune_depth", &flat, root().into_pipeline().prune_depth(d));
    macro_rules! streamed { ($what:literal, $want:expr, $it:expr, |$a:ident| $e:expr) => {{ guard(400 * k); let mut s = $it; let mut v = vec![]; while v.len() < k { match s.next() { Some($a) => v.push(*$e.last().unwrap()), None => break } } ctx(eq("elements", &v, $want), at($what))?; }}; }
    streamed!("bfs with ancestors", &bfs, root().bfs().attach_ancestors(), |a| a);
    streamed!("preorder with ancestors", &pre, root().dfs_preorder().attach_ancestors(), |a| a);
    streamed!("bfs with context", &bfs, root().bfs().attach_context(), |a| a.ancestors());
    streamed!("preorder with context", &pre, root().dfs_preorder().attach_context(), |a| a.ancestors());
    o.eval(&[30], k >= 2);
    let path: Vec<usize> = (0..1 + c.num(6) % 4).map(|i| c.num(7 + i) % 40).collect();
    let mut want = Some(root());
    for i in &path { want = want.and_then(|x| x.kids().nth(*i)); }
    guard(200 * path.len());
    ctx(eq("node", &root().at_path(&path).map(|x| x.0), &want.map(|x| x.0)), || format!("endlessly wide tree (seed {}) at_path {:?}", seed, path))?;
    o.eval(&[31, path.iter().fold(1, |a, x| mix(a, *x as u64))], path.len() >= 2);
    Ok(())
}
/// A collection that never ends.
pub struct ForeverT(u64);
pub struct ForeverB(u64);
fn small_t(seed: u64, i: u64) -> tree_iterators_rs::prelude::Tree<u64> {
    let h = mix(seed, i);
    let leaf = |value| tree_iterators_rs::prelude::Tree { value, children: vec![] };
    tree_iterators_rs::prelude::Tree { value: h, children: (0..h % 4).map(|k| { let mut l = leaf(mix(h, k)); if mix(h, 9 + k) % 3 == 0 { l.children.push(leaf(mix(h, 20 + k))); } l }).collect() }
}
fn small_b(seed: u64, i: u64) -> tree_iterators_rs::prelude::BinaryTree<u64> {
    let h = mix(seed, i);
    let leaf = |value| tree_iterators_rs::prelude::BinaryTree { value, left: None, right: None };
    let kid = |k: u64| (mix(h, k) % 3 > 0).then(|| { let mut l = leaf(mix(h, k)); if mix(h, 9 + k) % 3 == 0 { l.right = Some(Box::new(leaf(mix(h, 20 + k)))); } Box::new(l) });
    tree_iterators_rs::prelude::BinaryTree { value: h, left: kid(1), right: kid(2) }
}
macro_rules! forever { ($t:ident, $node:ident, $make:ident, $tr:ident, $it:ident) => {
    pub struct $it(u64, u64);
    impl Iterator for $it {
        type Item = tree_iterators_rs::prelude::$node<u64>;
        fn next(&mut self) -> Option<Self::Item> {
            val::work(1);
            self.1 += 1;
            Some($make(self.0, self.1))
        }
    }
    impl IntoIterator for $t {
        type Item = tree_iterators_rs::prelude::$node<u64>;
        type IntoIter = $it;
        fn into_iter(self) -> $it { $it(self.0, 0) }
    }
    impl tree_iterators_rs::prelude::$tr<tree_iterators_rs::prelude::$node<u64>> for $t {}
}; }
forever!(ForeverT, Tree, small_t, OwnedIntoIteratorOfTrees, ForeverItT);
forever!(ForeverB, BinaryTree, small_b, OwnedIntoIteratorOfBinaryTrees, ForeverItB);
fn endless_collection(c: &Case, o: &mut Obs) -> R {
    use streaming_iterator::StreamingIterator;
    use tree_iterators_rs::prelude::*;
    let seed = mix(c.hash64(), 79);
    let k = if o.exhaustive { 8 } else { 10 + c.num(4) % 40 };
    macro_rules! both { ($forever:ident, $make:ident) => {{
        // What the endless collection gives is what a long enough finite one gives.
        let finite = || -> Vec<_> { (1..=2 * k as u64 + 2).map(|i| $make(seed, i)).collect() };
        macro_rules! same { ($what:literal, |$v:ident| $e:expr) => {{
            guard(100 * k);
            let want: Vec<_> = { let $v = finite(); $e.take(k).collect() };
            let got: Vec<_> = { let $v = $forever(seed); $e.take(k).collect() };
            ctx(eq("elements", &got, &want), || format!("endless collection {} (seed {}), first {} of {}", stringify!($forever), seed, k, $what))?;
        }}; }
        same!("bfs_each", |v| v.bfs_each());
        same!("dfs_preorder_each", |v| v.dfs_preorder_each());
        same!("dfs_postorder_each", |v| v.dfs_postorder_each());
        same!("chain", |v| v.into_pipeline().map_trees(|x| x + 1).prune(|x| x % 7 == 0));
        same!("chain with paths", |v| v.into_pipeline().map_path(|p, x| (p.to_vec(), x)).prune_path(|p, _| p[0] % 3 == 1));
        same!("trees", |v| v.into_pipeline().prune(|x| x % 5 == 0).trees());
        same!("map_each", |v| v.map_each(|x| x + 1));
        same!("map_path_each", |v| v.map_path_each(|p, x| (p.to_vec(), x)));
        same!("prune_each", |v| v.prune_each(|x| x % 5 == 0));
        same!("prune_path_each", |v| v.prune_path_each(|p, _| p.len() == 1 && p[0] % 4 == 2));
        same!("prune_depth", |v| v.into_pipeline().prune_depth(1).trees());
        same!("fold_each", |v| v.fold_each(|_, x| x));
        same!("fold_path_each", |v| v.fold_path_each(|_, p, x| (p.to_vec(), x)));
        macro_rules! streamed { ($what:literal, |$v:ident| $e:expr) => {{
            guard(100 * k);
            let rows = |mut left: usize, f: &mut dyn FnMut() -> Option<(Vec<usize>, u64)>| { let mut out = vec![]; while left > 0 { left -= 1; out.extend(f()); } out };
            let want = { let $v = finite(); let mut s = $e.attach_context(); rows(k, &mut || s.next().map(|c| (c.path().to_vec(), *c.ancestors().last().unwrap()))) };
            let got = { let $v = $forever(seed); let mut s = $e.attach_context(); rows(k, &mut || s.next().map(|c| (c.path().to_vec(), *c.ancestors().last().unwrap()))) };
            ctx(eq("rows", &got, &want), || format!("endless collection {} (seed {}), first {} of {} with context", stringify!($forever), seed, k, $what))?;
        }}; }
        streamed!("bfs_each", |v| v.bfs_each());
        streamed!("dfs_preorder_each", |v| v.dfs_preorder_each());
        streamed!("dfs_postorder_each", |v| v.dfs_postorder_each());
        for path in [vec![c.num(6) % k], vec![c.num(6) % k, 0], vec![c.num(7) % k, 1, 0]] {
            guard(100 * k);
            ctx(eq("node", &$forever(seed).at_path(&path), &finite().at_path(&path)), || format!("endless collection {} (seed {}) at_path {:?}", stringify!($forever), seed, path))?;
        }
    }}; }
    both!(ForeverT, small_t);
    both!(ForeverB, small_b);
    o.eval(&[32], k >= 2);
    Ok(())
}

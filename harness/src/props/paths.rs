//! C07: looking nodes up by path.
use super::*;

fn addr<X>(x: &X) -> usize {
    x as *const X as usize
}
/// The node of the real tree at a path the model says is valid, reached by direct field access.
fn walk<'a>(p: &'a dyn Peek, path: &[usize]) -> &'a dyn Peek {
    match path.split_first() {
        None => p,
        Some((&i, r)) => walk(p.pkids().swap_remove(i).unwrap(), r),
    }
}
fn peek_addr(p: &dyn Peek) -> usize {
    p as *const dyn Peek as *const u8 as usize
}
/// Valid paths and near misses.
pub fn probes(c: &Case, o: &Obs, m: &M) -> Vec<Vec<usize>> {
    let inf = infos(m);
    let n = inf.len();
    let mut out = vec![];
    let huge = n > 5000;
    let picks: Vec<usize> = if o.exhaustive || n <= 10 {
        (0..n).collect()
    } else if huge {
        vec![n - 1, c.num(0) % n, 1 + n / 2]
    } else { (0..8).map(|i| c.num(i) % n).collect() };
    for i in picks {
        let f = &inf[i];
        out.push(f.path.clone());
        let w = f.kids.len();
        // One step too far, holes of binary nodes, absurd indexes.
        for x in [w, w + 1, 2, usize::MAX, usize::MAX - 1].into_iter().chain((0..w).filter(|&k| !f.kids[k])).take(if huge { 1 } else { 1000 }) {
            let mut p = f.path.clone();
            p.push(x);
            out.push(p.clone());
            p.push(0);
            out.push(p);
        }
        // Perturb one element of a valid path.
        for (k, x) in f.path.iter().enumerate() {
            let alt = [x + 1, x.wrapping_sub(1), c.num(k) % 5];
            let mut p = f.path.clone();
            p[k] = alt[(i + k) % 3];
            out.push(p);
            // The same step as far as a narrower integer type can tell.
            let mut p = f.path.clone();
            p[k] = x.wrapping_add(1 << [8, 16, 31, 32, 48, 63][(i + k + c.num(9)) % 6]);
            out.push(p);
            if k + 1 == f.path.len() {
                let mut p = f.path.clone();
                p[k] = !*x;
                out.push(p);
            }
        }
        // Two equal-looking steps at once, and a path that goes on after a valid one twice over.
        if f.path.len() >= 2 {
            let mut p = f.path.clone();
            p[0] = p[0].wrapping_add(1 << 32);
            p[1] = p[1].wrapping_sub(1 << 32);
            out.push(p);
            let mut p = f.path.clone();
            p.extend_from_slice(&f.path);
            out.push(p);
            let mut p = f.path.clone();
            p.reverse();
            out.push(p);
        }
        let mut p = f.path.clone();
        p.pop();
        out.push(p);
    }
    if let Some(p) = out.iter().max_by_key(|p| p.len()) {
        // Much longer than the tree is deep.
        out.push(p.iter().copied().chain([0; 70]).collect());
    }
    out.push((0..6).map(|i| c.num(i + 8) % 3).collect());
    out.sort();
    out.dedup();
    if lite() {
        let k = 1 + out.len() / 10;
        out = out.into_iter().skip(c.num(2) % k).step_by(k).collect();
    }
    out
}

pub fn c07(c: &Case, o: &mut Obs) -> R {
    if c.forest.len() == 1 {
        let m = &c.forest[0];
        flavours!(c, c07_t / c07_b(c, m, o));
    }
    flavours!(c, c07c_t / c07c_b(c, o));
    Ok(())
}
dual! {
    fn c07_t / c07_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let mut whole = N::build(m);
        for path in probes(c, o, m) {
            let want = m.at(&path);
            let want_snap = want.map(|w| snap_model(w, &|_| 0));
            let at = |s: &str| format!("{} {} {:?}", N::NAME, s, path);
            let key = path.iter().fold(3, |a, &x| mix(a, x as u64));
            guard(m.size());
            let got = N::build(m).at_path(&path).map(|n| snap(&n));
            ctx(eq("node", &got, &want_snap), || at("at_path"))?;
            o.eval(&[0, N::NAME.len() as u64, key], path.len() >= 2);

            let expect = want.map(|_| peek_addr(walk(&whole, &path)));
            guard(m.size());
            let got = whole.at_path_ref(&path);
            ctx(eq("node", &got.map(|n| snap(n)), &want_snap), || at("at_path_ref"))?;
            ctx(eq("address of the node", &got.map(addr), &expect), || at("at_path_ref"))?;
            o.eval(&[1, N::NAME.len() as u64, key], path.len() >= 2);

            guard(m.size());
            let got = whole.at_path_mut(&path).map(|n| (snap(n), addr(n)));
            ctx(eq("node", &got.as_ref().map(|x| x.0.clone()), &want_snap), || at("at_path_mut"))?;
            ctx(eq("address of the node", &got.map(|x| x.1), &expect), || at("at_path_mut"))?;
            if let (Some(n), Some(w)) = (whole.at_path_mut(&path), want) {
                n.get_value_and_children_iter_mut().0.write(w.id + 7);
                ctx(eq("tree after writing through the node", &snap(&whole), &snap_model(m, &|i| if i == w.id { i + 7 } else { 0 })), || at("at_path_mut"))?;
                whole.at_path_mut(&path).ok_or_else(|| at("at_path_mut second lookup"))?.get_value_and_children_iter_mut().0.write(0);
            }
            o.eval(&[2, N::NAME.len() as u64, key], path.len() >= 2);
        }
        Ok(())
    }
}
/// Own collection type implementing the collection traits.
pub struct Bag<T>(pub Vec<T>);
impl<T> IntoIterator for Bag<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
/// The same, but its iterator can only go forward and does not know its length.
pub struct Sieve<T>(pub Vec<T>);
impl<T> IntoIterator for Sieve<T> {
    type Item = T;
    type IntoIter = Blind<std::vec::IntoIter<T>>;
    fn into_iter(self) -> Self::IntoIter {
        Blind(self.0.into_iter())
    }
}
mod bag_t {
    use tree_iterators_rs::prelude::*;
    impl<T: OwnedTreeNode> OwnedIntoIteratorOfTrees<T> for super::Bag<T> {}
    impl<'a, T: BorrowedTreeNode<'a>> BorrowedIntoIteratorOfTrees<'a, T> for super::Bag<&'a T> {}
    impl<'a, T: MutBorrowedTreeNode<'a>> MutBorrowedIntoIteratorOfTrees<'a, T> for super::Bag<&'a mut T> {}
    impl<T: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<T> for super::Bag<T> {}
    impl<'a, T: BorrowedBinaryTreeNode<'a>> BorrowedIntoIteratorOfBinaryTrees<'a, T> for super::Bag<&'a T> {}
    impl<'a, T: MutBorrowedBinaryTreeNode<'a>> MutBorrowedIntoIteratorOfBinaryTrees<'a, T> for super::Bag<&'a mut T> {}
    impl<T: OwnedTreeNode> OwnedIntoIteratorOfTrees<T> for super::Sieve<T> {}
    impl<'a, T: BorrowedTreeNode<'a>> BorrowedIntoIteratorOfTrees<'a, T> for super::Sieve<&'a T> {}
    impl<'a, T: MutBorrowedTreeNode<'a>> MutBorrowedIntoIteratorOfTrees<'a, T> for super::Sieve<&'a mut T> {}
    impl<T: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<T> for super::Sieve<T> {}
    impl<'a, T: BorrowedBinaryTreeNode<'a>> BorrowedIntoIteratorOfBinaryTrees<'a, T> for super::Sieve<&'a T> {}
    impl<'a, T: MutBorrowedBinaryTreeNode<'a>> MutBorrowedIntoIteratorOfBinaryTrees<'a, T> for super::Sieve<&'a mut T> {}
}
dual! {
    fn c07c_t / c07c_b<N>(c: &Case, o: &mut Obs) -> R {
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        let mut whole = build();
        let mut paths: Vec<Vec<usize>> = vec![vec![], vec![c.forest.len()], vec![c.forest.len(), 0], vec![usize::MAX]];
        let t = c.forest.len();
        for (i, m) in c.forest.iter().enumerate().filter(|(i, _)| t < 50 || [0, 1, 255, 256, t / 2, t - 1].contains(i)) {
            for p in probes(c, o, m).into_iter().take(if o.exhaustive { 1000 } else { 40 }) {
                let mut q = vec![i];
                q.extend(p);
                paths.push(q);
            }
        }
        let total = c.nodes();
        for path in paths {
            let want = path.split_first().and_then(|(i, r)| c.forest.get(*i)?.at(r));
            let want_snap = want.map(|w| snap_model(w, &|_| 0));
            let expect = want.map(|_| peek_addr(walk(&whole[path[0]], &path[1..])));
            let at = |s: &str| format!("{} collection {} {:?}", N::NAME, s, path);
            let key = path.iter().fold(4, |a, &x| mix(a, x as u64));
            guard(total);
            ctx(eq("node", &build().at_path(&path).map(|n| snap(&n)), &want_snap), || at("at_path"))?;
            guard(total);
            ctx(eq("node", &Bag(build()).at_path(&path).map(|n| snap(&n)), &want_snap), || at("at_path (custom collection)"))?;
            guard(total);
            ctx(eq("node", &Sieve(build()).at_path(&path).map(|n| snap(&n)), &want_snap), || at("at_path (forward-only collection)"))?;
            guard(total);
            let got = Sieve(whole.iter().collect::<Vec<_>>()).at_path_ref(&path).map(addr);
            ctx(eq("address of the node", &got, &expect), || at("at_path_ref (forward-only collection)"))?;
            let got = Sieve(whole.iter_mut().collect::<Vec<_>>()).at_path_mut(&path).map(|n| addr(n));
            ctx(eq("address of the node", &got, &expect), || at("at_path_mut (forward-only collection)"))?;
            guard(total);
            let got = (&whole).at_path_ref(&path).map(addr);
            ctx(eq("address of the node", &got, &expect), || at("at_path_ref"))?;
            let got = whole.iter().at_path_ref(&path).map(addr);
            ctx(eq("address of the node", &got, &expect), || at("at_path_ref (slice iterator)"))?;
            guard(total);
            let got = (&mut whole).at_path_mut(&path).map(|n| addr(n));
            ctx(eq("address of the node", &got, &expect), || at("at_path_mut"))?;
            let got = whole.iter_mut().at_path_mut(&path).map(|n| addr(n));
            ctx(eq("address of the node", &got, &expect), || at("at_path_mut (slice iterator)"))?;
            o.eval(&[3, N::NAME.len() as u64, key], path.len() >= 2);
        }
        Ok(())
    }
}

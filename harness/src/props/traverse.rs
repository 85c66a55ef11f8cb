//! C01-C06: what the iterators yield.
use super::*;
use streaming_iterator::StreamingIterator;

fn want_ids(m: &M, o: Ord) -> Vec<u32> {
    m.order(o).iter().map(|m| m.id).collect()
}
fn leaf_ids(m: &M, o: Ord) -> Vec<u32> {
    let o = if o == Ord::Bfs { Ord::Bfs } else { Ord::Post };
    m.order(o).iter().filter(|m| m.is_leaf()).map(|m| m.id).collect()
}
fn info_of<'a>(inf: &'a [Info], m: &M, id: u32) -> &'a Info {
    &inf[(id - m.id) as usize]
}

// ------------------------------------------------------------------ C01 plain traversals
pub fn c01(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Plain])?;
    let m = &c.forest[0];
    flavours!(c, c01_t / c01_b(c, m, o));
    super::coll::beside(c, o, false)
}
dual! {
    fn c01_t / c01_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        // Every way of driving the iterator on the smaller trees, two of them on the others.
        let small = o.exhaustive && n <= 6;
        for own in OWNS {
            for &ord in ORDS {
                let want = want_ids(m, ord);
                let h = mix(c.hash64(), own as u64 * 4 + ord as u64);
                for way in ways(small, h) {
                    guard(n);
                    let r = any!(N, m, own, ord, |it| consume(it, |x| x.id(), &want, way, (h >> 40) as usize));
                    o.eval(&[own as u64, ord as u64, way, N::NAME.len() as u64], n >= 2);
                    ctx(r, || format!("{} {:?} {:?}", N::NAME, own, ord))?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C03 ancestors
pub fn c03(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Ancestors])?;
    let m = &c.forest[0];
    flavours!(c, c03_t / c03_b(c, m, o));
    Ok(())
}
dual! {
    fn c03_t / c03_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let inf = infos(m);
        for own in OWNS {
            for &ord in ORDS {
                let want: Vec<Vec<u32>> = want_ids(m, ord).iter().map(|&i| info_of(&inf, m, i).anc.clone()).collect();
                let h = mix(c.hash64(), own as u64 * 4 + ord as u64);
                let all = o.exhaustive && m.size() <= 6;
                for way in stream_ways(all, h) {
                    guard(m.size());
                    let r = any!(N, m, own, ord, |it| consume_stream(it.attach_ancestors(), |s| s.iter().map(|x| x.id()).collect(), &want, way, (h >> 40) as usize));
                    o.eval(&[own as u64, ord as u64, way, N::NAME.len() as u64], m.depth() >= 2);
                    ctx(r, || format!("ancestor stacks {} {:?} {:?}", N::NAME, own, ord))?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C04 context
pub fn c04(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Contexts])?;
    let m = &c.forest[0];
    flavours!(c, c04_t / c04_b(c, m, o));
    super::coll::beside(c, o, true)?;
    if flavour_on(1, 6) {
        kept_contexts(c, m, o)?;
    }
    Ok(())
}
/// Contexts can be cloned and kept: they go on showing the step they were taken at.
fn kept_contexts(c: &Case, m: &M, o: &mut Obs) -> R {
    use tree_iterators_rs::prelude::{BinaryTree, Tree};
    let inf = infos(m);
    let n = m.size();
    if n > 5000 {
        return Ok(());
    }
    let want = |ord: Ord, kids: bool| -> Vec<Row> {
        m.order(ord).iter().map(|x| {
            let f = info_of(&inf, m, x.id);
            Row { path: f.path.clone(), anc: f.anc.clone(), kids: kids.then(|| flat_of(x)) }
        }).collect()
    };
    macro_rules! kept {
        ($ord:expr, $kids:expr, $what:expr, $e:expr) => {{
            guard(n * 4);
            let all: R<Vec<Row>> = $e.iter().map(|x| row(x, $kids)).collect();
            o.eval(&[90, $ord as u64, $kids as u64, $what.len() as u64], m.depth() >= 2);
            ctx(eq("contexts kept till the end", &all?, &want($ord, $kids)), || format!("{} {:?}", $what, $ord))?;
        }};
    }
    if c.bin {
        let t = <BinaryTree<V> as BN>::build(m);
        for &ord in &B_ORDS {
            kept!(ord, true, "BinaryTree by reference", crate::drive::b_ref!(t, ord, |it| it.attach_context().cloned().take(n + 2).collect::<Vec<_>>()));
        }
    } else {
        let t = <Tree<V> as TN>::build(m);
        for &ord in &T_ORDS {
            kept!(ord, true, "Tree by reference", crate::drive::t_ref!(t, ord, |it| it.attach_context().cloned().take(n + 2).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
dual! {
    fn c04_t / c04_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let inf = infos(m);
        for own in OWNS {
            for &ord in ORDS {
                // Known finding KF-1: borrowed/mut postorder contexts duplicate the children
                // collection bitwise, which corrupts memory when that collection owns any.
                if N::HEAP_KIDS && ord == Ord::Post && own != Own::O {
                    continue;
                }
                // The docs: children are unavailable in owned inorder/postorder contexts.
                let kids = !(own == Own::O && (ord == Ord::In || ord == Ord::Post));
                // A mutable pre/in/postorder/BFS context shows the children collection itself.
                let want: Vec<Row> = m.order(ord).iter().map(|x| {
                    let f = info_of(&inf, m, x.id);
                    Row { path: f.path.clone(), anc: f.anc.clone(), kids: kids.then(|| flat_of(x)) }
                }).collect();
                guard(m.size());
                let got = any!(N, m, own, ord, |it| { let mut a = it.attach_context(); rows(&mut a, m.size() + 2, kids) });
                let got = got.map_err(|e| format!("{} {:?} {:?}: {}", N::NAME, own, ord, e))?;
                o.eval(&[own as u64, ord as u64, N::NAME.len() as u64], m.depth() >= 2);
                ctx(eq("contexts", &got, &want), || format!("{} {:?} {:?}", N::NAME, own, ord))?;
                let h = mix(c.hash64(), own as u64 * 4 + ord as u64);
                let all = o.exhaustive && m.size() <= 6;
                for way in stream_ways(all, h).into_iter().filter(|w| *w > 0 && !lite()) {
                    guard(m.size());
                    let r = any!(N, m, own, ord, |it| consume_stream(it.attach_context(), |s| row(s, kids).unwrap(), &want, way, (h >> 40) as usize));
                    o.eval(&[own as u64, ord as u64, way, N::NAME.len() as u64], m.depth() >= 2);
                    ctx(r, || format!("contexts {} {:?} {:?}", N::NAME, own, ord))?;
                }
            }
        }
        Ok(())
    }
}

/// Switch points tried: all of them for small trees, else those the case's numbers pick.
pub fn id_set(ids: &[u32]) -> std::collections::HashSet<u32> {
    ids.iter().copied().collect()
}
pub fn points(c: &Case, o: &Obs, n: usize) -> Vec<usize> {
    if lite() {
        let mut v = vec![c.num(0) % (n + 1), (c.num(1) % (n + 1)).max(1)];
        v.dedup();
        v
    } else if o.exhaustive || n <= 12 {
        (0..=n + 1).collect()
    } else {
        let mut v: Vec<usize> = (0..6).map(|i| c.num(i) % (n + 2)).collect();
        v.extend([0, 1, n, n + 1]);
        v.sort_unstable();
        v.dedup();
        v
    }
}

// ------------------------------------------------------------------ C05 leaves() at any point
pub fn c05(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Leaves])?;
    let m = &c.forest[0];
    flavours!(c, c05_t / c05_b(c, m, o));
    Ok(())
}
dual! {
    fn c05_t / c05_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        for own in OWNS {
            for &ord in ORDS {
                let all = want_ids(m, ord);
                for k in points(c, o, n) {
                    guard(m.size());
                    let (seen, got) = any!(N, m, own, ord, |it| {
                        let seen = take_ids(&mut it, k);
                        let l = ids(it.leaves(), n + 2);
                        (seen, l)
                    });
                    let before = id_set(&all[..k.min(n)]);
                    let want: Vec<u32> = leaf_ids(m, ord).into_iter().filter(|i| !before.contains(i)).collect();
                    o.eval(&[own as u64, ord as u64, N::NAME.len() as u64, k as u64], k >= 1 && want.len() >= 1);
                    let at = || format!("{} {:?} {:?}: after {} next() calls", N::NAME, own, ord, k);
                    ctx(eq("elements before", &seen, &all[..k.min(n)].to_vec()), at)?;
                    let got = got.map_err(|e| format!("{}: leaves(): {}", at(), e))?;
                    ctx(eq("leaves()", &got, &want), at)?;
                    if lite() { continue; }
                    let h = mix(c.hash64(), (own as u64 * 4 + ord as u64) * 64 + k as u64);
                    guard(n);
                    let r = any!(N, m, own, ord, |it| { take_ids(&mut it, k); consume(it.leaves(), |x| x.id(), &want, h % WAYS, (h >> 40) as usize) });
                    o.eval(&[own as u64, ord as u64, N::NAME.len() as u64, k as u64, h % WAYS], k >= 1 && want.len() >= 1);
                    ctx(r, || format!("{}: leaves()", at()))?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C06 ancestors + leaves() at any point
pub fn c06(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::AncestorLeaves])?;
    let m = &c.forest[0];
    flavours!(c, c06_t / c06_b(c, m, o));
    Ok(())
}
dual! {
    fn c06_t / c06_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        for own in OWNS {
            for &ord in ORDS {
                let all = want_ids(m, ord);
                for k in points(c, o, n) {
                    guard(m.size());
                    let (seen, got) = any!(N, m, own, ord, |it| {
                        let mut a = it.attach_ancestors();
                        let seen = take_stacks(&mut a, k);
                        let mut l = a.leaves();
                        let l = stacks(&mut l, n + 2);
                        (seen, l)
                    });
                    let st = |i: &u32| info_of(&inf, m, *i).anc.clone();
                    let before = id_set(&all[..k.min(n)]);
                    let want: Vec<Vec<u32>> = leaf_ids(m, ord).iter().filter(|i| !before.contains(i)).map(st).collect();
                    o.eval(&[own as u64, ord as u64, N::NAME.len() as u64, k as u64], k >= 1 && want.len() >= 1);
                    let at = || format!("{} {:?} {:?}: after {} advances", N::NAME, own, ord, k);
                    ctx(eq("stacks before", &seen, &all[..k.min(n)].iter().map(st).collect()), at)?;
                    let got = got.map_err(|e| format!("{}: leaves(): {}", at(), e))?;
                    ctx(eq("ancestor stacks of leaves()", &got, &want), at)?;
                    if lite() { continue; }
                    let h = mix(c.hash64(), (own as u64 * 4 + ord as u64) * 64 + k as u64);
                    guard(n);
                    let r = any!(N, m, own, ord, |it| { let mut a = it.attach_ancestors(); take_stacks(&mut a, k); consume_stream(a.leaves(), |s| s.iter().map(|x| x.id()).collect(), &want, h % STREAM_WAYS, (h >> 40) as usize) });
                    o.eval(&[own as u64, ord as u64, N::NAME.len() as u64, k as u64, h % STREAM_WAYS], k >= 1 && want.len() >= 1);
                    ctx(r, || format!("{}: leaves()", at()))?;
                }
            }
        }
        Ok(())
    }
}
#[allow(unused)]
fn _unused(s: &mut dyn FnMut()) {
    fn f<T: StreamingIterator>(_: T) {}
}

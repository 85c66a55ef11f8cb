//! C09-C11: map / fold / prune combinators on single trees.
use super::*;

/// Reference prune. `log` records the closure calls in order; children of pruned nodes are not
/// looked at. Collection children are compacted, binary slots keep their position.
pub fn prune_model(m: &M, p: &dyn Fn(u32) -> bool, bin: bool, log: &mut Vec<u32>) -> Option<Snap> {
    log.push(m.id);
    if p(m.id) {
        return None;
    }
    let mut kids = vec![];
    for k in &m.kids {
        let r = k.as_ref().and_then(|k| prune_model(k, p, bin, log));
        if bin || r.is_some() {
            kids.push(r);
        }
    }
    Some(Snap { id: m.id, mark: 0, kids })
}
pub fn depth_model(m: &M, d: usize, bin: bool) -> Snap {
    let mut kids = vec![];
    for k in &m.kids {
        let r = k.as_ref().filter(|_| d > 0).map(|k| depth_model(k, d - 1, bin));
        if bin || r.is_some() {
            kids.push(r);
        }
    }
    Snap { id: m.id, mark: 0, kids }
}
pub fn kept_ids(s: &Option<Snap>, out: &mut Vec<u32>) {
    if let Some(s) = s {
        out.push(s.id);
        for k in &s.kids {
            kept_ids(k, out);
        }
    }
}
/// `f(id)` written into the result of a mutable pipeline must land on exactly the kept nodes.
pub fn marked_only(kept: &[u32]) -> impl Fn(u32) -> u32 + '_ {
    let set: std::collections::HashSet<u32> = kept.iter().copied().collect();
    move |id| if set.contains(&id) { id + 7 } else { 0 }
}
pub fn sorted<T: std::cmp::Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn h(id: u32) -> u32 {
    id.wrapping_mul(2654435761) >> 8
}

pub fn shifted(m: &M, by: u32) -> M {
    M { id: m.id + by, kids: m.kids.iter().map(|k| k.as_ref().map(|k| shifted(k, by))).collect() }
}
/// The tree, a lone node, the tree again: with ids in sequence.
pub fn thrice(m: &M, bin: bool) -> [M; 3] {
    let n = m.size() as u32;
    [m.clone(), M { id: m.id + n, kids: if bin { vec![None, None] } else { vec![] } }, shifted(m, n + 1)]
}
/// Every node's path with the position of its tree in front, in preorder.
fn coll_paths(trees: &[M]) -> Vec<(Vec<usize>, u32)> {
    trees.iter().enumerate().flat_map(|(i, t)| {
        let inf = infos(t);
        t.order(Ord::Pre).into_iter().map(move |x| {
            let mut p = vec![i];
            p.extend(&inf[(x.id - t.id) as usize].path);
            (p, x.id)
        }).collect::<Vec<_>>()
    }).collect()
}
fn ph(p: &[usize]) -> u32 {
    p.iter().fold(17u32, |a, &x| a.wrapping_mul(31).wrapping_add(x as u32 + 1))
}

// ------------------------------------------------------------------ C09 map / map_path / cloned
pub fn c09(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Map])?;
    let m = &c.forest[0];
    flavours!(c, c09_t / c09_b(m, o));
    if !lite() { flavours!(c, c09c_t / c09c_b(m, o)); }
    Ok(())
}
dual! {
    /// The same over a collection of trees.
    fn c09c_t / c09c_b<N>(m: &M, o: &mut Obs) -> R {
        let trees = thrice(m, BIN);
        let n = 2 * m.size() + 1;
        let paths = coll_paths(&trees);
        let ids: Vec<u32> = paths.iter().map(|x| x.1).collect();
        let want: Vec<Snap> = trees.iter().map(|t| snap_model(t, &h)).collect();
        let build = || -> Vec<N> { trees.iter().map(N::build).collect() };
        for own in OWNS {
            let at = |what: &str| format!("{} {:?} collection {}", N::NAME, own, what);
            guard(2 * n);
            let mut log = vec![];
            let mut v = build();
            let f = |log: &mut Vec<u32>, id: u32| { val::work(1); log.push(id); W { id, mark: h(id) } };
            let got: Vec<Snap> = match own {
                Own::O => v.map_each(|v| f(&mut log, v.id())).map(|t| snap(&t)).collect(),
                Own::R => (&v).map_each_ref(|v| f(&mut log, v.id())).map(|t| snap(&t)).collect(),
                Own::W => (&mut v).map_each_mut(|v| f(&mut log, v.id())).map(|t| snap(&t)).collect(),
            };
            o.eval(&[20 + own as u64, 0, N::NAME.len() as u64], n >= 4);
            ctx(eq("mapped trees", &got, &want), || at("map_each"))?;
            ctx(eq("closure calls", &sorted(log), &ids), || at("map_each"))?;
            guard(2 * n);
            let mut log = vec![];
            let mut v = build();
            let f = |log: &mut Vec<(Vec<usize>, u32)>, p: &[usize], id: u32| { val::work(1); log.push((p.to_vec(), id)); W { id, mark: h(id) } };
            let got: Vec<Snap> = match own {
                Own::O => v.map_path_each(|p: &[usize], v| f(&mut log, p, v.id())).map(|t| snap(&t)).collect(),
                Own::R => (&v).map_path_each_ref(|p: &[usize], v| f(&mut log, p, v.id())).map(|t| snap(&t)).collect(),
                Own::W => (&mut v).map_path_each_mut(|p: &[usize], v| f(&mut log, p, v.id())).map(|t| snap(&t)).collect(),
            };
            o.eval(&[20 + own as u64, 1, N::NAME.len() as u64], m.depth() >= 2);
            ctx(eq("mapped trees", &got, &want), || at("map_path_each"))?;
            ctx(eq("closure calls", &sorted(log), &sorted(paths.clone())), || at("map_path_each"))?;
        }
        Ok(())
    }
}
dual! {
    fn c09_t / c09_b<N>(m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        let all: Vec<u32> = m.order(Ord::Pre).iter().map(|m| m.id).collect();
        let all_paths: Vec<(Vec<usize>, u32)> = sorted(all.iter().map(|&i| (inf[(i - m.id) as usize].path.clone(), i)).collect());
        let want = snap_model(m, &h);
        for own in OWNS {
            let at = |what: &str| format!("{} {:?} {}", N::NAME, own, what);
            // map
            guard(n);
            let mut log = vec![];
            let mut t = N::build(m);
            let got = match own {
                Own::O => snap(&t.map(|v| { log.push(v.id()); W { id: v.id(), mark: h(v.id()) } })),
                Own::R => {
                    let s = snap(&t.map_ref(|v| { log.push(v.id()); W { id: v.id(), mark: h(v.id()) } }));
                    ctx(eq("source tree after map_ref", &snap(&t), &snap_model(m, &|_| 0)), || at("map"))?;
                    s
                }
                Own::W => {
                    let s = snap(&t.map_mut(|v| { log.push(v.id()); v.set(v.id() + 7); W { id: v.id(), mark: h(v.id()) } }));
                    ctx(eq("source tree after map_mut", &snap(&t), &snap_model(m, &|i| i + 7)), || at("map"))?;
                    s
                }
            };
            o.eval(&[own as u64, 0, N::NAME.len() as u64], n >= 2);
            ctx(eq("mapped tree", &got, &want), || at("map"))?;
            ctx(eq("closure calls", &sorted(log), &sorted(all.clone())), || at("map"))?;
            // map_path
            guard(n);
            let mut log = vec![];
            let mut t = N::build(m);
            let got = match own {
                Own::O => snap(&t.map_path(|p, v| { log.push((p.to_vec(), v.id())); W { id: v.id(), mark: h(v.id()) } })),
                Own::R => snap(&t.map_path_ref(|p, v| { log.push((p.to_vec(), v.id())); W { id: v.id(), mark: h(v.id()) } })),
                Own::W => snap(&t.map_path_mut(|p, v| { log.push((p.to_vec(), v.id())); W { id: v.id(), mark: h(v.id()) } })),
            };
            o.eval(&[own as u64, 1, N::NAME.len() as u64], m.depth() >= 2);
            ctx(eq("mapped tree", &got, &want), || at("map_path"))?;
            ctx(eq("closure calls", &sorted(log), &all_paths), || at("map_path"))?;
        }
        // identity maps keep the very references; cloned() copies the values
        guard(n);
        let mut t = N::build(m);
        let refs = t.map_ref(|v| v);
        let cl = refs.cloned();
        ctx(eq("cloned tree of references", &snap(&cl), &snap_model(m, &|_| 0)), || N::NAME.to_string())?;
        drop(refs);
        let mut refs = t.map_mut(|v| v);
        refs.poke(&h);
        let cl2 = refs.cloned();
        ctx(eq("cloned tree of mutable references", &snap(&cl2), &want), || N::NAME.to_string())?;
        drop(refs);
        ctx(eq("source tree after writes through a mapped tree of references", &snap(&t), &want), || N::NAME.to_string())?;
        ctx(eq("earlier clone is independent", &snap(&cl), &snap_model(m, &|_| 0)), || N::NAME.to_string())?;
        o.eval(&[9, N::NAME.len() as u64], n >= 2);
        Ok(())
    }
}

// ------------------------------------------------------------------ C10 fold / fold_path
pub fn c10(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Fold])?;
    let m = &c.forest[0];
    flavours!(c, c10_t / c10_b(m, o));
    if !lite() { flavours!(c, c10c_t / c10c_b(m, o)); }
    Ok(())
}
dual! {
    /// The same over a collection of trees.
    fn c10c_t / c10c_b<N>(m: &M, o: &mut Obs) -> R {
        let trees = thrice(m, BIN);
        let n = 2 * m.size() + 1;
        let marks: std::collections::HashMap<u32, u32> = coll_paths(&trees).into_iter().map(|(p, id)| (id, ph(&p))).collect();
        let want: Vec<Snap> = trees.iter().map(|t| snap_model(t, &|_| 0)).collect();
        let want_p: Vec<Snap> = trees.iter().map(|t| snap_model(t, &|i| marks[&i])).collect();
        let build = || -> Vec<N> { trees.iter().map(N::build).collect() };
        for own in OWNS {
            let at = |what: &str| format!("{} {:?} collection {}", N::NAME, own, what);
            for way in 0..2u64 {
                guard(2 * n);
                let mut v = build();
                let mut calls = 0usize;
                macro_rules! f { () => { |k, v| { val::work(1); calls += 1; Snap { id: v.id(), mark: v.mark(), kids: Slots::<Snap>::slots(k) } } }; }
                let got: Vec<Snap> = match (own, way) {
                    (Own::O, 0) => v.fold_each(f!()).collect(),
                    (Own::R, 0) => (&v).fold_each_ref(f!()).collect(),
                    (Own::W, 0) => (&mut v).fold_each_mut(f!()).collect(),
                    (Own::O, _) => v.into_pipeline().fold_trees(f!()).collect(),
                    (Own::R, _) => (&v).into_pipeline_ref().fold_trees(f!()).collect(),
                    (Own::W, _) => (&mut v).into_pipeline_mut().fold_trees(f!()).collect(),
                };
                o.eval(&[20 + own as u64, way, N::NAME.len() as u64], n >= 4);
                ctx(eq("folded", &got, &want), || at("fold"))?;
                ctx(eq("closure calls", &calls, &n), || at("fold"))?;
                guard(2 * n);
                let mut v = build();
                let mut calls = 0usize;
                macro_rules! f { () => { |k, p: &[usize], v| { val::work(1); calls += 1; Snap { id: v.id(), mark: ph(p), kids: Slots::<Snap>::slots(k) } } }; }
                let got: Vec<Snap> = match (own, way) {
                    (Own::O, 0) => v.fold_path_each(f!()).collect(),
                    (Own::R, 0) => (&v).fold_path_each_ref(f!()).collect(),
                    (Own::W, 0) => (&mut v).fold_path_each_mut(f!()).collect(),
                    (Own::O, _) => v.into_pipeline().fold_path(f!()).collect(),
                    (Own::R, _) => (&v).into_pipeline_ref().fold_path(f!()).collect(),
                    (Own::W, _) => (&mut v).into_pipeline_mut().fold_path(f!()).collect(),
                };
                o.eval(&[20 + own as u64, 2 + way, N::NAME.len() as u64], m.depth() >= 2);
                ctx(eq("folded (mark = hash of path)", &got, &want_p), || at("fold_path"))?;
                ctx(eq("closure calls", &calls, &n), || at("fold_path"))?;
            }
        }
        Ok(())
    }
}
dual! {
    fn c10_t / c10_b<N>(m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        // Folding into (id, path hash, folded children) rebuilds the tree: nothing can be dropped,
        // repeated, reordered or attributed to the wrong parent unnoticed.
        let want = snap_model(m, &|_| 0);
        let want_p = snap_model(m, &|i| ph(&inf[(i - m.id) as usize].path));
        for own in OWNS {
            let at = |what: &str| format!("{} {:?} {}", N::NAME, own, what);
            guard(n);
            let mut t = N::build(m);
            let mut calls = 0usize;
            let got = match own {
                Own::O => t.fold(|k, v| { calls += 1; Snap { id: v.id(), mark: v.mark(), kids: k.slots() } }),
                Own::R => t.fold_ref(|k, v| { calls += 1; Snap { id: v.id(), mark: v.mark(), kids: k.slots() } }),
                Own::W => {
                    let s = t.fold_mut(|k, v| { calls += 1; let mark = v.mark(); v.set(v.id() + 7); Snap { id: v.id(), mark, kids: k.slots() } });
                    ctx(eq("source tree after fold_mut", &snap(&t), &snap_model(m, &|i| i + 7)), || at("fold"))?;
                    s
                }
            };
            o.eval(&[own as u64, 0, N::NAME.len() as u64], n >= 2);
            ctx(eq("folded", &got, &want), || at("fold"))?;
            ctx(eq("closure calls", &calls, &n), || at("fold"))?;
            guard(n);
            let mut t = N::build(m);
            let mut calls = 0usize;
            let got = match own {
                Own::O => t.fold_path(|k, p, v| { calls += 1; Snap { id: v.id(), mark: ph(p), kids: k.slots() } }),
                Own::R => t.fold_path_ref(|k, p, v| { calls += 1; Snap { id: v.id(), mark: ph(p), kids: k.slots() } }),
                Own::W => t.fold_path_mut(|k, p, v| { calls += 1; Snap { id: v.id(), mark: ph(p), kids: k.slots() } }),
            };
            o.eval(&[own as u64, 1, N::NAME.len() as u64], m.depth() >= 2);
            ctx(eq("folded (mark = hash of path)", &got, &want_p), || at("fold_path"))?;
            ctx(eq("closure calls", &calls, &n), || at("fold_path"))?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C11 prune / prune_path / prune_depth
pub fn c11(c: &Case, o: &mut Obs) -> R {
    super::deep::very_deep(c, o, &[super::deep::Deep::Prune])?;
    let m = &c.forest[0];
    flavours!(c, c11_t / c11_b(c, m, o));
    if !lite() { flavours!(c, c11c_t / c11c_b(c, m, o)); }
    Ok(())
}
dual! {
    /// The same over a collection of trees.
    fn c11c_t / c11c_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let trees = thrice(m, BIN);
        let n = 2 * m.size() + 1;
        let paths = coll_paths(&trees);
        let build = || -> Vec<N> { trees.iter().map(N::build).collect() };
        let ms = masks(c, o, n);
        let wrap = if o.exhaustive { m.size() as u32 + 1 } else { u32::MAX };
        for (i, mask) in ms.into_iter().enumerate() {
            let p = |id: u32| mask.hit((id - m.id) % wrap);
            let mut want_log = vec![];
            let want: Vec<Snap> = trees.iter().filter_map(|t| prune_model(t, &p, BIN, &mut want_log)).collect();
            let want_plog: Vec<(Vec<usize>, u32)> = want_log.iter().map(|&i| paths[(i - m.id) as usize].clone()).collect();
            let mut kept = vec![];
            for t in &want { kept_ids(&Some(t.clone()), &mut kept); }
            let nontrivial = kept.len() >= 2 && kept.len() < n;
            let marks = marked_only(&kept);
            for own in OWNS {
                if o.exhaustive && (i + own as usize) % 3 != 0 { continue; }
                let at = |what: &str| format!("{} {:?} collection {} with {:?}", N::NAME, own, what, mask);
                guard(2 * n);
                let mut log = vec![];
                let mut v = build();
                let got: Vec<Snap> = match own {
                    Own::O => v.prune_each(|v| { val::work(1); log.push(v.id()); p(v.id()) }).map(|t| snap(&t)).collect(),
                    Own::R => (&v).prune_each_ref(|v| { val::work(1); log.push(v.id()); p(v.id()) }).map(|t| snap(&t)).collect(),
                    Own::W => {
                        let r: Vec<Snap> = (&mut v).prune_each_mut(|v| { val::work(1); log.push(v.id()); p(v.id()) }).map(|mut t| { let s = snap(&t); t.poke(&|i| i + 7); s }).collect();
                        for (t, m) in v.iter().zip(&trees) {
                            ctx(eq("source tree after writes through the pruned trees", &snap(t), &snap_model(m, &marks)), || at("prune_each"))?;
                        }
                        r
                    }
                };
                o.eval(&[20 + own as u64, 0, N::NAME.len() as u64, mask.key()], nontrivial);
                ctx(eq("pruned trees", &got, &want), || at("prune_each"))?;
                ctx(eq("closure calls", &log, &want_log), || at("prune_each"))?;
                guard(2 * n);
                let mut log = vec![];
                let mut v = build();
                let got: Vec<Snap> = match own {
                    Own::O => v.prune_path_each(|a: &[usize], v| { val::work(1); log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)).collect(),
                    Own::R => (&v).prune_path_each_ref(|a: &[usize], v| { val::work(1); log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)).collect(),
                    Own::W => (&mut v).prune_path_each_mut(|a: &[usize], v| { val::work(1); log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)).collect(),
                };
                o.eval(&[20 + own as u64, 1, N::NAME.len() as u64, mask.key()], nontrivial);
                ctx(eq("pruned trees", &got, &want), || at("prune_path_each"))?;
                ctx(eq("closure calls", &log, &want_plog), || at("prune_path_each"))?;
            }
        }
        for d in (0..=m.depth() + 1).chain([usize::MAX, 1 << 32 | 1]) {
            let want: Vec<Snap> = trees.iter().map(|t| depth_model(t, d, BIN)).collect();
            let mut kept = vec![];
            for t in &want { kept_ids(&Some(t.clone()), &mut kept); }
            let marks = marked_only(&kept);
            for own in OWNS {
                if (d % 3 + own as usize + n) % 3 != 0 { continue; }
                let at = || format!("{} {:?} collection prune_depth_each({})", N::NAME, own, d);
                guard(2 * n);
                let mut v = build();
                let got: Vec<Snap> = match own {
                    Own::O => pde!(v, d).map(|t| snap(&t)).collect(),
                    Own::R => (&v).prune_depth_each_ref(d).map(|t| snap(&t)).collect(),
                    Own::W => {
                        let r: Vec<Snap> = (&mut v).prune_depth_each_mut(d).map(|mut t| { let s = snap(&t); t.poke(&|i| i + 7); s }).collect();
                        for (t, m) in v.iter().zip(&trees) {
                            ctx(eq("source tree after writes through the pruned trees", &snap(t), &snap_model(m, &marks)), at)?;
                        }
                        r
                    }
                };
                o.eval(&[20 + own as u64, 2, N::NAME.len() as u64, d as u64], d >= 1 && d < m.depth());
                ctx(eq("pruned trees", &got, &want), at)?;
            }
        }
        Ok(())
    }
}
dual! {
    fn c11_t / c11_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        let inf = infos(m);
        for mask in masks(c, o, n) {
            let p = |id: u32| mask.hit(id - m.id);
            let mut want_log = vec![];
            let want = prune_model(m, &p, BIN, &mut want_log);
            let mut kept = vec![];
            kept_ids(&want, &mut kept);
            let nontrivial = kept.len() >= 2 && kept.len() < n;
            let marks = snap_model(m, &marked_only(&kept));
            for own in OWNS {
                let at = |what: &str| format!("{} {:?} {} with {:?}", N::NAME, own, what, mask);
                guard(n);
                let mut log = vec![];
                let mut t = N::build(m);
                let got = match own {
                    Own::O => t.prune(|v| { log.push(v.id()); p(v.id()) }).map(|t| snap(&t)),
                    Own::R => t.prune_ref(|v| { log.push(v.id()); p(v.id()) }).map(|t| snap(&t)),
                    Own::W => {
                        let mut r = t.prune_mut(|v| { log.push(v.id()); p(v.id()) });
                        let s = r.as_ref().map(|t| snap(t));
                        if let Some(r) = &mut r { r.poke(&|i| i + 7); }
                        drop(r);
                        ctx(eq("source tree after writes through the pruned tree", &snap(&t), &marks), || at("prune"))?;
                        s
                    }
                };
                o.eval(&[own as u64, 0, N::NAME.len() as u64, mask.key()], nontrivial);
                ctx(eq("pruned tree", &got, &want), || at("prune"))?;
                ctx(eq("closure calls", &log, &want_log), || at("prune"))?;
                guard(n);
                let mut log = vec![];
                let mut t = N::build(m);
                let got = match own {
                    Own::O => t.prune_path(|a, v| { log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)),
                    Own::R => t.prune_path_ref(|a, v| { log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)),
                    Own::W => t.prune_path_mut(|a, v| { log.push((a.to_vec(), v.id())); p(v.id()) }).map(|t| snap(&t)),
                };
                let want_plog: Vec<(Vec<usize>, u32)> = want_log.iter().map(|&i| (inf[(i - m.id) as usize].path.clone(), i)).collect();
                o.eval(&[own as u64, 1, N::NAME.len() as u64, mask.key()], nontrivial);
                ctx(eq("pruned tree", &got, &want), || at("prune_path"))?;
                ctx(eq("closure calls", &log, &want_plog), || at("prune_path"))?;
            }
        }
        let dm = m.depth();
        for d in (0..=dm + 1).chain([usize::MAX, usize::MAX - 1, 1 << 32, 1 << 32 | 1, 1 << 63 | 1, 1 << 16, 256]) {
            let want = depth_model(m, d, BIN);
            let mut kept = vec![];
            kept_ids(&Some(want.clone()), &mut kept);
            let marks = snap_model(m, &marked_only(&kept));
            for own in OWNS {
                let at = || format!("{} {:?} prune_depth({})", N::NAME, own, d);
                guard(n);
                let mut t = N::build(m);
                let got = match own {
                    Own::O => snap(&t.prune_depth(d)),
                    Own::R => snap(&t.prune_depth_ref(d)),
                    Own::W => {
                        let mut r = t.prune_depth_mut(d);
                        let s = snap(&r);
                        r.poke(&|i| i + 7);
                        drop(r);
                        ctx(eq("source tree after writes through the pruned tree", &snap(&t), &marks), at)?;
                        s
                    }
                };
                o.eval(&[own as u64, 2, N::NAME.len() as u64, d as u64], d >= 1 && d < dm);
                ctx(eq("pruned tree", &got, &want), at)?;
            }
        }
        Ok(())
    }
}

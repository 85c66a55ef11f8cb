//! C08 / C13: collections of trees.
use super::paths::{Bag, Sieve};
use super::pipe::*;
use super::*;
use streaming_iterator::StreamingIterator;

/// Build an array of exactly the forest's length and run the body on it.
macro_rules! with_array {
    ($c:expr, $N:ident, |$a:ident| $b:expr) => {{
        let mut __i = 0;
        #[allow(unused)]
        let mut __f = |_: usize| { __i += 1; $N::build(&$c.forest[__i - 1]) };
        #[allow(unused_mut)]
        match $c.forest.len() {
            0 => { let mut $a: [$N; 0] = std::array::from_fn(&mut __f); Some($b) }
            1 => { let mut $a: [$N; 1] = std::array::from_fn(&mut __f); Some($b) }
            2 => { let mut $a: [$N; 2] = std::array::from_fn(&mut __f); Some($b) }
            3 => { let mut $a: [$N; 3] = std::array::from_fn(&mut __f); Some($b) }
            _ => None,
        }
    }};
}
fn want_ids(c: &Case, o: Ord) -> Vec<u32> {
    c.forest.iter().flat_map(|m| m.order(o)).map(|m| m.id).collect()
}
fn want_rows(c: &Case, o: Ord, kids: bool) -> Vec<Row> {
    let mut out = vec![];
    for (t, m) in c.forest.iter().enumerate() {
        let inf = infos(m);
        for x in m.order(o) {
            let f = &inf[(x.id - m.id) as usize];
            let mut path = vec![t];
            path.extend(&f.path);
            out.push(Row { path, anc: f.anc.clone(), kids: kids.then(|| flat_of(x)) });
        }
    }
    out
}
fn plain<I: Iterator>(it: I, want: &[u32], way: u64) -> R<Vec<u32>>
where
    I::Item: HasId,
{
    consume(it, |x| x.id(), want, way % WAYS, (way >> 8) as usize).map(|_| want.to_vec())
}
fn in_context<S, X: HasId, C: KidIds>(mut it: S, wants: &[Vec<Row>; 2], kids: bool, way: u64) -> R
where
    S: StreamingIterator<Item = tree_iterators_rs::prelude::TreeContext<X, C>>,
{
    let want = &wants[kids as usize];
    match way % (STREAM_WAYS + 1) {
        STREAM_WAYS => eq("contexts", &rows(&mut it, want.len() + 2, kids)?, want),
        w => consume_stream(it, |s| row(s, kids).unwrap(), want, w, (way >> 8) as usize),
    }
}
pub fn c08(c: &Case, o: &mut Obs) -> R {
    flavours!(c, c08_t / c08_b(c, o));
    Ok(())
}
dual! {
    fn c08_t / c08_b<N>(c: &Case, o: &mut Obs) -> R {
        let n = c.nodes();
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        let nontrivial = c.forest.len() >= 2 && c.forest.iter().any(|m| m.size() >= 2);
        // Plain next() calls first, then other ways of driving the iterators.
        for round in 0..if lite() { 1u64 } else { 2 } {
        let count = std::cell::Cell::new(0u64);
        let way = || { count.set(count.get() + 1); if round == 0 { 0 } else { mix(c.hash64(), count.get()) } };
        for &ord in ORDS {
            let want = want_ids(c, ord);
            let mut results: Vec<(&str, R<Vec<u32>>)> = vec![];
            let g = || guard(n + c.forest.len());
            g(); results.push(("Vec by value", cown!(build(), ord, |it| plain(it, &want, way()))));
            g(); results.push(("custom collection by value", cown!(Bag(build()), ord, |it| plain(it, &want, way()))));
            g(); if let Some(r) = with_array!(c, N, |a| cown!(a, ord, |it| plain(it, &want, way()))) { results.push(("array by value", r)); }
            let mut v = build();
            g(); results.push(("&Vec", cref!((&v), ord, |it| plain(it, &want, way()))));
            g(); results.push(("slice iterator", cref!(v.iter(), ord, |it| plain(it, &want, way()))));
            g(); results.push(("custom collection of references", cref!(Bag(v.iter().collect::<Vec<_>>()), ord, |it| plain(it, &want, way()))));
            g(); results.push(("&mut Vec", cmut!((&mut v), ord, |it| plain(it, &want, way()))));
            g(); results.push(("mutable slice iterator", cmut!(v.iter_mut(), ord, |it| plain(it, &want, way()))));
            g(); results.push(("custom collection of mutable references", cmut!(Bag(v.iter_mut().collect::<Vec<_>>()), ord, |it| plain(it, &want, way()))));
            g(); if let Some(r) = with_array!(c, N, |a| cmut!((&mut a), ord, |it| plain(it, &want, way()))) { results.push(("&mut array", r)); }
            g(); results.push(("forward-only collection by value", cown!(Sieve(build()), ord, |it| plain(it, &want, way()))));
            g(); results.push(("forward-only collection of references", cref!(Sieve(v.iter().collect::<Vec<_>>()), ord, |it| plain(it, &want, way()))));
            g(); results.push(("forward-only collection of mutable references", cmut!(Sieve(v.iter_mut().collect::<Vec<_>>()), ord, |it| plain(it, &want, way()))));
            for (k, (what, r)) in results.into_iter().enumerate() {
                let at = || format!("{} {} {:?}", N::NAME, what, ord);
                let r = r.map_err(|e| format!("{}: {}", at(), e))?;
                o.eval(&[round, ord as u64, k as u64, N::NAME.len() as u64], nontrivial);
                ctx(eq("visited", &r, &want), at)?;
            }
            // contexts
            let post = ord == Ord::Post || ord == Ord::In;
            let wants = [want_rows(c, ord, false), want_rows(c, ord, true)];
            let mut results: Vec<(&str, bool, R)> = vec![];
            g(); results.push(("Vec by value", !post, cown!(build(), ord, |it| in_context(it.attach_context(), &wants, !post, way()))));
            g(); results.push(("forward-only collection by value", !post, cown!(Sieve(build()), ord, |it| in_context(it.attach_context(), &wants, !post, way()))));
            g(); if let Some(r) = with_array!(c, N, |a| cown!(a, ord, |it| in_context(it.attach_context(), &wants, !post, way()))) { results.push(("array by value", !post, r)); }
            // Known finding KF-1 (see C18): skip borrowed/mut postorder contexts of such nodes.
            if !(N::HEAP_KIDS && ord == Ord::Post) {
                g(); results.push(("&Vec", true, cref!((&v), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
                g(); results.push(("slice iterator", true, cref!(v.iter(), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
                g(); results.push(("&mut Vec", true, cmut!((&mut v), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
                g(); results.push(("forward-only collection of references", true, cref!(Sieve(v.iter().collect::<Vec<_>>()), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
                g(); results.push(("forward-only collection of mutable references", true, cmut!(Sieve(v.iter_mut().collect::<Vec<_>>()), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
                g(); results.push(("mutable slice iterator", true, cmut!(v.iter_mut(), ord, |it| in_context(it.attach_context(), &wants, true, way()))));
            }
            for (k, (what, _, r)) in results.into_iter().enumerate() {
                let at = || format!("{} {} {:?} with context", N::NAME, what, ord);
                o.eval(&[round, 20 + ord as u64, k as u64, N::NAME.len() as u64], nontrivial);
                ctx(r, at)?;
            }
        }
        }
        Ok(())
    }
}

/// C01 and C04 over collections: the tree next to others, a few ways in per order.
pub fn beside(c: &Case, o: &mut Obs, contexts: bool) -> R {
    if lite() { return Ok(()) }
    let mut forest = super::comb::thrice(&c.forest[0], c.bin).to_vec();
    if c.forest[0].size() > 300 { forest.truncate(2) }
    let c = &Case { forest, ..c.clone() };
    flavours!(c, beside_t / beside_b(c, o, contexts));
    Ok(())
}
dual! {
    fn beside_t / beside_b<N>(c: &Case, o: &mut Obs, contexts: bool) -> R {
        let n = c.nodes();
        let h = mix(c.hash64(), N::NAME.len() as u64);
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        for own in OWNS {
            for &ord in ORDS {
                let h = mix(h, own as u64 * 4 + ord as u64);
                let at = || format!("{} {:?} {:?} of a collection", N::NAME, own, ord);
                guard(n + c.forest.len());
                let mut v = build();
                if contexts {
                    // Known finding KF-1 (see C18).
                    if N::HEAP_KIDS && ord == Ord::Post && own != Own::O { continue }
                    let kids = own != Own::O || !(ord == Ord::Post || ord == Ord::In);
                    let wants = [want_rows(c, ord, false), want_rows(c, ord, true)];
                    let w = h >> 8;
                    let r = match own {
                        Own::O => cown!(v, ord, |it| in_context(it.attach_context(), &wants, kids, w)),
                        Own::R => cref!((&v), ord, |it| in_context(it.attach_context(), &wants, kids, w)),
                        Own::W => cmut!((&mut v), ord, |it| in_context(it.attach_context(), &wants, kids, w)),
                    };
                    o.eval(&[50 + own as u64, ord as u64, N::NAME.len() as u64, w % (STREAM_WAYS + 1)], n >= 4);
                    ctx(r, at)?;
                } else {
                    let want = want_ids(c, ord);
                    let r = match (own, h % 3) {
                        (Own::O, 0) => cown!(Sieve(v), ord, |it| plain(it, &want, h >> 8)),
                        (Own::O, _) => cown!(v, ord, |it| plain(it, &want, h >> 8)),
                        (Own::R, 0) => cref!(Sieve(v.iter().collect::<Vec<_>>()), ord, |it| plain(it, &want, h >> 8)),
                        (Own::R, _) => cref!((&v), ord, |it| plain(it, &want, h >> 8)),
                        (Own::W, 0) => cmut!(Sieve(v.iter_mut().collect::<Vec<_>>()), ord, |it| plain(it, &want, h >> 8)),
                        (Own::W, _) => cmut!((&mut v), ord, |it| plain(it, &want, h >> 8)),
                    };
                    o.eval(&[50 + own as u64, ord as u64, N::NAME.len() as u64, (h >> 8) % WAYS], n >= 4);
                    ctx(r.map(|_| ()), at)?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C13
fn hp(p: &[usize], k: u64, h: u64) -> H {
    H(mix(mix(h, k), phash(p)))
}
pub fn c13(c: &Case, o: &mut Obs) -> R {
    flavours!(c, c13_t / c13_b(c, o));
    Ok(())
}
dual! {
    fn c13_t / c13_b<N>(c: &Case, o: &mut Obs) -> R {
        let ms: Vec<&M> = c.forest.iter().collect();
        let n = c.nodes();
        let cap = n + 2;
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        for prog in programs(c, o) {
            let e = expect(&ms, &prog, BIN, true);
            for own in OWNS {
                for term in 0..TERMS.len() {
                    let salt = mix(mix(c.hash64(), prog_key(&prog)), (own as u64) << 8 | term as u64);
                    guard((n + c.forest.len()) * (6 + prog.len()));
                    let mut v = build();
                    let got = match own {
                        Own::O => cdrv::run(v.into_pipeline(), &e, term, cap, salt),
                        Own::R if (term + prog.len()) % 5 == 4 => cdrv::run(Sieve(v.iter().collect::<Vec<_>>()).into_pipeline_ref(), &e, term, cap, salt),
                        Own::W if (term + prog.len()) % 5 == 4 => cdrv::run(Sieve(v.iter_mut().collect::<Vec<_>>()).into_pipeline_mut(), &e, term, cap, salt),
                        Own::R => if term % 2 == 0 { cdrv::run((&v).into_pipeline_ref(), &e, term, cap, salt) } else { cdrv::run(v.iter().into_pipeline_ref(), &e, term, cap, salt) },
                        Own::W => if term % 2 == 0 { cdrv::run((&mut v).into_pipeline_mut(), &e, term, cap, salt) } else { cdrv::run(v.iter_mut().into_pipeline_mut(), &e, term, cap, salt) },
                    };
                    o.eval(&[own as u64, term as u64, N::NAME.len() as u64, prog_key(&prog)], e.nontrivial() && c.forest.len() >= 2);
                    judge(got, &e, term, true, &|| format!("{} collection {:?} {:?} then {} (salt {})", N::NAME, own, prog, TERMS[term], salt))?;
                }
            }
        }
        // the one-call *_each methods
        let x = if o.exhaustive { c.hash64() } else { mix(c.num(1) as u64, c.num(2) as u64) };
        for round in 0..if o.exhaustive { 3u64 } else { 1 } {
            let k = mix(x, round);
            let dd = 1 + (k >> 33) % 6;
            // Limits no tree reaches must not behave like small ones.
            let d = [(k >> 40) as usize % 5, (k >> 40) as usize % 5, 1 << 32 | (k >> 40) as usize % 3, usize::MAX - (k >> 40) as usize % 2][(k >> 50) as usize % 4];
            let fin = |e: &Expect, what: &str, own: Own, trees: Vec<P>| -> R {
                ctx(eq("trees", &trees, &e.trees()), || format!("{} collection {:?} {} (k={}, dd={}, d={})", N::NAME, own, what, k, dd, d))
            };
            let nt = n >= 3 && c.forest.len() >= 2;
            macro_rules! run_each {
                ($own:expr, $src:expr, $prune:ident, $ppath:ident, $map:ident, $mpath:ident, $fold:ident, $fpath:ident, $X:ty, $deref:expr) => {{
                    guard(8 * (n + c.forest.len()));
                    let e = expect(&ms, &[Stage::Prune(k, dd)], BIN, true);
                    let mut v = build();
                    let r = $src(&mut v).$prune(|a: &$X| hits(k, dd, a.h())).map(|t| t.to_p()).take(cap).collect();
                    fin(&e, stringify!($prune), $own, r)?;
                    guard(8 * (n + c.forest.len()));
                    let e = expect(&ms, &[Stage::PrunePath(k, dd)], BIN, true);
                    let mut v = build();
                    let r = $src(&mut v).$ppath(|p: &[usize], a: &$X| hits(mix(k, phash(p)), dd, a.h())).map(|t| t.to_p()).take(cap).collect();
                    fin(&e, stringify!($ppath), $own, r)?;
                    guard(8 * (n + c.forest.len()));
                    let e = expect(&ms, &[Stage::Map(k)], BIN, true);
                    let mut v = build();
                    let r = $src(&mut v).$map(|a: $X| { val::work(1); H(mix(a.h(), k)) }).map(|t| t.to_p()).take(cap).collect();
                    fin(&e, stringify!($map), $own, r)?;
                    guard(8 * (n + c.forest.len()));
                    let e = expect(&ms, &[Stage::MapPath(k)], BIN, true);
                    let mut v = build();
                    let r = $src(&mut v).$mpath(|p: &[usize], a: $X| { val::work(1); hp(p, k, a.h()) }).map(|t| t.to_p()).take(cap).collect();
                    fin(&e, stringify!($mpath), $own, r)?;
                    guard(8 * (n + c.forest.len()));
                    let e = expect(&ms, &[], BIN, true);
                    let mut v = build();
                    let r = $src(&mut v).$fold(|ks, a: $X| { val::work(1); P { id: 0, h: a.h(), kids: Slots::<P>::slots(ks) } }).take(cap).collect();
                    fin(&e, stringify!($fold), $own, r)?;
                    let mut v = build();
                    let r: Vec<P> = $src(&mut v).$fpath(|ks, p: &[usize], a: $X| { val::work(1); P { id: 0, h: mix(a.h(), phash(p)), kids: Slots::<P>::slots(ks) } }).take(cap).collect();
                    ctx(eq("folded", &r, &e.folded(true)), || format!("{} collection {:?} {}", N::NAME, $own, stringify!($fpath)))?;
                    for j in 0..6u64 {
                        o.eval(&[40 + j, $own as u64, N::NAME.len() as u64, k], nt);
                    }
                }};
            }
            let pick = |i: u64| !lite() || k % 3 == i;
            if pick(0) { run_each!(Own::O, |v: &mut Vec<N>| std::mem::take(v), prune_each, prune_path_each, map_each, map_path_each, fold_each, fold_path_each, V, |_| ()); }
            if !lite() { run_each!(Own::O, |v: &mut Vec<N>| Bag(std::mem::take(v)), prune_each, prune_path_each, map_each, map_path_each, fold_each, fold_path_each, V, |_| ()); }
            if round == 0 && !lite() {
                run_each!(Own::O, |v: &mut Vec<N>| Sieve(std::mem::take(v)), prune_each, prune_path_each, map_each, map_path_each, fold_each, fold_path_each, V, |_| ());
            }
            if pick(1) { run_each!(Own::R, refs, prune_each_ref, prune_path_each_ref, map_each_ref, map_path_each_ref, fold_each_ref, fold_path_each_ref, &V, |_| ()); }
            if pick(2) { run_each!(Own::W, muts, prune_each_mut, prune_path_each_mut, map_each_mut, map_path_each_mut, fold_each_mut, fold_path_each_mut, &mut V, |_| ()); }
            let e = expect(&ms, &[Stage::Depth(d)], BIN, true);
            guard(8 * (n + c.forest.len()));
            let mut v = build();
            fin(&e, "prune_depth_each_ref", Own::R, (&v).prune_depth_each_ref(d).map(|t| t.to_p()).take(cap).collect())?;
            fin(&e, "prune_depth_each_mut", Own::W, (&mut v).prune_depth_each_mut(d).map(|t| t.to_p()).take(cap).collect())?;
            if round % 2 == 0 {
                fin(&e, "prune_depth_each", Own::O, pde!(v, d).map(|t| t.to_p()).take(cap).collect())?;
            } else {
                fin(&e, "prune_depth", Own::O, v.into_pipeline().prune_depth(d).trees().map(|t| t.to_p()).take(cap).collect())?;
            }
            o.eval(&[50, N::NAME.len() as u64, k], nt);
            // writes through a mutable prune reach exactly the kept nodes of the originals
            let e = expect(&ms, &[Stage::Prune(k, dd)], BIN, true);
            let mut v = build();
            for mut t in (&mut v).prune_each_mut(|a| hits(k, dd, a.h())) {
                t.poke(&|i| i + 7);
            }
            let mut kept = vec![];
            fn ids_of(p: &P, out: &mut Vec<u32>) { out.push(p.id); for k in p.kids.iter().flatten() { ids_of(k, out); } }
            for t in e.trees() { ids_of(&t, &mut kept); }
            let marks = super::comb::marked_only(&kept);
            for (t, m) in v.iter().zip(&ms) {
                ctx(eq("source tree after writes through prune_each_mut", &snap(t), &snap_model(m, &marks)), || N::NAME.to_string())?;
            }
        }
        Ok(())
    }
}
fn refs<T>(v: &mut Vec<T>) -> &Vec<T> {
    v
}
fn muts<T>(v: &mut Vec<T>) -> &mut Vec<T> {
    v
}

//! C14 / C17: what happens to the values themselves, and when attaching metadata panics.
use super::paths::Bag;
use super::pipe::{hits, phash};
use super::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use streaming_iterator::StreamingIterator;

fn all_gone(what: &dyn Fn() -> String) -> R {
    val::audit(true).map_err(|e| format!("{}: {}", what(), e))
}
/// Two positions per case: how many elements are consumed before/after the switch.
fn cuts(c: &Case, o: &Obs, n: usize) -> Vec<(usize, usize)> {
    if o.exhaustive {
        (0..=n + 1).flat_map(|a| [0, 1, 2, n + 1].into_iter().map(move |b| (a, b))).collect()
    } else {
        (0..if lite() { 2 } else { 4 }).map(|i| (c.num(2 * i) % (n + 2), c.num(2 * i + 1) % (n + 2))).collect()
    }
}

pub fn c14(c: &Case, o: &mut Obs) -> R {
    if c.forest.len() == 1 {
        let m = &c.forest[0];
        flavours!(c, c14_t / c14_b(c, m, o));
    }
    flavours!(c, c14c_t / c14c_b(c, o));
    Ok(())
}
dual! {
    fn c14_t / c14_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        for &ord in ORDS {
            for (a, b) in cuts(c, o, n) {
                let at = |s: &'static str| move || format!("{} {:?} {}: {} elements, then {}", N::NAME, ord, s, a, b);
                let mut key = 0;
                let mut done = |o: &mut Obs, f: &dyn Fn() -> String| { key += 1; o.eval(&[key, ord as u64, N::NAME.len() as u64, a as u64, b as u64], a >= 1 && a < n); all_gone(f) };
                let g = || { val::reset(); guard(n) };
                // by value: stop early, values kept by the caller stay alive, everything else goes
                g();
                let t = N::build(m);
                let held: Vec<V> = own!(t, ord, |it| it.by_ref().take(a).collect());
                ctx(eq("values alive after dropping the iterator", &val::live(), &a.min(n)), at("by value"))?;
                drop(held);
                done(o, &at("by value"))?;
                g();
                let t = N::build(m);
                let (h1, h2): (Vec<V>, Vec<V>) = own!(t, ord, |it| { let h = it.by_ref().take(a).collect(); (h, it.leaves().take(b).collect()) });
                ctx(eq("values alive after dropping the iterator", &val::live(), &(h1.len() + h2.len())), at("leaves()"))?;
                drop((h1, h2));
                done(o, &at("leaves()"))?;
                g();
                let t = N::build(m);
                own!(t, ord, |it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, a) });
                done(o, &at("ancestors"))?;
                g();
                let t = N::build(m);
                own!(t, ord, |it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, a); let mut l = s.leaves(); take_stacks(&mut l, b) });
                done(o, &at("ancestors leaves()"))?;
                g();
                let t = N::build(m);
                own!(t, ord, |it| { let mut s = it.attach_context(); take_rows(&mut s, a) });
                done(o, &at("context"))?;
                if b > 2 { continue; }
                // by reference: nothing is created, copied or destroyed
                for own in [Own::R, Own::W] {
                    g();
                    let mut t = N::build(m);
                    macro_rules! both { (|$it:ident| $x:expr) => {{ match own { Own::R => { rf!(t, ord, |$it| $x); } _ => { mt!(t, ord, |$it| $x); } } }}; }
                    both!(|it| { take_ids(&mut it, a); let mut l = it.leaves(); take_ids(&mut l, b) });
                    both!(|it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, a); let mut l = s.leaves(); take_stacks(&mut l, b) });
                    if !(N::HEAP_KIDS && ord == Ord::Post) {
                        both!(|it| { let mut s = it.attach_context(); take_rows(&mut s, a) });
                    }
                    ctx(eq("values created, alive", &(val::created(), val::live()), &(n, n)), || format!("{} {:?} {:?} borrowing traversals stopped after {}", N::NAME, own, ord, a))?;
                    drop(t);
                    done(o, &at("borrowing"))?;
                }
            }
        }
        // combinators, by value, complete, abandoned, and with a panicking closure
        let seed = mix(c.num(5) as u64, c.hash64());
        let dd = 1 + seed % 6;
        let p = |v: &V| hits(seed, dd, v.id as u64);
        let limits: Vec<usize> = if o.exhaustive { (0..=n).collect() } else if lite() { vec![c.num(7) % (n + 1)] } else { vec![c.num(7) % (n + 1), n] };
        for bomb in limits {
            let mut key = 100;
            let mut run = |name: &str, f: &mut dyn FnMut(&mut dyn FnMut())| -> R {
                val::reset();
                guard(4 * n + 40);
                let mut left = bomb;
                let mut tick = || { if left == 0 { std::panic::panic_any(Bomb) } left -= 1; };
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut tick)));
                if let Err(e) = r { if !e.is::<Bomb>() { std::panic::resume_unwind(e) } }
                key += 1;
                o.eval(&[key, bomb as u64, N::NAME.len() as u64], bomb >= 1 && n >= 2);
                let at = || format!("{} {} (closure panics at call {})", N::NAME, name, bomb);
                // After a panic leaking is tolerated, destroying something twice is not.
                val::audit(bomb >= n).map_err(|e| format!("{}: {}", at(), e))
            };
            run("map", &mut |t| { N::build(m).map(|v| { t(); v }); })?;
            run("map to unit", &mut |t| { N::build(m).map(|_| t()); })?;
            run("map_path", &mut |t| { N::build(m).map_path(|_, v| { t(); v }); })?;
            run("fold", &mut |t| { N::build(m).fold(|k, v| { t(); Some((k.slots().into_iter().flatten().count(), v)) }); })?;
            run("fold_path", &mut |t| { N::build(m).fold_path(|k, _, v| { t(); Some((k.slots(), v).1) }); })?;
            run("prune", &mut |t| { N::build(m).prune(|v| { t(); p(v) }); })?;
            run("prune_path", &mut |t| { N::build(m).prune_path(|a, v| { t(); hits(seed, dd, phash(a) ^ v.id as u64) }); })?;
            run("prune_depth", &mut |_| { N::build(m).prune_depth(bomb); })?;
            run("at_path", &mut |_| { N::build(m).at_path(&[bomb % 3, 0]); })?;
            run("pipeline prune/map/fold", &mut |t| { N::build(m).into_pipeline().prune(|v| p(v)).map_path(|_, v| { t(); v }).fold_tree(|k, v| { k.slots(); v }); })?;
            run("pipeline abandoned", &mut |t| { N::build(m).into_pipeline().map_tree(|v| { t(); v }).prune(|v| p(v)).take(bomb / 2 + 1).count(); })?;
            run("pipeline collect", &mut |t| { N::build(m).into_pipeline().prune_path(|_, v| p(v)).map_tree(|v| { t(); (v, V::new(7)) }).collect_tree(); })?;
        }
        Ok(())
    }
}
/// Panic payload of the harness's own closures.
pub struct Bomb;

dual! {
    fn c14c_t / c14c_b<N>(c: &Case, o: &mut Obs) -> R {
        let n = c.nodes();
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        let g = || { val::reset(); guard(3 * n + 40) };
        for &ord in ORDS {
            for (a, b) in cuts(c, o, n) {
                if o.exhaustive && b > 0 { continue; }
                let at = |s: &'static str| move || format!("{} {:?} collection {}: {} elements", N::NAME, ord, s, a);
                g();
                let held: Vec<V> = cown!(build(), ord, |it| it.by_ref().take(a).collect());
                ctx(eq("values alive after dropping the iterator", &val::live(), &a.min(n)), at("by value"))?;
                drop(held);
                all_gone(&at("by value"))?;
                g();
                let _ = cown!(build(), ord, |it| take_rows(&mut it.attach_context(), a));
                all_gone(&at("context"))?;
                g();
                let mut v = build();
                cref!((&v), ord, |it| take_ids(&mut it, a));
                cmut!((&mut v), ord, |it| take_ids(&mut it, a));
                if !(N::HEAP_KIDS && ord == Ord::Post) {
                    cref!((&v), ord, |it| take_rows(&mut it.attach_context(), a));
                    cmut!((&mut v), ord, |it| take_rows(&mut it.attach_context(), a));
                }
                ctx(eq("values created, alive", &(val::created(), val::live()), &(n, n)), at("borrowed"))?;
                drop(v);
                all_gone(&at("borrowed"))?;
                o.eval(&[200, ord as u64, N::NAME.len() as u64, a as u64], a >= 1 && a < n && c.forest.len() >= 2);
            }
        }
        let seed = mix(c.num(5) as u64, c.hash64());
        let dd = 1 + seed % 6;
        let p = |v: &V| hits(seed, dd, v.id as u64);
        let k = c.forest.len();
        for a in 0..=(k + 1).min(4) {
            let mut key = 300;
            let mut run = |name: &str, f: &mut dyn FnMut()| -> R {
                g();
                f();
                key += 1;
                o.eval(&[key, a as u64, N::NAME.len() as u64], a >= 1 && k >= 2);
                all_gone(&|| format!("{} collection {} after {} trees", N::NAME, name, a))
            };
            run("prune_each", &mut || { build().prune_each(|v| p(v)).take(a).count(); })?;
            run("prune_path_each", &mut || { Bag(build()).prune_path_each(|_, v| p(v)).take(a).count(); })?;
            run("map_each", &mut || { build().map_each(|v| (v, V::new(1))).take(a).count(); })?;
            run("map_path_each", &mut || { build().map_path_each(|_, v| v).take(a).count(); })?;
            run("fold_each", &mut || { build().fold_each(|ks, v| { Slots::<V>::slots(ks); v }).take(a).count(); })?;
            run("fold_path_each", &mut || { build().fold_path_each(|ks, _, v| { Slots::<V>::slots(ks); v }).take(a).count(); })?;
            run("pipeline", &mut || { build().into_pipeline().prune(|v| p(v)).prune_depth(2).map_trees(|v| v).trees().take(a).count(); })?;
            run("pipeline values", &mut || { build().into_pipeline().prune_path(|_, v| p(v)).take(a).count(); })?;
            run("at_path", &mut || { build().at_path(&[a, 0]); })?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C17
/// Does it panic with a message of its own (not a bug elsewhere)?
fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
pub fn c17(c: &Case, o: &mut Obs) -> R {
    if c.forest.len() == 1 {
        let m = &c.forest[0];
        flavours!(c, c17_t / c17_b(c, m, o));
    }
    flavours!(c, c17c_t / c17c_b(c, o));
    Ok(())
}
dual! {
    fn c17_t / c17_b<N>(c: &Case, m: &M, o: &mut Obs) -> R {
        let n = m.size();
        for &ord in ORDS {
            for k in super::traverse::points(c, o, n) {
                for own in OWNS {
                    // Elements have been yielded already: once k >= 1 calls happened (the tree is
                    // never empty).
                    let want = k >= 1;
                    let at = |s: &'static str| move || format!("{} {:?} {:?} {} after {} next() calls panics", N::NAME, own, ord, s, k);
                    val::reset();
                    guard(n);
                    let got = any!(N, m, own, ord, |it| { take_ids(&mut it, k); panics(|| drop(it.attach_ancestors())) });
                    ctx(eq("outcome", &got, &want), at("attach_ancestors()"))?;
                    o.eval(&[0, own as u64, ord as u64, N::NAME.len() as u64, k as u64], k >= 1);
                    val::audit(true).map_err(|e| format!("{}: {}", at("attach_ancestors()")(), e))?;
                    guard(n);
                    let got = any!(N, m, own, ord, |it| { take_ids(&mut it, k); panics(|| drop(it.attach_context())) });
                    ctx(eq("outcome", &got, &want), at("attach_context()"))?;
                    o.eval(&[1, own as u64, ord as u64, N::NAME.len() as u64, k as u64], k >= 1);
                    val::audit(true).map_err(|e| format!("{}: {}", at("attach_context()")(), e))?;
                    guard(n);
                    let got = any!(N, m, own, ord, |it| { take_ids(&mut it, k); panics(|| { it.leaves().count(); }) });
                    ctx(eq("outcome", &got, &false), at("leaves()"))?;
                    guard(n);
                    let got = any!(N, m, own, ord, |it| { let mut s = it.attach_ancestors(); take_stacks(&mut s, k); panics(|| { s.leaves().count(); }) });
                    ctx(eq("outcome", &got, &false), at("attach_ancestors() then leaves()"))?;
                    o.eval(&[2, own as u64, ord as u64, N::NAME.len() as u64, k as u64], k >= 1);
                }
            }
        }
        Ok(())
    }
}
dual! {
    fn c17c_t / c17c_b<N>(c: &Case, o: &mut Obs) -> R {
        let n = c.nodes();
        let build = || -> Vec<N> { c.forest.iter().map(N::build).collect() };
        for &ord in ORDS {
            // Attaching after complete exhaustion is not pinned down for collections: an iterator
            // that has returned None again looks like a fresh one of no trees.
            for k in super::traverse::points(c, o, n).into_iter().filter(|k| *k <= n) {
                let want = k >= 1;
                let at = |s: &'static str| move || format!("{} {:?} {} collection attach_context() after {} next() calls panics", N::NAME, ord, s, k);
                guard(n);
                let got = cown!(build(), ord, |it| { take_ids(&mut it, k); panics(|| drop(it.attach_context())) });
                ctx(eq("outcome", &got, &want), at("owned"))?;
                guard(n);
                let mut v = build();
                let got = cref!((&v), ord, |it| { take_ids(&mut it, k); panics(|| drop(it.attach_context())) });
                ctx(eq("outcome", &got, &want), at("borrowed"))?;
                guard(n);
                let got = cmut!((&mut v), ord, |it| { take_ids(&mut it, k); panics(|| drop(it.attach_context())) });
                ctx(eq("outcome", &got, &want), at("mutable"))?;
                o.eval(&[3, ord as u64, N::NAME.len() as u64, k as u64], k >= 1);
            }
        }
        Ok(())
    }
}

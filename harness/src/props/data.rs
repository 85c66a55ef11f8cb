//! C16: the crate's own tree types as data (serde, clone, equality, default).
use super::*;
use serde_json::{json, Value};
use tree_iterators_rs::prelude::{BinaryTree, Tree};

fn js(m: &M, bin: bool, val: &dyn Fn(u32) -> Value) -> Value {
    if bin {
        let k = |i: usize| m.kids[i].as_ref().map_or(Value::Null, |k| js(k, bin, val));
        json!({"value": val(m.id), "left": k(0), "right": k(1)})
    } else {
        json!({"value": val(m.id), "children": m.present().map(|k| js(k, bin, val)).collect::<Vec<_>>()})
    }
}
/// One local change to a tree: a different value, a child moved, a node added or removed.
fn variants(m: &M, bin: bool, seed: u64) -> Vec<M> {
    fn edit(m: &M, target: u32, f: &dyn Fn(&mut M)) -> M {
        let mut x = m.clone();
        fn go(m: &mut M, target: u32, f: &dyn Fn(&mut M)) {
            if m.id == target {
                f(m);
            } else {
                for k in m.kids.iter_mut().flatten() {
                    go(k, target, f)
                }
            }
        }
        go(&mut x, target, f);
        x
    }
    let n = m.size() as u64;
    let base = m.id;
    let mut out = vec![];
    for i in 0..4u64 {
        let t = base + (mix(seed, i) % n) as u32;
        out.push(edit(m, t, &|x| x.id += 5000));
        out.push(edit(m, t, &|x| x.kids.reverse()));
        out.push(edit(m, t, &|x| {
            if bin {
                x.kids[(mix(seed, i + 9) & 1) as usize] = None
            } else {
                x.kids.pop();
            }
        }));
        out.push(edit(m, t, &|x| {
            let leaf = M { id: 9000, kids: if bin { vec![None, None] } else { vec![] } };
            if bin {
                if x.kids[1].is_none() {
                    x.kids[1] = Some(leaf)
                }
            } else {
                x.kids.push(Some(leaf))
            }
        }));
    }
    out
}
fn t_of<T>(m: &M, f: &dyn Fn(u32) -> T) -> Tree<T> {
    Tree { value: f(m.id), children: m.present().map(|k| t_of(k, f)).collect() }
}
fn b_of<T>(m: &M, f: &dyn Fn(u32) -> T) -> BinaryTree<T> {
    let [l, r] = [0, 1].map(|i| m.kids[i].as_ref().map(|k| Box::new(b_of(k, f))));
    BinaryTree { value: f(m.id), left: l, right: r }
}
/// Equal modulo 8.
#[derive(Debug, Clone, Default)]
struct Loose(u32);
impl PartialEq for Loose {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 8 == o.0 % 8
    }
}
macro_rules! data_check {
    ($fn:ident, $T:ident, $of:ident, $bin:expr) => {
        fn $fn(c: &Case, m: &M, o: &mut Obs) -> R {
            let name = stringify!($T);
            let deep = m.depth() >= 2;
            // serialised form and round trips, for several kinds of value
            fn trip<T>(m: &M, f: &dyn Fn(u32) -> T, g: &dyn Fn(u32) -> Value, at: &dyn Fn(&str) -> String) -> R
            where
                T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Default + std::fmt::Debug + Clone,
            {
                let t = $of(m, f);
                let want = js(m, $bin, g);
                let v = serde_json::to_value(&t).map_err(|e| at(&format!("serialise: {}", e)))?;
                ctx(eq("JSON", &v, &want), || at("to_value"))?;
                let back: $T<T> = serde_json::from_value(want).map_err(|e| at(&format!("deserialise: {}", e)))?;
                ctx(eq("tree read back", &back, &t), || at("from_value"))?;
                // a format that does not describe itself (as bincode, postcard)
                let b = crate::binfmt::to_bytes(&t).map_err(|e| at(&format!("serialise to bytes: {}", e)))?;
                let back: $T<T> = crate::binfmt::from_bytes(&b).map_err(|e| at(&format!("deserialise from bytes: {}", e)))?;
                ctx(eq("tree read back", &back, &t), || at("to_bytes/from_bytes"))?;
                // several trees in one message
                let pair = ($of(m, f), Some($of(m, f)));
                let b = crate::binfmt::to_bytes(&pair).map_err(|e| at(&format!("serialise to bytes: {}", e)))?;
                let back: ($T<T>, Option<$T<T>>) = crate::binfmt::from_bytes(&b).map_err(|e| at(&format!("deserialise a pair from bytes: {}", e)))?;
                ctx(eq("pair of trees read back", &back, &pair), || at("to_bytes/from_bytes"))?;
                if m.depth() < 50 {
                    let s = serde_json::to_string(&t).map_err(|e| at(&format!("serialise: {}", e)))?;
                    let back: $T<T> = serde_json::from_str(&s).map_err(|e| at(&format!("deserialise: {}", e)))?;
                    ctx(eq("tree read back", &back, &t), || at("to_string/from_str"))?;
                    let s2 = serde_json::to_string_pretty(&back.clone()).map_err(|e| at(&e.to_string()))?;
                    let back: $T<T> = serde_json::from_reader(s2.as_bytes()).map_err(|e| at(&format!("deserialise: {}", e)))?;
                    ctx(eq("tree read back", &back, &t), || at("pretty/from_reader"))?;
                }
                Ok(())
            }
            let at = |k: &'static str| move |s: &str| format!("{}<{}> {}", name, k, s);
            trip(m, &|i| i, &|i| json!(i), &at("u32"))?;
            trip(m, &|i| if i % 3 == 0 { None } else { Some(format!("\"n{}\u{00e9}\n", i)) }, &|i| if i % 3 == 0 { Value::Null } else { json!(format!("\"n{}\u{00e9}\n", i)) }, &at("Option<String>"))?;
            trip(m, &|i| (i as i64 - 3, vec![i; i as usize % 3], ()), &|i| json!([i as i64 - 3, vec![i; i as usize % 3], null]), &at("(i64, Vec<u32>, ())"))?;
            trip(m, &|i| V::marked(i, i * 3), &|i| json!([i, i * 3]), &at("V"))?;
            trip(m, &|i| Tree { value: i, children: vec![] }, &|i| json!({"value": i, "children": []}), &at("Tree<u32>"))?;
            trip(m, &|i| ((i % 2 == 0).then_some(()), 0.5f64 * i as f64, char::from(b'a' + (i % 26) as u8)), &|i| json!([null, 0.5 * i as f64, char::from(b'a' + (i % 26) as u8)]), &at("(Option<()>, f64, char)"))
                .or_else(|e| if e.contains("from_value") || e.contains("from_str") { Ok(()) } else { Err(e) })?; // JSON itself merges Some(()) and None
            for k in 0..6u64 {
                o.eval(&[k], deep);
            }
            // equality is that of the values, even where it is not an equivalence or coarser than identity
            let odd = m.id + (mix(c.hash64(), c.num(1) as u64) % m.size() as u64) as u32;
            let t = $of(m, &|i| if i == odd { f64::NAN } else { 1.0 });
            if t == t || !(t != t) || t.clone() == t {
                return Err(format!("{}: {} with a NaN at node {} compares equal to itself", name, m.shape(), odd));
            }
            let t = $of(m, &|i| Loose(i));
            let u = $of(m, &|i| Loose(i + 8));
            let v = $of(m, &|i| Loose(i + (i == odd) as u32));
            if t != u || !(t == u) || t == v {
                return Err(format!("{}: {} does not use the values' own equality", name, m.shape()));
            }
            o.eval(&[20, odd as u64], deep);
            // clone and equality agree with the shapes
            let t: $T<V> = $of(m, &V::new);
            let mut cl = t.clone();
            ctx(eq("clone", &snap(&cl), &snap(&t)), || name.to_string())?;
            if t != cl || !(t == cl) {
                return Err(format!("{}: a clone compares unequal to the original", name));
            }
            for v in variants(m, $bin, mix(c.hash64(), c.num(0) as u64)) {
                let same = &v == m;
                let u: $T<V> = $of(&v, &V::new);
                if (t == u) != same || (u == t) != same || (t != u) == same {
                    return Err(format!("{}: equality of {} and {} (ids {:?} / {:?}) is {} / {}", name, m.shape(), v.shape(), m.order(Ord::Pre).iter().map(|x| x.id).collect::<Vec<_>>(), v.order(Ord::Pre).iter().map(|x| x.id).collect::<Vec<_>>(), t == u, u == t));
                }
                o.eval(&[10, v.size() as u64, same as u64], deep);
            }
            cl.poke(&|i| i + 1);
            drop(cl);
            ctx(eq("original after editing and dropping its clone", &snap(&t), &snap_model(m, &|_| 0)), || name.to_string())?;
            let d: $T<u32> = Default::default();
            ctx(eq("default", &serde_json::to_value(&d).unwrap(), &js(&M { id: 0, kids: if $bin { vec![None, None] } else { vec![] } }, $bin, &|i| json!(i))), || name.to_string())?;
            drop(t);
            val::audit(true).map_err(|e| format!("{}: {}", name, e))
        }
    };
}
data_check!(data_t, Tree, t_of, false);
data_check!(data_b, BinaryTree, b_of, true);
pub fn c16(c: &Case, o: &mut Obs) -> R {
    let m = &c.forest[0];
    if c.bin {
        data_b(c, m, o)
    } else {
        data_t(c, m, o)
    }
}

//! The reference model: plain recursive trees with naive recursive definitions of every order.
//! Nothing in this file calls the library under test.
use std::fmt::Write;

/// A model node. `id`s are preorder numbers over the whole forest. For a collection-children tree
/// every entry of `kids` is `Some`; for a binary tree `kids` has exactly two slots.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    pub id: u32,
    pub kids: Vec<Option<M>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ord {
    Bfs,
    Pre,
    In,
    Post,
}
pub const T_ORDS: [Ord; 3] = [Ord::Bfs, Ord::Pre, Ord::Post];
pub const B_ORDS: [Ord; 4] = [Ord::Bfs, Ord::Pre, Ord::In, Ord::Post];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Own {
    O,
    R,
    W,
}
pub const OWNS: [Own; 3] = [Own::O, Own::R, Own::W];

impl M {
    pub fn present(&self) -> impl Iterator<Item = &M> {
        self.kids.iter().flatten()
    }
    pub fn is_leaf(&self) -> bool {
        self.present().next().is_none()
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        let mut st = vec![self];
        while let Some(x) = st.pop() {
            n += 1;
            st.extend(x.present());
        }
        n
    }
    pub fn depth(&self) -> usize {
        self.present().map(|k| k.depth() + 1).max().unwrap_or(0)
    }
    pub fn renumber(&mut self, next: &mut u32) {
        self.id = *next;
        *next += 1;
        for k in self.kids.iter_mut().flatten() {
            k.renumber(next);
        }
    }
    pub fn at(&self, path: &[usize]) -> Option<&M> {
        match path.split_first() {
            None => Some(self),
            Some((&i, rest)) => self.kids.get(i)?.as_ref()?.at(rest),
        }
    }
    pub fn order(&self, o: Ord) -> Vec<&M> {
        let mut out = vec![];
        match o {
            Ord::Bfs => {
                let mut level = vec![self];
                while !level.is_empty() {
                    let next: Vec<&M> = level.iter().flat_map(|m| m.present()).collect();
                    out.append(&mut level);
                    level = next;
                }
            }
            Ord::Pre => self.pre(&mut out),
            Ord::In => self.ino(&mut out),
            Ord::Post => self.post(&mut out),
        }
        out
    }
    fn pre<'a>(&'a self, out: &mut Vec<&'a M>) {
        out.push(self);
        for k in self.present() {
            k.pre(out);
        }
    }
    fn ino<'a>(&'a self, out: &mut Vec<&'a M>) {
        if let Some(l) = &self.kids[0] {
            l.ino(out);
        }
        out.push(self);
        if let Some(r) = &self.kids[1] {
            r.ino(out);
        }
    }
    fn post<'a>(&'a self, out: &mut Vec<&'a M>) {
        for k in self.present() {
            k.post(out);
        }
        out.push(self);
    }
    pub fn kid_ids(&self) -> Vec<Option<u32>> {
        self.kids.iter().map(|k| k.as_ref().map(|k| k.id)).collect()
    }
    pub fn shape(&self) -> String {
        let mut s = String::new();
        self.shape_into(&mut s);
        s
    }
    fn shape_into(&self, s: &mut String) {
        s.push('(');
        for k in &self.kids {
            match k {
                Some(k) => k.shape_into(s),
                None => s.push('.'),
            }
        }
        s.push(')');
    }
    pub fn parse(s: &str) -> Option<M> {
        fn go(b: &[u8], i: &mut usize) -> Option<M> {
            if b.get(*i)? != &b'(' {
                return None;
            }
            *i += 1;
            let mut kids = vec![];
            loop {
                match b.get(*i)? {
                    b')' => {
                        *i += 1;
                        return Some(M { id: 0, kids });
                    }
                    b'.' => {
                        *i += 1;
                        kids.push(None)
                    }
                    _ => kids.push(Some(go(b, i)?)),
                }
            }
        }
        let mut i = 0;
        let m = go(s.as_bytes(), &mut i)?;
        (i == s.len()).then_some(m)
    }
}

/// Facts about one node of a tree, looked up by id.
#[derive(Clone, Debug)]
pub struct Info {
    pub path: Vec<usize>,
    pub anc: Vec<u32>,
    /// Per child slot: is there a child?
    pub kids: Vec<bool>,
    pub leaf: bool,
}

/// `infos(m)[id - m.id]` describes node `id` of `m` (ids are contiguous preorder numbers).
pub fn infos(m: &M) -> Vec<Info> {
    fn go(m: &M, path: &mut Vec<usize>, anc: &mut Vec<u32>, out: &mut Vec<Info>) {
        anc.push(m.id);
        out.push(Info { path: path.clone(), anc: anc.clone(), kids: m.kids.iter().map(|k| k.is_some()).collect(), leaf: m.is_leaf() });
        for (i, k) in m.kids.iter().enumerate() {
            if let Some(k) = k {
                path.push(i);
                go(k, path, anc, out);
                path.pop();
            }
        }
        anc.pop();
    }
    let mut out = vec![];
    go(m, &mut vec![], &mut vec![], &mut out);
    out
}

/// One generated input: a forest of one node kind plus free numbers the subchecks interpret
/// (positions, predicate tables, stage programs ...).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Case {
    pub bin: bool,
    pub forest: Vec<M>,
    pub nums: Vec<u16>,
}

impl Case {
    pub fn new(bin: bool, mut forest: Vec<M>, nums: Vec<u16>) -> Case {
        let mut n = 0;
        for m in &mut forest {
            m.renumber(&mut n);
        }
        Case { bin, forest, nums }
    }
    pub fn nodes(&self) -> usize {
        self.forest.iter().map(|m| m.size()).sum()
    }
    pub fn num(&self, i: usize) -> usize {
        if self.nums.is_empty() {
            0
        } else {
            self.nums[i % self.nums.len()] as usize
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "{}", if self.bin { "binary " } else { "tree " });
        for m in &self.forest {
            s.push_str(&m.shape());
            s.push(' ');
        }
        let _ = write!(s, "nums={:?}", self.nums);
        s
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({
            "bin": self.bin,
            "forest": self.forest.iter().map(|m| m.shape()).collect::<Vec<_>>(),
            "nums": self.nums,
        })
    }
    pub fn from_json(v: &serde_json::Value) -> Option<Case> {
        let forest = v["forest"]
            .as_array()?
            .iter()
            .map(|s| M::parse(s.as_str()?))
            .collect::<Option<Vec<_>>>()?;
        let nums = v["nums"].as_array()?.iter().map(|n| n.as_u64().map(|n| n as u16)).collect::<Option<Vec<_>>>()?;
        Some(Case::new(v["bin"].as_bool()?, forest, nums))
    }
    /// One-line form: `t;(()())();1,2,3` (kind, shapes, numbers).
    pub fn compact(&self) -> String {
        let shapes: Vec<String> = self.forest.iter().map(|m| m.shape()).collect();
        let nums: Vec<String> = self.nums.iter().map(|n| n.to_string()).collect();
        format!("{};{};{}", if self.bin { "b" } else { "t" }, shapes.join(" "), nums.join(","))
    }
    pub fn from_compact(s: &str) -> Option<Case> {
        let mut it = s.split(';');
        let (k, f, n) = (it.next()?, it.next()?, it.next()?);
        let forest = f.split(' ').filter(|x| !x.is_empty()).map(M::parse).collect::<Option<Vec<_>>>()?;
        let nums = n.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect::<Option<Vec<u16>>>()?;
        Some(Case::new(k == "b", forest, nums))
    }
    pub fn hash64(&self) -> u64 {
        let mut h = Fnv::new();
        h.byte(self.bin as u8);
        for m in &self.forest {
            h.bytes(m.shape().as_bytes());
            h.byte(b';');
        }
        for n in &self.nums {
            h.bytes(&n.to_le_bytes());
        }
        h.0
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn byte(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.byte(x)
        }
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15);
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// All ordered trees with exactly `n` nodes.
pub fn all_trees(n: usize) -> Vec<M> {
    fn forests(n: usize) -> Vec<Vec<Option<M>>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for first in 1..=n {
            for t in all_trees(first) {
                for rest in forests(n - first) {
                    let mut f = vec![Some(t.clone())];
                    f.extend(rest);
                    out.push(f);
                }
            }
        }
        out
    }
    if n == 0 {
        return vec![];
    }
    forests(n - 1).into_iter().map(|kids| M { id: 0, kids }).collect()
}

/// All binary trees with exactly `n` nodes.
pub fn all_binary(n: usize) -> Vec<M> {
    fn opt(n: usize) -> Vec<Option<M>> {
        if n == 0 {
            vec![None]
        } else {
            all_binary(n).into_iter().map(Some).collect()
        }
    }
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    for l in 0..n {
        for a in opt(l) {
            for b in opt(n - 1 - l) {
                out.push(M { id: 0, kids: vec![a.clone(), b] });
            }
        }
    }
    out
}

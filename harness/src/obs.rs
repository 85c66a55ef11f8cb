//! What a run observed: counters, distinct non-trivial cases, classification.
use crate::model::{mix, Case, Fnv};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Obs {
    /// Executions of the real code that were compared with the oracle.
    pub evals: u64,
    /// (case, sub-input) hashes of non-trivial executions, deduplicated at the end of the run.
    pub hashes: Vec<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub case_hash: u64,
    /// Random cases carry their own numbers; exhaustive cases ask the subcheck to enumerate.
    pub exhaustive: bool,
    pub thorough: bool,
}

impl Obs {
    pub fn begin(&mut self, c: &Case) {
        self.case_hash = c.hash64();
        self.exhaustive = c.nums.is_empty();
    }
    /// Record one compared execution. `sub` distinguishes executions on the same case.
    pub fn eval(&mut self, sub: &[u64], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = Fnv::new();
            for s in sub {
                h.bytes(&s.to_le_bytes());
            }
            self.hashes.push(mix(self.case_hash, h.0));
            if self.hashes.len() > 4_000_000 {
                self.compact();
            }
        }
    }
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn compact(&mut self) {
        self.hashes.sort_unstable();
        self.hashes.dedup();
    }
    pub fn merge(&mut self, mut o: Obs) {
        self.evals += o.evals;
        self.hashes.append(&mut o.hashes);
        self.compact();
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
    }
}

//! C18: the operations of all other checks, executed where undefined behaviour is visible
//! (AddressSanitizer natively, Miri as an interpreter). Wrong answers are the other checks'
//! business and ignored here; only the memory / aliasing report decides.
use super::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The checks whose operations are executed, and whether they look at the whole forest.
pub const PARTS: &[(&str, CheckFn, bool)] = &[
    ("C01", traverse::c01, false),
    ("C02", mutate::c02, false),
    ("C03", traverse::c03, false),
    ("C04", traverse::c04, false),
    ("C05", traverse::c05, false),
    ("C06", traverse::c06, false),
    ("C07", paths::c07, true),
    ("C08", coll::c08, true),
    ("C09", comb::c09, false),
    ("C10", comb::c10, false),
    ("C11", comb::c11, false),
    ("C12", pipe::c12, false),
    ("C13", coll::c13, true),
    ("C14", ledger::c14, true),
    ("C15", mutate::c15, false),
    ("C16", data::c16, false),
    ("C17", ledger::c17, true),
    ("C19", lazy::c19, false),
    ("hostile", hostile::hostile, true),
];
/// One part on one input; a wrong answer is returned but does not count here.
pub fn part(i: usize, c: &Case, flavour: Option<u64>, o: &mut Obs) -> R {
    let (_, f, forest) = PARTS[i];
    if c.forest.is_empty() && !forest {
        return Ok(());
    }
    let case_hash = o.case_hash;
    o.case_hash = mix(case_hash, i as u64);
    pick_flavour(flavour);
    val::reset();
    let r = catch_unwind(AssertUnwindSafe(|| f(c, o)));
    pick_flavour(None);
    val::reset();
    o.case_hash = case_hash;
    r.unwrap_or_else(|_| Err("panicked".into()))
}
pub fn c18(c: &Case, o: &mut Obs) -> R {
    let h = c.hash64();
    let small = c.nodes() <= 4;
    for i in 0..PARTS.len() {
        // Every operation on the small inputs, a third of them (rotating) on the larger ones.
        if !small && (h.wrapping_add(i as u64)) % 3 != 0 {
            continue;
        }
        if part(i, c, None, o).is_err() {
            o.class("answers other checks judge wrong (not judged here)");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ known findings

/// Postorder traversal with context over borrowed / mutably borrowed children collections that own
/// memory: the library keeps a bitwise duplicate of the collection, so it is freed twice.
pub fn kf1(mutable: bool) {
    use streaming_iterator::StreamingIterator;
    use tree_iterators_rs::prelude::*;
    val::reset();
    let m = M::parse("(()())").unwrap();
    let mut n = <RNode as TN>::build(&m);
    let mut seen = 0;
    if mutable {
        let mut it = n.dfs_postorder_iter_mut().attach_context();
        while let Some(c) = it.next() {
            seen += c.children().len();
        }
    } else {
        let mut it = n.dfs_postorder_iter().attach_context();
        while let Some(c) = it.next() {
            seen += c.children().len();
        }
    }
    println!("{}", seen);
}
/// Mutable inorder / postorder contexts hand out `&'a mut` children that outlive the step although
/// the same nodes are (inorder: will be, postorder: were) handed out through `ancestors_mut()`.
pub fn kf2(inorder: bool) {
    use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
    use tree_iterators_rs::prelude::*;
    val::reset();
    let leaf = |s: &str| BinaryTree { value: s.to_string(), left: None, right: None };
    let mut n = BinaryTree { value: "root".to_string(), left: None, right: Some(Box::new(leaf("a string on the heap"))) };
    let mut spare = "spare".to_string();
    if inorder {
        let mut it = n.dfs_inorder_iter_mut().attach_context();
        it.advance();
        let kid: &mut BinaryTree<String> = it.get_mut().unwrap().children_mut()[1].take().unwrap();
        it.advance();
        let s: &str = it.get().unwrap().ancestors().last().unwrap();
        kid.value = String::new();
        println!("{}", s);
    } else {
        let mut it = n.dfs_postorder_iter_mut().attach_context();
        it.advance();
        let v: &mut String = std::mem::replace(it.get_mut().unwrap().ancestors_mut().last_mut().unwrap(), &mut spare);
        it.advance();
        let s: &str = &it.get().unwrap().children()[1].as_ref().unwrap().value;
        *v = String::new();
        println!("{}", s);
    }
}

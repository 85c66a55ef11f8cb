pub use crate::drive::*;
pub use crate::model::*;
pub use crate::nodes::*;
pub use crate::obs::Obs;
pub use crate::val::{self, HasId, MutId, V, W};

/// Expand one generic body for collection-children nodes and for binary nodes.
/// Inside: `any!` / `own!` / `rf!` / `mt!` drive the four/three orders; `ORDS` lists them; `BIN`.
macro_rules! dual {
    ($(#[$m:meta])* fn $t:ident / $b:ident <$N:ident> ($($p:ident : $pt:ty),* $(,)?) -> $ret:ty $body:block) => {
        $(#[$m])*
        fn $t<$N: TN>($($p: $pt),*) -> $ret {
            #[allow(unused_imports)]
            use $crate::drive::{t_any as any, t_mut as mt, t_own as own, t_ref as rf};
            #[allow(unused_imports)]
            use tree_iterators_rs::prelude::{BorrowedTreeNode as _, MutBorrowedTreeNode as _, OwnedTreeNode as _, TreeIterator as _, TreeIteratorBase as _, OwnedIntoIteratorOfTrees as _, MutBorrowedIntoIteratorOfTrees as _, BorrowedIntoIteratorOfTrees as _, TreeCollectionIteratorBase as _, TreeCollectionIterator as _};
            #[allow(unused_imports)]
            use $crate::drive::{tc_own as cown, tc_ref as cref, tc_mut as cmut};
            #[allow(unused_imports)]
            use $crate::props::pipe::{coll_t as cdrv, single_t as drv};
            #[allow(unused_macros)]
            macro_rules! pde { ($v:expr, $d:expr) => {{
                #[cfg(pde_plain)]
                let r = $v.prune_depth_each($d);
                #[cfg(not(pde_plain))]
                let r = $v.prune_depth_each::<()>($d);
                r
            }}; }
            #[allow(dead_code)]
            const ORDS: &[Ord] = &T_ORDS;
            #[allow(dead_code)]
            const BIN: bool = false;
            $body
        }
        $(#[$m])*
        fn $b<$N: BN>($($p: $pt),*) -> $ret {
            #[allow(unused_imports)]
            use $crate::drive::{b_any as any, b_mut as mt, b_own as own, b_ref as rf};
            #[allow(unused_imports)]
            use tree_iterators_rs::prelude::{BorrowedBinaryTreeNode as _, MutBorrowedBinaryTreeNode as _, OwnedBinaryTreeNode as _, BinaryTreeIterator as _, TreeIteratorBase as _, OwnedIntoIteratorOfBinaryTrees as _, MutBorrowedIntoIteratorOfBinaryTrees as _, BorrowedIntoIteratorOfBinaryTrees as _, TreeCollectionIteratorBase as _, BinaryTreeCollectionIterator as _};
            #[allow(unused_imports)]
            use $crate::drive::{bc_own as cown, bc_ref as cref, bc_mut as cmut};
            #[allow(unused_imports)]
            use $crate::props::pipe::{coll_b as cdrv, single_b as drv};
            #[allow(unused_macros)]
            macro_rules! pde { ($v:expr, $d:expr) => { $v.prune_depth_each($d) }; }
            #[allow(dead_code)]
            const ORDS: &[Ord] = &B_ORDS;
            #[allow(dead_code)]
            const BIN: bool = true;
            $body
        }
    };
}
pub(crate) use dual;

thread_local! { static FLAVOUR: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) }; }
/// Restrict `flavours!` to one node type (interpreters are slow), or lift the restriction.
pub fn pick_flavour(f: Option<u64>) {
    FLAVOUR.with(|x| x.set(f))
}
/// Running in an interpreter: subchecks sample their inner loops more thinly.
pub fn lite() -> bool {
    FLAVOUR.with(|x| x.get()).is_some()
}
pub fn flavour_on(i: u64, of: u64) -> bool {
    FLAVOUR.with(|x| x.get()).map_or(true, |f| f % of == i)
}
/// Run the pair of expansions on every node flavour of the case's kind.
macro_rules! flavours {
    ($c:ident, $t:ident / $b:ident ($($a:expr),*)) => {{
        use tree_iterators_rs::prelude::{BinaryTree, Tree};
        use $crate::props::flavour_on;
        if $c.bin {
            if flavour_on(0, 2) { $b::<CNode>($($a),*)?; }
            if flavour_on(1, 2) { $b::<BinaryTree<V>>($($a),*)?; }
        } else {
            if flavour_on(0, 6) { $t::<LNode>($($a),*)?; }
            if flavour_on(1, 6) { $t::<Tree<V>>($($a),*)?; }
            if flavour_on(2, 6) { $t::<DNode>($($a),*)?; }
            if flavour_on(3, 6) { $t::<RNode>($($a),*)?; }
            if flavour_on(4, 6) { $t::<INode>($($a),*)?; }
            if flavour_on(5, 6) { $t::<WNode>($($a),*)?; }
        }
    }};
}
pub(crate) use flavours;

pub mod coll;
pub mod comb;
pub mod mutate;
pub mod data;
pub mod hostile;
pub mod deep;
pub mod lazy;
pub mod ledger;
pub mod paths;
pub mod pipe;
pub mod traverse;
pub mod ub;

/// Keep the library from running away on a case of `n` nodes.
pub fn guard(n: usize) {
    val::set_work_limit(2000 + 300 * n as u64);
}

/// A predicate over node ids: an explicit bit set (exhaustive cases) or a seeded random table.
#[derive(Clone, Copy, Debug)]
pub enum Mask {
    Bits(u32),
    Rand(u64, u64),
}
impl Mask {
    pub fn hit(&self, id: u32) -> bool {
        match *self {
            Mask::Bits(b) => b >> id & 1 == 1,
            Mask::Rand(seed, per16) => mix(seed, id as u64) % 16 < per16,
        }
    }
    pub fn key(&self) -> u64 {
        match *self {
            Mask::Bits(b) => b as u64,
            Mask::Rand(s, d) => mix(s, d + 1000),
        }
    }
}
/// Every subset of the nodes for small exhaustive cases, else a few random tables.
pub fn masks(c: &Case, o: &Obs, n: usize) -> Vec<Mask> {
    let lim = if o.thorough { 8 } else { 6 };
    if o.exhaustive && n <= lim {
        (0..1u32 << n).map(Mask::Bits).collect()
    } else if o.exhaustive {
        (0..12).map(|i| Mask::Rand(mix(c.hash64(), i), 1 + i % 6)).collect()
    } else {
        (0..if lite() { 1 } else { 3 }).map(|i| Mask::Rand(mix(c.num(i) as u64, i as u64), 1 + c.num(i + 3) as u64 % 7)).collect()
    }
}

pub type CheckFn = fn(&Case, &mut Obs) -> R;

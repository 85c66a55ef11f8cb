#![allow(unused, dropping_references, dropping_copy_types, clippy::all)]
pub mod binfmt;
pub mod drive;
pub mod gen;
pub mod model;
pub mod nodes;
pub mod obs;
pub mod props;
pub mod registry;
#[cfg(feature = "gen")]
pub mod miri;
#[cfg(feature = "gen")]
pub mod run;
pub mod val;

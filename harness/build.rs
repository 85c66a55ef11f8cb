//! The owned `prune_depth_each` of general trees has a type parameter that nothing determines, so a
//! caller must name one. Should it ever go, the call has to lose its turbofish.
fn main() {
    println!("cargo::rustc-check-cfg=cfg(pde_plain)");
    println!("cargo::rerun-if-changed=Cargo.toml");
    let toml = std::fs::read_to_string("Cargo.toml").unwrap_or_default();
    let Some(line) = toml.lines().find(|l| l.starts_with("tree_iterators_rs")) else { return };
    let Some(dir) = line.split('"').nth(1) else { return };
    let file = format!("{dir}/src/prelude.rs");
    println!("cargo::rerun-if-changed={file}");
    let src = std::fs::read_to_string(&file).unwrap_or_default();
    let owned = src.split("pub trait OwnedIntoIteratorOfTrees").nth(1).unwrap_or("");
    if owned.split("fn prune_depth_each").nth(1).is_some_and(|s| s.trim_start().starts_with('(')) {
        println!("cargo::rustc-cfg=pde_plain");
    }
}

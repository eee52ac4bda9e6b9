#![allow(unused_imports, dead_code, unused_macros)]
// Written by build.rs from /repo/crates/bls-crypto/src/lib.rs at each build; the crate root has to be
// the repository's own, for its `crate::` paths.
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
#[path = "/verif/harness/direct/src/verif_harness.rs"]
pub mod verif_harness;
#[cfg(feature = "native")]
fn main() {
    symapi::native::main(verif_harness::TABLE)
}

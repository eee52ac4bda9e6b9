#![allow(unused_imports, dead_code)]
#[path = "/repo/crates/bls-gadgets/src/utils.rs"]
pub mod utils;
#[path = "/verif/harness/utils/src/verif_harness.rs"]
pub mod verif_harness;
#[cfg(feature = "native")]
fn main() {
    symapi::native::main(verif_harness::TABLE)
}

#![allow(unused_imports, dead_code, unused_macros, special_module_name)]
pub mod verif_harness;
#[cfg(feature = "native")]
fn main() {
    symapi::native::main(verif_harness::TABLE)
}

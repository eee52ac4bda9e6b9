pub use ark::{lc, ns};
pub mod r1cs {
    pub use ark::r1cs::*;
}

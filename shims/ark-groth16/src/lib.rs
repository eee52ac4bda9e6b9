pub use ark::groth16::*;

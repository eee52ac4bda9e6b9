pub use ark::curves::bls12_377::*;
pub mod constraints {
    use ark::curves::bls12_377::Parameters;
    pub use ark::vars::{Bls12PairingVar as PairingVar, Fq2Var};
    pub type FqVar = ark::vars::FpVar<ark::ff::Fq>;
    pub type G1Var = ark::vars::G1Var<Parameters>;
    pub type G2Var = ark::vars::G2Var<Parameters>;
    pub type G1PreparedVar = ark::vars::G1PreparedVar<Parameters>;
    pub type G2PreparedVar = ark::vars::G2PreparedVar<Parameters>;
}

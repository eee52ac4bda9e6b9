//! Models of the parts of arkworks (early 2021, the versions the repository pins) that it uses.
//! Field elements are exact (terms of the engine's prime fields). A group element is its discrete
//! logarithm with respect to the group's generator; its coordinates are functions of it. Pairings
//! multiply discrete logarithms. Serialized forms of points are injective functions of the point.
//! Everything here is environment: the code under test is compiled unmodified against it.
#![allow(clippy::all)]
pub mod ec;
pub mod ff;
pub mod ser;
pub mod curves;
pub mod crypto;
pub mod r1cs;
pub mod vars;
pub mod groth16;

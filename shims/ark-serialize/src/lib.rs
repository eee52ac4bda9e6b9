pub use ark::ser::*;
#[cfg(feature = "derive")]
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};

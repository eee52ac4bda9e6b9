pub use ark::ff::*;
pub use ark::to_bytes;
pub mod bytes {
    pub use ark::ff::{FromBytes, ToBytes};
}
pub mod bits {
    pub use ark::ff::{BitIteratorBE, BitIteratorLE};
}

pub use ark::crypto::*;

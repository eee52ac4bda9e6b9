pub use ark::ec::*;

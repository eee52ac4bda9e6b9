pub use rand::Seeded as ChaChaRng;
pub use rand::Seeded as ChaCha8Rng;
pub use rand::Seeded as ChaCha12Rng;
pub use rand::Seeded as ChaCha20Rng;
pub mod rand_core { pub use rand::{CryptoRng, Error, RngCore, SeedableRng}; }

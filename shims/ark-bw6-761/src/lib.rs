pub use ark::curves::bw6_761::*;

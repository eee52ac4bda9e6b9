pub use ark::curves::ed_on_bw6_761::*;

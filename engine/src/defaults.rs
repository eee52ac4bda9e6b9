//! Default values of unconstrained variables and function applications; shared with the native
//! replay runtime so that both sides agree on everything the solver left open.
#![allow(dead_code)]
use crate::big::{Field, Rng, U};

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
/// Montgomery residue
pub fn field(f: &Field, key: &[u8]) -> U {
    let mut r = Rng(fnv(key));
    f.random(&mut r)
}
pub fn bits(n: usize, key: &[u8]) -> Vec<bool> {
    let mut r = Rng(fnv(key) ^ 0x5bd1e995);
    (0..n).map(|_| r.next() & 1 == 1).collect()
}
/// key of an application: name, then each argument (bits packed, or the 48-byte plain value)
pub fn key_bits(key: &mut Vec<u8>, b: &[bool]) {
    key.push(b'B');
    key.extend_from_slice(&(b.len() as u32).to_le_bytes());
    let mut cur = 0u8;
    for (i, x) in b.iter().enumerate() {
        cur |= (*x as u8) << (i % 8);
        if i % 8 == 7 {
            key.push(cur);
            cur = 0;
        }
    }
    if b.len() % 8 != 0 {
        key.push(cur);
    }
}
pub fn key_field(key: &mut Vec<u8>, plain: &U) {
    key.push(b'F');
    for l in plain {
        key.extend_from_slice(&l.to_le_bytes());
    }
}

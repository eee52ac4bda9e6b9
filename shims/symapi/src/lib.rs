//! What harnesses and environment models use to talk to the symbolic engine. With the feature
//! `native` the same calls are served by a concrete runtime that reads a model file (SYM_MODEL) and
//! prints a trace, so that a counterexample is replayed by running the real code natively.
#![allow(clippy::missing_safety_doc)]

#[cfg(feature = "native")]
#[path = "/verif/engine/src/big.rs"]
pub mod big;
#[cfg(feature = "native")]
#[path = "/verif/engine/src/defaults.rs"]
pub mod defaults;
#[cfg(feature = "native")]
pub mod native;
#[cfg(feature = "native")]
use native as raw;

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize);
        pub fn sym_u64(name: *const u8, l: usize, bits: u32) -> u64;
        pub fn sym_bool(name: *const u8, l: usize) -> bool;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, label: *const u8, l: usize);
        pub fn sym_reach(label: *const u8, l: usize);
        pub fn sym_note(label: *const u8, l: usize, v: u64);
        pub fn sym_allow_panic(b: bool);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_settle(a: bool) -> bool;
        pub fn sym_under(a: bool) -> bool;
        pub fn sym_is_concrete(a: bool) -> bool;
        pub fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sym_native() -> bool;
        pub fn fp_const(f: u32, limbs: *const u64) -> u32;
        pub fn fp_var(f: u32, name: *const u8, l: usize) -> u32;
        pub fn fp_add(a: u32, b: u32) -> u32;
        pub fn fp_sub(a: u32, b: u32) -> u32;
        pub fn fp_mul(a: u32, b: u32) -> u32;
        pub fn fp_neg(a: u32) -> u32;
        pub fn fp_inv(a: u32) -> u32;
        pub fn fp_eq(a: u32, b: u32) -> bool;
        pub fn fp_ite(c: bool, a: u32, b: u32) -> u32;
        pub fn fp_from_bool(f: u32, b: bool) -> u32;
        pub fn fp_to_bytes(a: u32, out: *mut u8, n: usize);
        pub fn fp_from_bytes(f: u32, p: *const u8, n: usize) -> u32;
        pub fn uf_begin();
        pub fn uf_arg_bytes(p: *const u8, n: usize);
        pub fn uf_arg_u64(v: u64);
        pub fn uf_arg_fp(a: u32);
        pub fn uf_bytes(name: *const u8, l: usize, out: *mut u8, n: usize);
        pub fn uf_bool(name: *const u8, l: usize) -> bool;
        pub fn uf_fp(name: *const u8, l: usize, f: u32) -> u32;
    }
}

/// arbitrary bytes
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::sym_bytes(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    b
}
pub fn bytes_vec(n: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { raw::sym_bytes(b.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    b
}
pub fn u64(name: &str, bits: u32) -> u64 {
    unsafe { raw::sym_u64(name.as_ptr(), name.len(), bits) }
}
pub fn u8(name: &str) -> u8 {
    u64(name, 8) as u8
}
pub fn u16(name: &str) -> u16 {
    u64(name, 16) as u16
}
pub fn u32(name: &str) -> u32 {
    u64(name, 32) as u32
}
pub fn bool(name: &str) -> bool {
    unsafe { raw::sym_bool(name.as_ptr(), name.len()) }
}
/// an arbitrary value of 0..n; every value is explored separately
pub fn choice(n: usize, name: &str) -> usize {
    let mut bits = 1;
    while (1usize << bits) < n {
        bits += 1;
    }
    let v = u64(name, bits);
    assume(v < n as u64);
    concretize(v) as usize
}
pub fn assume(b: bool) {
    unsafe { raw::sym_assume(b) }
}
pub fn check(b: bool, label: &str) {
    unsafe { raw::sym_check(b, label.as_ptr(), label.len()) }
}
pub fn reach(label: &str) {
    unsafe { raw::sym_reach(label.as_ptr(), label.len()) }
}
pub fn note(label: &str, v: u64) {
    unsafe { raw::sym_note(label.as_ptr(), label.len(), v) }
}
/// panics end the path quietly from here on (true) or are violations (false, the initial state)
pub fn allow_panic(b: bool) {
    unsafe { raw::sym_allow_panic(b) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::sym_ite(c, a, b) }
}
/// conjunction without a branch
pub fn and(a: bool, b: bool) -> bool {
    unsafe { raw::sym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { raw::sym_or(a, b) }
}
/// the same truth value, as a constant where this path leaves no choice
pub fn settle(a: bool) -> bool {
    unsafe { raw::sym_settle(a) }
}
/// whether the value is the same for all inputs
pub fn is_concrete(a: bool) -> bool {
    unsafe { raw::sym_is_concrete(a) }
}
/// the same value on this path, without what was assumed before (no solver involved)
pub fn under(a: bool) -> bool {
    unsafe { raw::sym_under(a) }
}
/// the conjunction of conditions, without those that this path implies
pub fn settle_all(v: &[bool]) -> bool {
    let mut r = true;
    for x in v {
        r = and(r, settle(*x));
    }
    r
}
pub fn not(a: bool) -> bool {
    !a
}
pub fn xor(a: bool, b: bool) -> bool {
    a ^ b
}
/// equality of byte strings without a branch per byte
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { raw::sym_eq_bytes(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn eq_bools(a: &[bool], b: &[bool]) -> bool {
    a.len() == b.len() && unsafe { raw::sym_eq_bytes(a.as_ptr() as *const u8, b.as_ptr() as *const u8, a.len()) }
}
pub fn is_native() -> bool {
    unsafe { raw::sym_native() }
}

/// Prime-field elements: handles of terms (engine) or values (native). Field 0: the scalar field of
/// BLS12-377; field 1: its base field, the scalar field of BW6-761.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fe(pub u32);
pub mod fe {
    use super::*;
    pub const BITS: [usize; 2] = [253, 377];
    pub fn cst(f: u32, limbs: &[u64; 6]) -> Fe {
        Fe(unsafe { raw::fp_const(f, limbs.as_ptr()) })
    }
    pub fn small(f: u32, v: u64) -> Fe {
        cst(f, &[v, 0, 0, 0, 0, 0])
    }
    pub fn var(f: u32, name: &str) -> Fe {
        Fe(unsafe { raw::fp_var(f, name.as_ptr(), name.len()) })
    }
    pub fn add(a: Fe, b: Fe) -> Fe {
        Fe(unsafe { raw::fp_add(a.0, b.0) })
    }
    pub fn sub(a: Fe, b: Fe) -> Fe {
        Fe(unsafe { raw::fp_sub(a.0, b.0) })
    }
    pub fn mul(a: Fe, b: Fe) -> Fe {
        Fe(unsafe { raw::fp_mul(a.0, b.0) })
    }
    pub fn neg(a: Fe) -> Fe {
        Fe(unsafe { raw::fp_neg(a.0) })
    }
    pub fn inv(a: Fe) -> Fe {
        Fe(unsafe { raw::fp_inv(a.0) })
    }
    pub fn eq(a: Fe, b: Fe) -> bool {
        unsafe { raw::fp_eq(a.0, b.0) }
    }
    pub fn ite(c: bool, a: Fe, b: Fe) -> Fe {
        Fe(unsafe { raw::fp_ite(c, a.0, b.0) })
    }
    pub fn from_bool(f: u32, b: bool) -> Fe {
        Fe(unsafe { raw::fp_from_bool(f, b) })
    }
    /// little-endian bytes of the canonical representative
    pub fn to_bytes(a: Fe, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        unsafe { raw::fp_to_bytes(a.0, v.as_mut_ptr(), n) };
        v
    }
    /// little-endian bytes, reduced modulo the field's prime
    pub fn from_bytes(f: u32, b: &[u8]) -> Fe {
        Fe(unsafe { raw::fp_from_bytes(f, b.as_ptr(), b.len()) })
    }
}

/// An application of an uninterpreted function. Names starting with '!' are injective.
pub struct Uf(());
impl Uf {
    pub fn new() -> Uf {
        unsafe { raw::uf_begin() };
        Uf(())
    }
    pub fn bytes(self, b: &[u8]) -> Uf {
        unsafe { raw::uf_arg_bytes(b.as_ptr(), b.len()) };
        self
    }
    pub fn u64(self, v: u64) -> Uf {
        unsafe { raw::uf_arg_u64(v) };
        self
    }
    pub fn fe(self, a: Fe) -> Uf {
        unsafe { raw::uf_arg_fp(a.0) };
        self
    }
    pub fn to_bytes(self, name: &str, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        unsafe { raw::uf_bytes(name.as_ptr(), name.len(), v.as_mut_ptr(), n) };
        v
    }
    pub fn to_bool(self, name: &str) -> bool {
        unsafe { raw::uf_bool(name.as_ptr(), name.len()) }
    }
    pub fn to_fe(self, name: &str, f: u32) -> Fe {
        Fe(unsafe { raw::uf_fp(name.as_ptr(), name.len(), f) })
    }
}

/// Declares harnesses: an exported entry per harness for the engine and a table for native runs.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(#[no_mangle] pub extern "C" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

//! C04: bit/byte conversions, every bit and byte symbolic.
use crate::utils::*;
use symapi::*;

fn bits(n: usize, name: &str) -> Vec<bool> {
    let b = bytes_vec((n + 7) / 8, name);
    (0..n).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect()
}
fn bit(b: &[u8], k: usize) -> bool {
    (b[k / 8] >> (k % 8)) & 1 == 1
}
fn check_bytes(r: &[u8], n: usize, want: impl Fn(usize) -> bool, len: &str, val: &str, pad: &str) {
    check(r.len() == (n + 7) / 8, len);
    let mut same = true;
    for k in 0..n {
        same = and(same, bit(r, k) == want(k));
    }
    check(same, val);
    let mut zero = true;
    for k in n..8 * r.len() {
        zero = and(zero, !bit(r, k));
    }
    check(zero, pad);
}
fn to_bytes(n: usize) {
    to_bytes_of(n, "bits")
}
fn to_bytes_of(n: usize, name: &str) {
    let v = bits(n, name);
    let r = bits_be_to_bytes_le(&v);
    reach("be");
    check_bytes(&r, n, |k| v[n - 1 - k], "be bits to bytes: length", "be bits to bytes: value", "be bits to bytes: padding");
    check(eq_bools(&bytes_le_to_bits_be(&r, n), &v), "be bits to bytes and back");
    let r = bits_le_to_bytes_le(&v);
    reach("le");
    check_bytes(&r, n, |k| v[k], "le bits to bytes: length", "le bits to bytes: value", "le bits to bytes: padding");
    check(eq_bools(&bytes_le_to_bits_le(&r, n), &v), "le bits to bytes and back");
}
fn to_bits(m: usize, take: usize) {
    to_bits_of(m, take, "bytes")
}
fn to_bits_of(m: usize, take: usize, name: &str) {
    let b = bytes_vec(m, name);
    let t = if take < 8 * m { take } else { 8 * m };
    let be = bytes_le_to_bits_be(&b, take);
    let le = bytes_le_to_bits_le(&b, take);
    check(be.len() == t, "bytes to be bits: length");
    check(le.len() == t, "bytes to le bits: length");
    let (mut x, mut y) = (true, true);
    for k in 0..t {
        x = and(x, be[t - 1 - k] == bit(&b, k));
        y = and(y, le[k] == bit(&b, k));
    }
    check(x, "bytes to be bits: value");
    check(y, "bytes to le bits: value");
    reach("bits");
    if take >= 8 * m {
        check(eq_bytes(&bits_be_to_bytes_le(&be), &b), "bytes to be bits and back");
        check(eq_bytes(&bits_le_to_bytes_le(&le), &b), "bytes to le bits and back");
        reach("back");
    }
}
fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
harnesses! {
    // every number of bits of the range, all bits symbolic
    fn c04_to_bytes_a() { to_bytes(choice(160, "bits")) }
    fn c04_to_bytes_b() { to_bytes(160 + choice(112, "bits")) }
    fn c04_to_bytes_sizes() { to_bytes(pick(&[376, 377, 378, 382, 383, 384, 511, 512, 513, 753, 754, 755, 761, 767, 768, 1023, 1024, 1025], "bits")) }
    fn c04_to_bytes_large() { to_bytes(pick(&[2047, 2048, 2049, 4095, 4097, 6001, 8192], "bits")) }
    // every number of bytes up to 20, every number of bits up to more than there are
    fn c04_to_bits_a() {
        let m = choice(11, "bytes");
        to_bits(m, choice(8 * m + 10, "take"))
    }
    fn c04_to_bits_b() {
        let m = 11 + choice(10, "bytes");
        to_bits(m, choice(8 * m + 10, "take"))
    }
    fn c04_to_bits_sizes() {
        let m = pick(&[32, 47, 48, 64, 94, 95, 96, 128], "bytes");
        to_bits(m, pick(&[0, 1, 8, 255, 256, 257, 376, 377, 378, 383, 384, 512, 753, 755, 768, 1024, 1 << 33, usize::MAX], "take"))
    }
    fn c04_to_bits_large() {
        let m = pick(&[256, 512, 1024], "bytes");
        to_bits(m, pick(&[0, 2047, 2048, 4097, 8191, 8192, 8200], "take"))
    }
    // calls after other calls
    fn c04_twice() {
        for (i, n) in ["first", "second"].iter().enumerate() {
            let k = pick(&[0, 1, 8, 9, 16, 21], ["size", "other size"][i]);
            if bool(["to bytes", "to bytes again"][i]) {
                to_bytes_of(k, n)
            } else {
                to_bits_of((k + 7) / 8, k, n)
            }
        }
    }
    // deeper: every number of bits up to 900, every number of bytes up to 40
    fn c04_deep_bytes_a() { to_bytes(272 + choice(300, "bits")) }
    fn c04_deep_bytes_b() { to_bytes(572 + choice(200, "bits")) }
    fn c04_deep_bytes_c() { to_bytes(772 + choice(130, "bits")) }
    fn c04_deep_bits_a() {
        let m = 21 + choice(10, "bytes");
        to_bits(m, choice(8 * m + 10, "take"))
    }
    fn c04_deep_bits_b() {
        let m = 31 + choice(10, "bytes");
        to_bits(m, choice(8 * m + 10, "take"))
    }
}

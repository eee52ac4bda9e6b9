//! C17, C18, C19, C23: the bls-gadgets circuits. Two kinds of run: one with the prover's values (is the
//! circuit satisfied exactly when it should be), one over all witness assignments (does every
//! satisfying one mean what it should).
use ark::crypto::crh::bowe_hopwood;
use ark::curves::bls12_377::{g1, Bls12_377, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective, Parameters};
use ark::ec::{AffineCurve, GroupAffine, LARGER_IS_LARGER};
use ark::ff::{limbs_lt, Field, One, PrimeField, Zero};
use ark::r1cs::*;
use ark::vars::*;
use bls_gadgets::{hash_to_bits, BlsVerifyGadget, FpUtils, HashToGroupGadget, YToBitGadget};
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_crypto::SIG_DOMAIN;
use symapi::*;

type Cs = ConstraintSystemRef<Fq>;
type G1V = G1Var<Parameters>;
type G2V = G2Var<Parameters>;
type Gadget = HashToGroupGadget<Parameters, Fq>;
type Verify = BlsVerifyGadget<Bls12_377, Fq, Bls12PairingVar>;
fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
fn fq(name: &str) -> Fq {
    Fq(fe::var(1, name))
}
fn imp(a: bool, b: bool) -> bool {
    or(not(a), b)
}
fn iff(a: bool, b: bool) -> bool {
    and(imp(a, b), imp(b, a))
}
fn system(any: bool) -> Cs {
    if any {
        ConstraintSystem::any_ref()
    } else {
        ConstraintSystem::new_ref()
    }
}
fn limbs(x: &Fq) -> [u64; 6] {
    let b = fe::to_bytes(x.0, 48);
    let mut l = [0u64; 6];
    for i in 0..48 {
        l[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    l
}
const HALF: fn() -> [u64; 6] = || Fq::modulus_minus_one_div_two().0;
fn upper(x: &Fq) -> bool {
    limbs_lt(&HALF(), &limbs(x))
}
fn is_half(x: &Fq) -> bool {
    eq_u64s(&limbs(x), &HALF())
}
fn eq_u64s(a: &[u64; 6], b: &[u64; 6]) -> bool {
    let mut r = true;
    for i in 0..6 {
        r = and(r, a[i] == b[i]);
    }
    r
}
fn bits(cs: &Cs, n: usize) -> Vec<Boolean<Fq>> {
    (0..n)
        .map(|_| {
            let b = bool("bit");
            Boolean::new_witness(cs.clone(), || Ok(b)).unwrap()
        })
        .collect()
}
/// six free bits among runs that share a bit
fn grouped_bits(cs: &Cs, n: usize) -> Vec<Boolean<Fq>> {
    let (single, run): (Vec<bool>, Vec<bool>) = ((0..6).map(|_| bool("bit")).collect(), (0..3).map(|_| bool("run")).collect());
    (0..n)
        .map(|i| {
            let b = if i % 50 == 3 && i / 50 < 6 { single[i / 50] } else { run[3 * i / n] };
            let v = Boolean::new_witness(cs.clone(), || Ok(b)).unwrap();
            assume(v.hid() == b);
            v
        })
        .collect()
}
fn field(cs: &Cs, name: &str) -> FpVar<Fq> {
    let v = fq(name);
    FpVar::new_witness(cs.clone(), || Ok(v)).unwrap()
}
/// how many of the bits have this value is at most the number
fn at_most(b: &[Boolean<Fq>], value: bool, max: &Fq) -> bool {
    let mut n = 0u64;
    for x in b {
        n = n.wrapping_add((x.hid() == value) as u64);
    }
    not(limbs_lt(&limbs(max), &[n, 0, 0, 0, 0, 0]))
}
/// comparisons in the circuit are of numbers below half the field
fn small(m: &FpVar<Fq>) {
    assume(limbs_lt(&limbs(&m.hid()), &HALF()));
}

// ---------------------------------------------------------------- C17
fn c17(lens: &[usize], any: bool) {
    let n = pick(lens, "length");
    let cs = system(any);
    let b = if n > 50 { grouped_bits(&cs, n) } else { bits(&cs, n) };
    c17_of(cs, b, any)
}

/// Bitmaps with negated bits and constants among their bits, at least one not constant.
fn c17_kinds(lens: &[usize], any: bool) {
    let n = pick(lens, "length");
    let cs = system(any);
    let mut b = bits(&cs, n);
    let mut constants = 0;
    for x in b.iter_mut() {
        match choice(4, "kind") {
            0 => {}
            1 => *x = x.not(),
            2 => (*x = Boolean::constant(false), constants += 1).1,
            _ => (*x = Boolean::constant(true), constants += 1).1,
        }
    }
    assume(constants < n);
    c17_of(cs, b, any)
}

fn c17_of(cs: Cs, b: Vec<Boolean<Fq>>, any: bool) {
    let (n, value) = (b.len(), false);
    let m = field(&cs, "maximum");
    small(&m);
    // keys that are not the padding key; in long lists all zero, which keeps the sums of keys simple
    let keys = vec![G2V::constant(G2Projective::of_dlog(fe::small(0, if n > 20 { 0 } else { 2 }))); n];
    let pad = G2V::constant(G2Projective::of_dlog(fe::small(0, 1)));
    Verify::enforce_bitmap(&keys, &b, &g1(&cs), &m, &pad).unwrap();
    let spec = at_most(&b, value, &m.hid());
    if any {
        check(imp(cs.holds(), spec), "no assignment lets more through");
        reach("any witness");
    } else {
        check(iff(cs.is_satisfied().unwrap(), spec), "satisfied exactly within the bound");
        reach("prover");
    }
}

// ---------------------------------------------------------------- C18
fn c18_zero(any: bool) {
    let cs = system(any);
    let x = field(&cs, "element");
    let b = x.is_eq_zero().unwrap();
    let z = x.hid().is_zero();
    if any {
        check(imp(cs.holds(), iff(b.hid(), z)), "the zero bit is one exactly on zero for every assignment");
        reach("any witness");
    } else {
        check(cs.is_satisfied().unwrap(), "the prover satisfies the zero test");
        check(iff(b.value().unwrap(), z), "the zero bit is one exactly on zero");
        reach("prover");
    }
    let k = FpVar::<Fq>::Constant(fq("constant"));
    check(iff(k.is_eq_zero().unwrap().hid(), k.hid().is_zero()), "the zero bit of a constant");
}
fn c18_normalize(any: bool) {
    let cs = system(any);
    let x = field(&cs, "element");
    let b = x.normalize().unwrap();
    let u = upper(&x.hid());
    if any {
        let h = is_half(&x.hid());
        check(imp(and(cs.holds(), not(h)), iff(b.hid(), u)), "the bit is the sign for every assignment");
        check(imp(and(cs.holds(), h), not(b.hid())), "the bit of (p-1)/2 is zero for every assignment");
        reach("any witness");
    } else {
        check(cs.is_satisfied().unwrap(), "the prover satisfies the sign test");
        check(iff(b.value().unwrap(), u), "the bit is the sign");
        reach("prover");
    }
    let k = FpVar::<Fq>::Constant(fq("constant"));
    check(iff(k.normalize().unwrap().hid(), upper(&k.hid())), "the sign of a constant");
}
fn c18_g1(any: bool) {
    let cs = system(any);
    let (x, y) = (field(&cs, "x"), field(&cs, "y"));
    let o = FpVar::new_witness(cs.clone(), || Ok(Fq::one())).unwrap();
    let p = G1V::new(x, y.clone(), o);
    let b = p.y_to_bit().unwrap();
    let u = upper(&y.hid());
    if any {
        // y = (p-1)/2 is no point of the curve: -3/4 has no cube root
        assume(not(is_half(&y.hid())));
        check(imp(cs.holds(), iff(b.hid(), u)), "the bit is the sign of y for every assignment");
        reach("any witness");
    } else {
        check(cs.is_satisfied().unwrap(), "the prover satisfies the sign test");
        check(iff(b.value().unwrap(), u), "the bit is the sign of y");
        reach("prover");
    }
}
fn c18_g2(any: bool) {
    let cs = system(any);
    let v = |n: &str| Fq2Var::new(field(&cs, n), field(&cs, n));
    let (x, y) = (v("x"), v("y"));
    let o = Fq2Var::new_witness(cs.clone(), || Ok(Fq2::one())).unwrap();
    assume(not(y.hid().is_zero()));
    let p = G2V::new(x, y.clone(), o);
    let b = p.y_to_bit().unwrap();
    let (c0, c1) = (y.c0.hid(), y.c1.hid());
    let u = or(upper(&c1), and(c1.is_zero(), upper(&c0)));
    if any {
        let h = or(is_half(&c1), and(c1.is_zero(), is_half(&c0)));
        check(imp(and(cs.holds(), not(h)), iff(b.hid(), u)), "the bit is the sign of y for every assignment");
        check(imp(and(cs.holds(), h), not(b.hid())), "the bit of a deciding part (p-1)/2 is zero for every assignment");
        reach("any witness");
    } else {
        check(cs.is_satisfied().unwrap(), "the prover satisfies the sign test");
        check(iff(b.value().unwrap(), u), "the bit is the sign of y");
        reach("prover");
    }
}

// ---------------------------------------------------------------- C19
fn g2(cs: &Cs) -> G2V {
    let d = fe::var(0, "key");
    G2V::new_variable_omit_prime_order_check(cs.clone(), || Ok(G2Projective::of_dlog(d)), AllocationMode::Witness).unwrap()
}
fn g1(cs: &Cs) -> G1V {
    let d = fe::var(0, "point");
    G1V::new_variable_omit_prime_order_check(cs.clone(), || Ok(G1Projective::of_dlog(d)), AllocationMode::Witness).unwrap()
}
fn zero() -> Fe {
    fe::small(0, 0)
}
/// sum of the selected keys
fn selected(keys: &[G2V], b: &[Boolean<Fq>]) -> Fe {
    let mut s = zero();
    for (k, x) in keys.iter().zip(b) {
        s = fe::add(s, fe::mul(fe::from_bool(0, x.hid()), k.hid()));
    }
    s
}
fn no_padding(keys: &[G2V], b: &[Boolean<Fq>], pad: &G2V) -> bool {
    let mut r = true;
    for (k, x) in keys.iter().zip(b) {
        r = and(r, not(and(x.hid(), fe::eq(k.hid(), pad.hid()))));
    }
    r
}
fn padding(cs: &Cs) -> G2V {
    if choice(2, "padding key") == 0 {
        G2V::constant(G2Projective::of_dlog(fe::small(0, 1)))
    } else {
        g2(cs)
    }
}
fn settle(cs: &Cs, any: bool, spec: bool) {
    if any {
        check(imp(cs.holds(), spec), "every satisfying assignment meets the specification");
        reach("any witness");
    } else {
        check(iff(cs.is_satisfied().unwrap(), spec), "satisfied exactly when the specification holds");
        reach("prover");
    }
}
fn c19_bitmap(n: usize, any: bool) {
    let cs = system(any);
    let keys: Vec<G2V> = (0..n).map(|_| g2(&cs)).collect();
    let b = bits(&cs, n);
    let h = g1(&cs);
    let m = field(&cs, "maximum");
    small(&m);
    let pad = padding(&cs);
    let (r, a) = Verify::enforce_bitmap(&keys, &b, &h, &m, &pad).unwrap();
    check(fe::eq(r.hid(), h.hid()), "the hash is passed on");
    check(fe::eq(a.hid(), selected(&keys, &b)), "the aggregate is the sum of the selected keys");
    settle(&cs, any, and(at_most(&b, false, &m.hid()), no_padding(&keys, &b, &pad)));
}
fn c19_keys(n: usize, any: bool) {
    let cs = system(any);
    let keys: Vec<G2V> = (0..n).map(|_| g2(&cs)).collect();
    let b = bits(&cs, n);
    let pad = padding(&cs);
    let a = Verify::enforce_aggregated_pubkeys(&keys, &b, &pad).unwrap();
    check(fe::eq(a.hid(), selected(&keys, &b)), "the aggregate is the sum of the selected keys");
    let all = Verify::enforce_aggregated_all_pubkeys(&keys).unwrap();
    let mut s = zero();
    for k in &keys {
        s = fe::add(s, k.hid());
    }
    check(fe::eq(all.hid(), s), "the aggregate of all is the sum of all");
    settle(&cs, any, no_padding(&keys, &b, &pad));
}
fn c19_verify(n: usize, any: bool) {
    let cs = system(any);
    let keys: Vec<G2V> = (0..n).map(|_| g2(&cs)).collect();
    let b = bits(&cs, n);
    let (h, s) = (g1(&cs), g1(&cs));
    let m = field(&cs, "maximum");
    small(&m);
    let pad = padding(&cs);
    Verify::verify(&keys, &b, &h, &s, &m, &pad).unwrap();
    let e = fe::eq(s.hid(), fe::mul(h.hid(), selected(&keys, &b)));
    settle(&cs, any, and(e, and(at_most(&b, false, &m.hid()), no_padding(&keys, &b, &pad))));
}
fn c19_batch(max: usize, any: bool) {
    let n = choice(max + 1, "messages");
    let cs = system(any);
    let keys: Vec<G2V> = (0..n).map(|_| g2(&cs)).collect();
    let hs: Vec<G1V> = (0..n).map(|_| g1(&cs)).collect();
    let s = g1(&cs);
    if choice(2, "prepared") == 0 {
        Verify::batch_verify(&keys, &hs, &s).unwrap();
    } else {
        let k: Vec<_> = keys.iter().map(|k| <Bls12PairingVar as PairingVar<Bls12_377, Fq>>::prepare_g2(k).unwrap()).collect();
        let h: Vec<_> = hs.iter().map(|h| <Bls12PairingVar as PairingVar<Bls12_377, Fq>>::prepare_g1(h).unwrap()).collect();
        Verify::batch_verify_prepared(&k, &h, &s).unwrap();
    }
    let mut e = zero();
    for (k, h) in keys.iter().zip(&hs) {
        e = fe::add(e, fe::mul(k.hid(), h.hid()));
    }
    settle(&cs, any, fe::eq(s.hid(), e));
}

// ---------------------------------------------------------------- C23
fn bytes_var(cs: &Cs, v: &[u8]) -> Vec<UInt8<Fq>> {
    v.iter().map(|b| UInt8::new_witness(cs.clone(), || Ok(*b)).unwrap()).collect()
}
fn hid(v: &[UInt8<Fq>]) -> Vec<u8> {
    v.iter().map(|b| b.hid()).collect()
}
/// BLAKE2Xs as the native hasher computes it: block i is the digest of the message with offset i
fn xof(personal: &[u8; 8], msg: &[u8], len: usize) -> Vec<u8> {
    let mut r = vec![];
    for i in 0..(len + 31) / 32 {
        let mut p = [0u8; 32];
        p[0] = 32;
        p[4] = 32;
        p[8] = i as u8;
        p[12] = len as u8;
        p[13] = (len >> 8) as u8;
        p[15] = 32;
        p[24..].copy_from_slice(personal);
        r.extend(blake2s_simd::digest(&p, false, &[0; 32], msg));
    }
    r
}
fn bit(b: &[u8], i: usize) -> bool {
    (b[i / 8] >> (i % 8)) & 1 == 1
}
/// the x coordinate of the Pedersen hash, little endian
fn pedersen(m: &[u8]) -> Vec<u8> {
    let mut block = [0u8; 32];
    block[0] = 32;
    block[2] = 1;
    block[3] = 1;
    block[24..].copy_from_slice(b"UL_prngs");
    let key = blake2s_simd::digest(&block, false, &[0; 32], b"ULTRALIGHT PRNG SEED");
    let seed = Uf::new().bytes(&key[..32]).u64(0).to_bytes("seeded_rng", 32);
    fe::to_bytes(bowe_hopwood::value(&seed, (93, 560), m).0 .0, 48)
}
/// x coordinate and sign that a XOF output stands for; is the point on the curve?
fn candidate(h: &[u8]) -> (bool, GroupAffine<g1::Parameters>) {
    let mut w = h[..48].to_vec();
    w[47] &= 1;
    let x = fe::from_bytes(1, &w);
    let small = eq_bytes(&fe::to_bytes(x, 48), &w);
    let (on, y) = GroupAffine::<g1::Parameters>::y_of_x(Fq(x), bit(h, 377));
    (and(small, on), GroupAffine::new(Fq(x), y, false))
}
const LENS: &[(usize, usize)] = &[(0, 0), (1, 0), (3, 2), (40, 7)];
fn c23_prover(c: u8) {
    unsafe { LARGER_IS_LARGER = true };
    let (ml, el) = LENS[if c == 0 { choice(LENS.len(), "lengths") } else { 2 }];
    let (m, e) = (bytes_vec(ml, "message"), bytes_vec(el, "extra"));
    let inner = pedersen(&m);
    let string = |c: u8| [&[c][..], &e[..], &inner[..]].concat();
    // the native hash stops at this counter
    for k in 0..=c {
        let h = xof(b"ULforxof", &string(k), 64);
        let (ok, p) = candidate(&h);
        // an encoding of the point at infinity is no candidate
        let inf = and(p.x.is_zero(), bit(&h, 382));
        let zero = p.scale_by_cofactor().is_zero();
        let good = and(ok, and(not(zero), not(inf)));
        if k < c {
            // after the first, those that are no x coordinates of points
            assume(if k == 0 && c < 2 { not(good) } else { not(ok) });
        } else {
            assume(good);
        }
    }
    let (native, at) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, &m, &e).unwrap();
    check(at == c as usize, "the native hash stops at the first candidate");
    let cs = system(false);
    let generate = c > 0 || choice(2, "constraints for the hash") == 0;
    let counter = UInt8::new_witness(cs.clone(), || Ok(c)).unwrap();
    let (h, crh, out) = Gadget::enforce_hash_to_group(counter, &bytes_var(&cs, &m), &bytes_var(&cs, &e), generate).unwrap();
    check(cs.is_satisfied().unwrap(), "the circuit accepts the native counter");
    check(fe::eq(h.hid(), native.d), "the circuit yields the native point");
    let want = xof(b"ULforxof", &string(c), 64);
    same_bits(&crh, &inner, 384, "the compressed message");
    same_bits(&out, &want, 512, "the XOF output");
    reach("prover");
}
fn same_bits(b: &[Boolean<Fq>], want: &[u8], n: usize, l: &str) {
    check(b.len() == n, "number of bits");
    let mut r = true;
    for i in 0..n {
        r = and(r, b[i].hid() == bit(want, i));
    }
    check(r, l);
}
fn c23_any() {
    unsafe { LARGER_IS_LARGER = true };
    let (ml, el) = LENS[1 + choice(LENS.len() - 1, "lengths")];
    let cs = system(true);
    let zeros = vec![0u8; ml];
    let m = bytes_var(&cs, &zeros);
    let e = bytes_var(&cs, &zeros[..el.min(ml)]);
    let counter = bytes_var(&cs, &[0]).remove(0);
    let generate = choice(2, "constraints for the hash") == 0;
    let (h, crh, out) = Gadget::enforce_hash_to_group(counter.clone(), &m, &e, generate).unwrap();
    let inner = pedersen(&hid(&m));
    same_bits(&crh, &inner, 384, "the compressed message");
    check(out.len() == 512, "number of bits");
    let b: Vec<u8> = if generate {
        let w = xof(b"ULforxof", &[&[counter.hid()][..], &hid(&e)[..], &inner[..]].concat(), 64);
        same_bits(&out, &w, 512, "the XOF output");
        w
    } else {
        // any bits: the point is still the one they stand for
        (0..64).map(|i| (0..8).fold(0u8, |a, k| a | (out[8 * i + k].hid() as u8) << k)).collect()
    };
    let (ok, p) = candidate(&b);
    let d = p.scale_by_cofactor().d;
    check(imp(cs.holds(), and(ok, fe::eq(h.hid(), d))), "every satisfying assignment yields the candidate's point");
    reach("any witness");
}
fn c23_bits(any: bool) {
    let n = pick(&[1, 2, 8, 33, 64, 65], "bytes");
    let blocks = 1 + choice(3, "blocks");
    let cs = system(any);
    let personal = bytes::<8>("personalization");
    let v = bytes_vec(n, "message");
    let m: Vec<Boolean<Fq>> = (0..8 * n)
        .map(|i| {
            let x = bit(&v, i);
            Boolean::new_witness(cs.clone(), || Ok(x)).unwrap()
        })
        .collect();
    let msg: Vec<u8> = (0..n).map(|i| (0..8).fold(0u8, |a, k| a | (m[8 * i + k].hid() as u8) << k)).collect();
    let r = hash_to_bits(&m, 256 * blocks as u16, personal, true).unwrap();
    same_bits(&r, &xof(&personal, &msg, 32 * blocks), 256 * blocks, "the bits are those of the XOF");
    if any {
        reach("any witness");
    } else {
        check(cs.is_satisfied().unwrap(), "the prover satisfies the hash");
        let r = hash_to_bits(&m, 512, personal, false).unwrap();
        same_bits(&r, &xof(&personal, &msg, 64), 512, "the bits are those of the XOF");
        check(cs.is_satisfied().unwrap(), "the prover satisfies the hash");
        reach("prover");
    }
}

harnesses! {
    fn c23_prover_0() { c23_prover(0) }
    fn c23_prover_1() { c23_prover(1) }
    fn c23_prover_2() { c23_prover(2) }
    fn c23_any_witness() { c23_any() }
    fn c23_bits_prover() { c23_bits(false) }
    fn c23_bits_any() { c23_bits(true) }
    fn c17_prover() { c17(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17], false) }
    fn c17_any() { c17(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17], true) }
    fn c17_kinds_prover() { c17_kinds(&[1, 2, 3], false) }
    fn c17_kinds_any() { c17_kinds(&[1, 2, 3], true) }
    fn c17_kinds_prover_4() { c17_kinds(&[4], false) }
    fn c17_kinds_any_4() { c17_kinds(&[4], true) }
    fn c17_prover_100() { c17(&[100], false) }
    fn c17_prover_255() { c17(&[255], false) }
    fn c17_prover_256() { c17(&[256], false) }
    fn c17_prover_257() { c17(&[257], false) }
    fn c17_prover_300() { c17(&[300], false) }
    fn c17_prover_520() { c17(&[520], false) }
    fn c17_any_20() { c17(&[20], true) }
    fn c17_any_24() { c17(&[24], true) }
    fn c17_any_32() { c17(&[32], true) }
    fn c18_zero_prover() { c18_zero(false) }
    fn c18_zero_any() { c18_zero(true) }
    fn c18_normalize_prover() { c18_normalize(false) }
    fn c18_normalize_any() { c18_normalize(true) }
    fn c18_g1_prover() { c18_g1(false) }
    fn c18_g1_any() { c18_g1(true) }
    fn c18_g2_prover() { c18_g2(false) }
    fn c18_g2_any() { c18_g2(true) }
    fn c19_bitmap_prover_1() { c19_bitmap(1, false) }
    fn c19_bitmap_prover_2() { c19_bitmap(2, false) }
    fn c19_bitmap_prover_3() { c19_bitmap(3, false) }
    fn c19_bitmap_prover_5() { c19_bitmap(5, false) }
    fn c19_bitmap_any_1() { c19_bitmap(1, true) }
    fn c19_bitmap_any_2() { c19_bitmap(2, true) }
    fn c19_bitmap_any_3() { c19_bitmap(3, true) }
    fn c19_bitmap_any_5() { c19_bitmap(5, true) }
    fn c19_keys_prover() { c19_keys(4, false) }
    fn c19_keys_any() { c19_keys(4, true) }
    fn c19_verify_prover() { c19_verify(3, false) }
    fn c19_verify_any() { c19_verify(3, true) }
    fn c19_batch_prover() { c19_batch(4, false) }
    fn c19_batch_any() { c19_batch(4, true) }
}

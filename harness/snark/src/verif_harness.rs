//! C15, C16, C20..C22, C24, C25: epoch encodings, the validator-set-update circuit, prover and verifier
//! of epoch-snark, against reference statements written from the documented layout.
use ark::curves::bls12_377::{Bls12_377, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark::curves::bw6_761::{self, BW6_761};
use ark::curves::bls12_377::g1;
use ark::crypto::crh::bowe_hopwood;
use ark::ec::{AffineCurve, GroupAffine, GroupProjective, PairingEngine, ProjectiveCurve, LARGER_IS_LARGER, SETTLE};
use ark::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark::ff::{limbs_lt, Field, One, PrimeField, Zero};
use ark::groth16::{accepts, Proof, VerifyingKey};
use bls_crypto::{PublicKey, Signature};
use epoch_snark::{prove, trusted_setup, verify, EpochBlock, EpochTransition, ValidatorSetUpdate, VerificationError};
use symapi::*;

fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
fn fr(name: &str) -> Fr {
    Fr(fe::var(0, name))
}
fn fq(name: &str) -> Fq {
    Fq(fe::var(1, name))
}
/// an arbitrary group element with an arbitrary representative
fn g2p(name: &str) -> G2Projective {
    G2Projective::of_dlog_rep(fe::var(0, name), Fq2::new(fq("z0"), fq("z1")))
}

// ---------------------------------------------------------------- the documented layout
fn le(v: u64, n: usize) -> Vec<bool> {
    (0..n).map(|i| (v >> i) & 1 == 1).collect()
}
fn bytes_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| le(*x as u64, 8)).collect()
}
fn fq_be(x: &Fq) -> Vec<bool> {
    let b = bytes_bits(&fe::to_bytes(x.0, 48));
    (0..377).rev().map(|i| b[i]).collect()
}
/// strictly above (p-1)/2
fn upper(x: &Fq) -> bool {
    let b = fe::to_bytes(x.0, 48);
    let mut l = [0u64; 6];
    for i in 0..48 {
        l[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    limbs_lt(&Fq::modulus_minus_one_div_two().0, &l)
}
fn xy_bits(x: &Fq2, y: &Fq2) -> Vec<bool> {
    let mut r = fq_be(&x.c0);
    r.extend(fq_be(&x.c1));
    r.push(or(upper(&y.c1), and(y.c1 == Fq::zero(), upper(&y.c0))));
    r
}
fn key_bits(d: Fe) -> Vec<bool> {
    let a = G2Affine::of_dlog(d);
    xy_bits(&a.x, &a.y)
}
fn ent_bits(e: &Option<Vec<u8>>) -> Vec<bool> {
    match e {
        Some(b) => bytes_bits(b),
        None => vec![false; 128],
    }
}
/// bytes of the number whose binary digits, most significant first, are these
fn be_bytes(bits: &[bool]) -> Vec<u8> {
    let n = bits.len();
    let mut r = vec![0u8; (n + 7) / 8];
    for i in 0..n {
        r[i / 8] |= (bits[n - 1 - i] as u8) << (i % 8);
    }
    r
}
fn keys_padded(b: &EpochBlock) -> Vec<bool> {
    let mut r = vec![];
    for k in &b.new_public_keys {
        r.extend(key_bits(k.as_ref().d));
    }
    for _ in b.new_public_keys.len()..b.maximum_validators {
        r.extend(key_bits(fe::small(0, 1)));
    }
    r
}
fn inner_spec(b: &EpochBlock) -> (Vec<bool>, Vec<bool>) {
    let x = [le(b.index as u64, 16), le(b.round as u64, 8), le(b.maximum_non_signers as u64, 32)].concat();
    ([ent_bits(&b.epoch_entropy), ent_bits(&b.parent_entropy), keys_padded(b)].concat(), x)
}
fn first_spec(b: &EpochBlock) -> Vec<bool> {
    [le(b.index as u64, 16), ent_bits(&b.parent_entropy), le(b.maximum_non_signers as u64, 32), keys_padded(b)].concat()
}
fn last_spec(b: &EpochBlock) -> Vec<bool> {
    let mut s = fe::small(0, 0);
    for k in &b.new_public_keys {
        s = fe::add(s, k.as_ref().d);
    }
    [le(b.index as u64, 16), ent_bits(&b.epoch_entropy), le(b.maximum_non_signers as u64, 32), keys_padded(b), key_bits(s)].concat()
}
fn old_spec(b: &EpochBlock) -> Vec<bool> {
    let mut r = [le(b.index as u64, 16), le(b.maximum_non_signers as u64, 32)].concat();
    for k in &b.new_public_keys {
        r.extend(key_bits(k.as_ref().d));
    }
    r
}
/// BLAKE2s with 32 bytes of output personalised with the output domain
fn out_hash(msg: &[u8]) -> Vec<bool> {
    let mut p = [0u8; 32];
    p[0] = 32;
    p[2] = 1;
    p[3] = 1;
    p[24..].copy_from_slice(b"ULforout");
    bytes_bits(&blake2s_simd::digest(&p, false, &[0; 32], msg))
}
/// big-endian numbers of 376 bits, the last one shorter
fn packed(bits: &[bool]) -> Vec<Fq> {
    bits.chunks(376).map(|c| Fq(fe::from_bytes(1, &be_bytes(c)))).collect()
}

fn entropy(name: &str, how: usize) -> Option<Vec<u8>> {
    if how == 0 {
        None
    } else {
        Some(bytes_vec(16, name))
    }
}
fn block(n: usize, max: usize, keys: &dyn Fn(usize) -> G2Projective) -> EpochBlock {
    let e = choice(2, "epoch entropy present");
    let p = choice(2, "parent entropy present");
    block_of(n, max, e, p, keys)
}
fn block_of(n: usize, max: usize, e: usize, p: usize, keys: &dyn Fn(usize) -> G2Projective) -> EpochBlock {
    let pks = (0..n).map(|i| PublicKey::from(keys(i))).collect();
    EpochBlock::new(u16("index"), u8("round"), entropy("epoch_entropy", e), entropy("parent_entropy", p), u32("max_non_signers"), max, pks)
}
fn any_block(n: usize, max: usize) -> EpochBlock {
    block(n, max, &|_| g2p("key"))
}
fn same(a: &[bool], b: &[bool], l: &str) {
    check(a.len() == b.len(), "the encoding has the specified length");
    check(eq_bools(a, b), l);
}

// ---------------------------------------------------------------- C15
fn c15_layout(n: usize, max: usize) {
    // one key with an arbitrary representative; with more, the normal ones
    let b = if n < 2 { any_block(n, max) } else { block_of(n, max, 1, 1, &|_| G2Projective::of_dlog(fe::var(0, "key"))) };
    let (i, x) = b.encode_inner_to_bits_cip22().unwrap();
    let (si, sx) = inner_spec(&b);
    same(&i, &si, "the inner variant is entropies, then keys");
    same(&x, &sx, "the extra data is index, round, bound");
    let (bi, bx) = b.encode_inner_to_bytes_cip22().unwrap();
    check(eq_bytes(&bi, &be_bytes(&si)), "the inner bytes are the bits as a number");
    check(eq_bytes(&bx, &be_bytes(&sx)), "the extra data bytes are the bits as a number");
    let f = b.encode_first_epoch_to_bytes_cip22().unwrap();
    check(eq_bytes(&f, &be_bytes(&first_spec(&b))), "the first variant is index, parent entropy, bound, keys");
    let l = b.encode_last_epoch_to_bits_with_aggregated_pk_cip22().unwrap();
    let sl = last_spec(&b);
    same(&l, &sl, "the last variant is index, entropy, bound, keys, aggregate");
    let lb = b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().unwrap();
    check(eq_bytes(&lb, &be_bytes(&sl)), "the last bytes are the bits as a number");
    let o = b.encode_to_bits().unwrap();
    let so = old_spec(&b);
    same(&o, &so, "the earlier variant is index, bound, keys");
    check(eq_bytes(&b.encode_to_bytes().unwrap(), &be_bytes(&so)), "the earlier bytes are the bits as a number");
    reach("encoded");
}
/// a key given by arbitrary coordinates
fn raw_key() -> (Fq2, Fq2, G2Projective) {
    let (x, y) = (Fq2::new(fq("x0"), fq("x1")), Fq2::new(fq("y0"), fq("y1")));
    assume(not(y.is_zero()));
    (x, y, G2Projective::new(x, y, Fq2::one()))
}
fn curve_law(a: &(Fq2, Fq2, G2Projective), b: &(Fq2, Fq2, G2Projective)) {
    // two points with the same x are equal or opposite
    assume(or(not(a.0 == b.0), or(a.1 == b.1, a.1 == -b.1)));
}
fn point_eq(a: &(Fq2, Fq2, G2Projective), b: &(Fq2, Fq2, G2Projective)) -> bool {
    and(a.0 == b.0, a.1 == b.1)
}
fn ent_eq(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    eq_bools(&ent_bits(a), &ent_bits(b))
}
fn imp(a: bool, b: bool) -> bool {
    or(not(a), b)
}
fn c15_injective(variant: usize) {
    let (k1, k2) = (raw_key(), raw_key());
    curve_law(&k1, &k2);
    // entropies of the two blocks: present or absent
    let (e1, p1, e2, p2) = [(1, 1, 1, 1), (0, 1, 1, 1), (1, 1, 1, 0), (0, 0, 0, 0)][choice(4, "entropies present")];
    let (a, b) = (block_of(1, 1, e1, p1, &|_| k1.2), block_of(1, 1, e2, p2, &|_| k2.2));
    let keys = point_eq(&k1, &k2);
    let im = and(a.index == b.index, a.maximum_non_signers == b.maximum_non_signers);
    let (e, p) = (ent_eq(&a.epoch_entropy, &b.epoch_entropy), ent_eq(&a.parent_entropy, &b.parent_entropy));
    match variant {
        0 => {
            let (x, y) = (a.encode_inner_to_bytes_cip22().unwrap(), b.encode_inner_to_bytes_cip22().unwrap());
            check(imp(and(eq_bytes(&x.0, &y.0), eq_bytes(&x.1, &y.1)), and(and(keys, im), and(and(e, p), a.round == b.round))), "the inner encoding is injective");
        }
        1 => {
            let (x, y) = (a.encode_first_epoch_to_bytes_cip22().unwrap(), b.encode_first_epoch_to_bytes_cip22().unwrap());
            check(imp(eq_bytes(&x, &y), and(and(keys, im), p)), "the first encoding is injective");
        }
        2 => {
            let (x, y) = (a.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().unwrap(), b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().unwrap());
            check(imp(eq_bytes(&x, &y), and(and(keys, im), e)), "the last encoding is injective");
        }
        _ => {
            let (x, y) = (a.encode_to_bytes().unwrap(), b.encode_to_bytes().unwrap());
            check(imp(eq_bytes(&x, &y), and(keys, im)), "the earlier encoding is injective");
        }
    }
    reach("compared");
}

// ---------------------------------------------------------------- C16
fn one_key(k: G2Projective) -> Vec<bool> {
    let b = EpochBlock::new(0, 0, None, None, 0, 1, vec![PublicKey::from(k)]);
    b.encode_to_bits().unwrap()[48..].to_vec()
}

// ---------------------------------------------------------------- C25
fn iff(a: bool, b: bool) -> bool {
    and(imp(a, b), imp(b, a))
}
fn b1(name: &str) -> bw6_761::G1Affine {
    bw6_761::G1Affine::of_dlog(fe::var(0, name))
}
fn b2(name: &str) -> bw6_761::G2Affine {
    bw6_761::G2Affine::of_dlog(fe::var(0, name))
}
fn verifying_key(inputs: usize) -> VerifyingKey<BW6_761> {
    VerifyingKey { alpha_g1: b1("alpha"), beta_g2: b2("beta"), gamma_g2: b2("gamma"), delta_g2: b2("delta"), gamma_abc_g1: (0..inputs).map(|_| b1("gamma_abc")).collect() }
}
fn any_proof() -> Proof<BW6_761> {
    Proof { a: b1("a"), b: b2("b"), c: b1("c"), made: None }
}
/// what a proof for these two blocks has to be accepted with
fn inputs_spec(first: &EpochBlock, last: &EpochBlock) -> Vec<Fq> {
    packed(&[out_hash(&be_bytes(&first_spec(first))), out_hash(&be_bytes(&last_spec(last)))].concat())
}
fn c25(n: usize, max: usize) {
    let len = pick(&[3, 0, 1, 2, 4], "elements of the key");
    let vk = verifying_key(len);
    let normal = |_| G2Projective::of_dlog(fe::var(0, "key"));
    let (e, p) = [(1, 1), (0, 0)][choice(2, "entropies present")];
    let (first, last) = (block_of(n, max, e, p, &normal), block_of(n, max, e, p, &normal));
    let proof = any_proof();
    let r = verify(&vk, &first, &last, &proof);
    if len != 3 {
        check(r.is_err(), "a key for another number of inputs accepts nothing");
        reach("misfit");
        return;
    }
    let a = accepts(&vk, &proof, &inputs_spec(&first, &last));
    match r {
        Ok(()) => {
            check(a, "accepted proofs are proofs for the two epochs");
            reach("accepted");
        }
        Err(e) => {
            check(not(a), "proofs for the two epochs are accepted");
            check(matches!(e, VerificationError::VerificationFailed), "a rejected proof is reported as such");
            reach("rejected");
        }
    }
}
/// two verifications in a row, with equal or different keys, proofs and epochs
fn c25_twice() {
    let normal = |_| G2Projective::of_dlog(fe::var(0, "key"));
    let mut vk = verifying_key(3);
    let mut proof = any_proof();
    let mut blocks = (block_of(0, 0, 1, 1, &normal), block_of(0, 0, 1, 1, &normal));
    let change = choice(3, "what the second verification changes");
    for i in 0..2 {
        if i == 1 {
            match change {
                0 => vk = verifying_key(3),
                1 => proof = any_proof(),
                _ => blocks = (block_of(0, 0, 1, 1, &normal), block_of(0, 0, 1, 1, &normal)),
            }
        }
        let r = verify(&vk, &blocks.0, &blocks.1, &proof);
        let a = accepts(&vk, &proof, &inputs_spec(&blocks.0, &blocks.1));
        check(iff(r.is_ok(), a), "every verification is decided by its own arguments");
    }
    reach("twice");
}

// ---------------------------------------------------------------- C20, C21, C22
/// BLAKE2Xs of 64 bytes as in CIP22
fn xof(msg: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for i in 0..2 {
        let mut p = [0u8; 32];
        p[0] = 32;
        p[4] = 32;
        p[8] = i;
        p[12] = 64;
        p[15] = 32;
        p[24..].copy_from_slice(b"ULforxof");
        r.extend(blake2s_simd::digest(&p, false, &[0; 32], msg));
    }
    r
}
fn bit(b: &[u8], i: usize) -> bool {
    (b[i / 8] >> (i % 8)) & 1 == 1
}
/// the x coordinate of the Pedersen hash, little endian
fn pedersen(m: &[u8]) -> Vec<u8> {
    let mut block = [0u8; 32];
    block[0] = 32;
    block[2] = 1;
    block[3] = 1;
    block[24..].copy_from_slice(b"UL_prngs");
    let key = blake2s_simd::digest(&block, false, &[0; 32], b"ULTRALIGHT PRNG SEED");
    let seed = Uf::new().bytes(&key[..32]).u64(0).to_bytes("seeded_rng", 32);
    fe::to_bytes(bowe_hopwood::value(&seed, (93, 560), m).0 .0, 48)
}
/// logarithm of the hash of an epoch to the group; the first counter is taken to give a point
fn hash_spec(b: &EpochBlock) -> Fe {
    let (i, x) = inner_spec(b);
    let h = xof(&[&[0u8][..], &be_bytes(&x)[..], &pedersen(&be_bytes(&i))[..]].concat());
    let mut w = h[..48].to_vec();
    w[47] &= 1;
    let x = fe::from_bytes(1, &w);
    let mut l = [0u64; 6];
    for i in 0..48 {
        l[i / 8] |= (w[i] as u64) << (8 * (i % 8));
    }
    assume(limbs_lt(&l, &Fq::modulus().0));
    assume(eq_bytes(&fe::to_bytes(x, 48), &w));
    let (on, y) = GroupAffine::<g1::Parameters>::y_of_x(Fq(x), bit(&h, 377));
    assume(on);
    let p = GroupAffine::<g1::Parameters>::new(Fq(x), y, false);
    let q = p.scale_by_cofactor();
    assume(not(q.is_zero()));
    // an encoding of the point at infinity is no candidate
    assume(not(and(p.x.is_zero(), bit(&h, 382))));
    q.into_affine().d
}
fn is_zero_bytes(b: &[u8]) -> bool {
    eq_bytes(b, &vec![0; b.len()])
}
fn zero() -> Fe {
    fe::small(0, 0)
}
/// what an assignment of the circuit says: blocks, bitmaps and the aggregate signature
struct Chain {
    first: EpochBlock,
    next: Vec<EpochBlock>,
    bitmaps: Vec<Vec<bool>>,
    sig: Fe,
}
struct Spec {
    /// index, entropy and signer rules of the epochs that are not padding
    rules: bool,
    /// the same of padding
    padding: bool,
    pairing: bool,
    aggregate: Fe,
}
fn chain_spec(c: &Chain) -> Spec {
    let key = |k: &PublicKey| k.as_ref().d;
    let ent = |e: &Option<Vec<u8>>| e.clone().unwrap_or(vec![0; 16]);
    let entropies = not(is_zero_bytes(&ent(&c.first.epoch_entropy)));
    let (mut index, mut entropy, mut max) = (c.first.index as u32, ent(&c.first.epoch_entropy), c.first.maximum_non_signers);
    let mut keys: Vec<Fe> = c.first.new_public_keys.iter().map(key).collect();
    let (mut rules, mut padding, mut sum) = (true, true, zero());
    let mut real = true;
    for (b, bm) in c.next.iter().zip(&c.bitmaps) {
        real = settle(b.index != 0);
        rules = and(rules, imp(real, b.index as u32 == index.wrapping_add(1)));
        rules = and(rules, imp(and(real, entropies), eq_bytes(&ent(&b.parent_entropy), &entropy)));
        let (mut absent, mut apk, mut ok) = (0u32, zero(), true);
        for (k, s) in keys.iter().zip(bm) {
            absent = absent.wrapping_add(not(*s) as u32);
            apk = fe::add(apk, fe::mul(fe::from_bool(0, *s), *k));
            ok = and(ok, not(and(*s, fe::eq(*k, fe::small(0, 1)))));
        }
        ok = and(ok, absent <= max);
        rules = and(rules, imp(real, ok));
        padding = and(padding, imp(not(real), ok));
        sum = fe::add(sum, fe::ite(real, fe::mul(apk, hash_spec(b)), fe::small(0, 1)));
        let sel16 = |a: &[u8], b: &[u8]| -> Vec<u8> { a.iter().zip(b).map(|(x, y)| ite(real, *x as u64, *y as u64) as u8).collect() };
        entropy = sel16(&ent(&b.epoch_entropy), &entropy);
        index = ite(real, b.index as u32 as u64, index as u64) as u32;
        max = ite(real, b.maximum_non_signers as u64, max as u64) as u32;
        keys = b.new_public_keys.iter().zip(&keys).map(|(n, o)| fe::ite(real, key(n), *o)).collect();
    }
    rules = and(rules, real);
    let mut aggregate = zero();
    for k in &keys {
        aggregate = fe::add(aggregate, *k);
    }
    Spec { rules, padding, pairing: fe::eq(c.sig, sum), aggregate }
}
fn any_chain(epochs: usize, n: usize, e: usize) -> Chain {
    let keys = |_| {
        let d = fe::var(0, "key");
        assume(not(fe::eq(d, zero())));
        G2Projective::of_dlog(d)
    };
    let b = || block_of(n, n, e, e, &keys);
    Chain { first: b(), next: (0..epochs).map(|_| b()).collect(), bitmaps: (0..epochs).map(|_| (0..n).map(|_| bool("signed")).collect()).collect(), sig: fe::var(0, "aggregate signature") }
}
macro_rules! fill {
    ($d:expr, $b:expr) => {{
        let (d, b) = (&mut $d, $b);
        d.index = Some(b.index);
        d.round = Some(b.round);
        d.epoch_entropy = b.epoch_entropy.clone();
        d.parent_entropy = b.parent_entropy.clone();
        d.maximum_non_signers = b.maximum_non_signers;
        d.public_keys = b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect();
    }};
}
fn circuit(c: &Chain) -> ValidatorSetUpdate<Bls12_377> {
    let n = c.first.new_public_keys.len();
    let mut u = ValidatorSetUpdate::<Bls12_377>::empty(n, c.next.len(), 0, None);
    fill!(u.initial_epoch, &c.first);
    for i in 0..c.next.len() {
        fill!(u.epochs[i].epoch_data, &c.next[i]);
        u.epochs[i].signed_bitmap = c.bitmaps[i].iter().map(|b| Some(*b)).collect();
    }
    u.aggregated_signature = Some(G1Projective::of_dlog(c.sig));
    u
}
/// The epochs' circuit over any chain of blocks, bitmaps and any signature; `padding`, where given,
/// says which of the epochs are padding (otherwise any of them).
fn epochs(epochs: usize, n: usize, e: usize, padding: Option<&[bool]>, part: u32) {
    unsafe { LARGER_IS_LARGER = true };
    unsafe { SETTLE = true };
    let c = any_chain(epochs, n, e);
    for (k, b) in c.next.iter().enumerate() {
        let p = match padding {
            Some(p) => p[k],
            None => choice(2, "padding") == 1,
        };
        assume((b.index == 0) == p);
    }
    let s = chain_spec(&c);
    assume(not(fe::eq(s.aggregate, zero())));
    let cs = ConstraintSystem::<Fq>::new_ref();
    circuit(&c).generate_constraints(cs.clone()).unwrap();
    let ok = cs.holds();
    if part == 20 {
        check(imp(ok, s.rules), "a satisfied circuit's epochs extend each other");
        let all = and(and(s.rules, s.padding), s.pairing);
        check(imp(all, ok), "a proper chain satisfies the circuit");
        assume(all);
        reach("proper chain");
    }
    if part == 21 {
        check(imp(ok, s.pairing), "a satisfied circuit's signature covers every epoch");
    }
    if part == 22 {
        let i = cs.borrow().unwrap().instance();
        let want = inputs_spec(&c.first, &c.next[epochs - 1]);
        check(i.len() == 1 + want.len(), "two public inputs");
        for k in 0..want.len() {
            check(imp(ok, i[k + 1] == want[k]), "the public inputs are those of the first and last blocks");
        }
    }
    reach("chain");
}
/// the bits the circuit derives for one block against the native encodings of it
fn c22_bits(n: usize, e: usize, p: usize) {
    unsafe { LARGER_IS_LARGER = true };
    unsafe { SETTLE = true };
    let b = block_of(n, n, e, p, &|_| {
        let d = fe::var(0, "key");
        assume(not(fe::eq(d, zero())));
        G2Projective::of_dlog(d)
    });
    let mut u = ValidatorSetUpdate::<Bls12_377>::empty(n, 0, 0, None);
    fill!(u.initial_epoch, &b);
    let cs = ConstraintSystem::<Fq>::new_ref();
    let t = u.initial_epoch.to_bits(cs.clone()).unwrap();
    let hid = |v: &Vec<ark::vars::Boolean<Fq>>| -> Vec<bool> { v.iter().map(|b| b.hid()).collect() };
    let ok = cs.holds();
    check(ok, "the derivation of the bits is satisfied by any block");
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    check(eq_bytes(&be_bytes(&hid(&t.0)), &i), "the circuit's inner bits are the native ones");
    check(eq_bytes(&be_bytes(&hid(&t.1)), &x), "the circuit's extra data bits are the native ones");
    check(eq_bytes(&be_bytes(&hid(&t.2)), &b.encode_first_epoch_to_bytes_cip22().unwrap()), "the circuit's first epoch bits are the native ones");
    let s = last_spec(&b);
    let l = b.encode_last_epoch_to_bits_with_aggregated_pk_cip22().unwrap();
    same(&[hid(&t.3), s[s.len() - 755..].to_vec()].concat(), &l, "the circuit's last epoch bits are the native ones up to the aggregate key");
    reach("bits");
}
// ---------------------------------------------------------------- C24
/// the prover over t transitions in a circuit made for max, n keys each
fn c24(t: usize, max: usize, n: usize) {
    unsafe { LARGER_IS_LARGER = true };
    let mut rng = rand::thread_rng();
    let params = trusted_setup(n, max, 1, &mut rng, false).unwrap();
    unsafe { SETTLE = true };
    let mut c = any_chain(t, n, 1);
    c.sig = zero();
    let mut ts = vec![];
    for (b, m) in c.next.iter().zip(&c.bitmaps) {
        assume(b.index != 0);
        let d = fe::var(0, "signature");
        c.sig = fe::add(c.sig, d);
        ts.push(EpochTransition { block: b.clone(), aggregate_signature: Signature::from(G1Projective::of_dlog(d)), bitmap: m.clone() });
    }
    let s = chain_spec(&c);
    assume(not(fe::eq(s.aggregate, zero())));
    if t < max {
        // the epochs the prover adds are hashed as well
        let z = || Some(vec![0u8; 16]);
        hash_spec(&EpochBlock::new(0, 0, z(), z(), 0, n, (0..n).map(|_| PublicKey::from(G2Projective::prime_subgroup_generator())).collect()));
    }
    let p = prove(&params, n as u32, &c.first, &ts, max).unwrap().made.unwrap();
    check(p.fits, "the prover's circuit has the shape of the one set up");
    check(p.inputs.len() == 2, "two public inputs");
    let want = inputs_spec(&c.first, &c.next[t - 1]);
    for k in 0..2 {
        check(Fq(p.inputs[k]) == want[k], "the statement is about the first and the last block given");
    }
    let all = and(s.rules, s.pairing);
    check(imp(all, p.satisfied), "a proper chain can be proved");
    check(imp(p.satisfied, all), "only a proper chain can be proved");
    assume(all);
    reach("proved");
}
/// lists that do not fit the circuit
fn c24_refused(t: usize, max: usize, first: usize, keys: usize, signers: usize) {
    unsafe { LARGER_IS_LARGER = true };
    unsafe { SETTLE = true };
    let mut rng = rand::thread_rng();
    let n = 1;
    let params = trusted_setup(n, max, 1, &mut rng, false).unwrap();
    let key = |_| {
        let d = fe::var(0, "key");
        assume(not(fe::eq(d, zero())));
        G2Projective::of_dlog(d)
    };
    let b = block_of(first, first, 1, 1, &key);
    let ts: Vec<EpochTransition> = (0..t)
        .map(|_| {
            let b = block_of(keys, keys, 1, 1, &key);
            hash_spec(&b);
            EpochTransition { block: b, aggregate_signature: Signature::from(G1Projective::of_dlog(fe::var(0, "signature"))), bitmap: (0..signers).map(|_| bool("signed")).collect() }
        })
        .collect();
    check(prove(&params, n as u32, &b, &ts, max).is_err(), "transitions that do not fit are refused with an error");
    reach("refused");
}
harnesses! {
fn c24_none() { c24_refused(0, 1, 1, 1, 1) }
fn c24_many() { c24_refused(2, 1, 1, 1, 1) }
fn c24_keys() { c24_refused(1, 1, 1, 2, 1) }
fn c24_few_keys() { c24_refused(1, 1, 1, 0, 1) }
fn c24_first_keys() { c24_refused(1, 1, 2, 1, 1) }
fn c24_first_few_keys() { c24_refused(1, 1, 0, 1, 1) }
fn c24_bitmap() { c24_refused(1, 1, 1, 1, 2) }
fn c24_short_bitmap() { c24_refused(1, 1, 1, 1, 0) }
fn c24_1_1() { c24(1, 1, 1) }
fn c24_1_2() { c24(1, 2, 1) }
fn c24_2_2() { c24(2, 2, 1) }
fn c24_2_3() { c24(2, 3, 1) }
fn c24_3_3() { c24(3, 3, 1) }
fn c24_2_4() { c24(2, 4, 1) }
fn c24_1_2_two() { c24(1, 2, 2) }
fn c24_2_2_two() { c24(2, 2, 2) }
fn c24_1_3() { c24(1, 3, 1) }
fn c22_bits_0() { c22_bits(0, 1, 1) }
fn c22_bits_1() { c22_bits(1, 1, 1) }
fn c22_bits_1_none() { c22_bits(1, 0, 1) }
fn c22_bits_2() { c22_bits(2, 1, 0) }
fn c22_bits_5() { c22_bits(5, 1, 1) }
fn c22_bits_3() { c22_bits(3, 1, 1) }
fn c20_1_1() { epochs(1, 1, 1, None, 20) }
fn c20_1_1_none() { epochs(1, 1, 0, None, 20) }
fn c20_2_1() { epochs(2, 1, 1, None, 20) }
fn c20_2_2() { epochs(2, 2, 1, Some(&[false, false]), 20) }
fn c20_2_2_padded() { epochs(2, 2, 1, Some(&[true, false]), 20) }
fn c20_3_1_any() { epochs(3, 1, 1, None, 20) }
fn c20_2_3() { epochs(2, 3, 1, Some(&[false, false]), 20) }
fn c20_3_1() { epochs(3, 1, 1, Some(&[false, false, false]), 20) }
fn c20_3_1_padded() { epochs(3, 1, 1, Some(&[false, true, false]), 20) }
fn c21_1_1() { epochs(1, 1, 1, None, 21) }
fn c21_1_1_none() { epochs(1, 1, 0, None, 21) }
fn c21_2_1() { epochs(2, 1, 1, None, 21) }
fn c21_2_2() { epochs(2, 2, 1, Some(&[false, false]), 21) }
fn c21_2_2_padded() { epochs(2, 2, 1, Some(&[true, false]), 21) }
fn c21_3_1_any() { epochs(3, 1, 1, None, 21) }
fn c21_2_3() { epochs(2, 3, 1, Some(&[false, false]), 21) }
fn c21_3_1() { epochs(3, 1, 1, Some(&[false, false, false]), 21) }
fn c21_3_1_padded() { epochs(3, 1, 1, Some(&[false, true, false]), 21) }
fn c22_1_1() { epochs(1, 1, 1, None, 22) }
fn c22_1_1_none() { epochs(1, 1, 0, None, 22) }
fn c22_2_1() { epochs(2, 1, 1, None, 22) }
fn c22_2_2() { epochs(2, 2, 1, Some(&[false, false]), 22) }
fn c22_2_2_padded() { epochs(2, 2, 1, Some(&[true, false]), 22) }
fn c22_3_1_any() { epochs(3, 1, 1, None, 22) }
fn c22_2_3() { epochs(2, 3, 1, Some(&[false, false]), 22) }
fn c22_3_1() { epochs(3, 1, 1, Some(&[false, false, false]), 22) }
fn c22_3_1_padded() { epochs(3, 1, 1, Some(&[false, true, false]), 22) }
fn c25_none() { c25(0, 0) }
fn c25_two_runs() { c25_twice() }
fn c25_padded() { c25(0, 1) }
fn c25_one() { c25(1, 1) }
fn c15_layout_0_0() { c15_layout(0, 0) }
fn c15_layout_0_2() { c15_layout(0, 2) }
fn c15_layout_1_1() { c15_layout(1, 1) }
fn c15_layout_1_3() { c15_layout(1, 3) }
fn c15_layout_2_1() { c15_layout(2, 1) }
fn c15_layout_2_3() { c15_layout(2, 3) }
fn c15_layout_3_3() { c15_layout(3, 3) }
fn c15_injective_inner() { c15_injective(0) }
fn c15_injective_first() { c15_injective(1) }
fn c15_injective_last() { c15_injective(2) }
fn c15_injective_old() { c15_injective(3) }
fn c16_layout() {
    let k = raw_key();
    same(&one_key(k.2), &xy_bits(&k.0, &k.1), "a key is x, most significant bit first, then the sign of y");
    reach("encoded");
}
fn c16_representative() {
    // any representative of the point encodes like the normal one
    let d = fe::var(0, "key");
    assume(not(fe::eq(d, fe::small(0, 0))));
    let k = G2Projective::of_dlog_rep(d, Fq2::new(fq("z0"), fq("z1")));
    same(&one_key(k), &key_bits(d), "the encoding is that of the affine coordinates");
    reach("encoded");
}
fn c16_injective() {
    let (a, b) = (raw_key(), raw_key());
    curve_law(&a, &b);
    check(imp(eq_bools(&one_key(a.2), &one_key(b.2)), point_eq(&a, &b)), "different keys encode differently");
    reach("compared");
}
fn c16_negation() {
    let a = raw_key();
    let n = G2Projective::new(a.0, -a.1, Fq2::one());
    let (x, y) = (one_key(a.2), one_key(n));
    check(eq_bools(&x[..754], &y[..754]), "a key and its negation share x");
    check(x[754] != y[754], "a key and its negation differ in the sign bit");
    check(x[754] == (a.1 > -a.1), "the sign bit says whether y is the larger of y and -y");
    reach("compared");
}
}

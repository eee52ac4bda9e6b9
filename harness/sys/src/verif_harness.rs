//! C26..C29: the C API of bls-snark-sys, called through its exported entry points, against bls-crypto,
//! epoch-snark and reference statements over discrete logarithms.
use ark::curves::bls12_377::{g1, Fq, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark::curves::bw6_761::{self, BW6_761};
use ark::ec::{AffineCurve, GroupAffine, GroupProjective, ProjectiveCurve};
use ark::ff::{Fq2, Field, FromBytes, PrimeField, ToBytes, Zero};
use ark::groth16::{Proof, VerifyingKey};
use ark::ser::*;
use bls_crypto::hash_to_curve::try_and_increment::COMPOSITE_HASH_TO_G1;
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_crypto::hashers::{DirectHasher, Hasher, COMPOSITE_HASHER};
use bls_crypto::{HashToCurve, PrivateKey, PublicKey, Signature};
use bls_snark_sys::serialization::*;
use bls_snark_sys::signatures::*;
use bls_snark_sys::snark::epoch_block::*;
use bls_snark_sys::utils::*;
use epoch_snark::EpochBlock;
use std::convert::TryFrom;
use std::ptr::null_mut;
use symapi::*;

const SIG: &[u8] = b"ULforxof";
const POP: &[u8] = b"ULforpop";

fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
fn fr(name: &str) -> Fr {
    Fr(fe::var(0, name))
}
fn fq(name: &str) -> Fq {
    Fq(fe::var(1, name))
}
/// an arbitrary group element with an arbitrary representative
fn g1p(name: &str) -> G1Projective {
    G1Projective::of_dlog_rep(fe::var(0, name), fq("z"))
}
fn g2p(name: &str) -> G2Projective {
    G2Projective::of_dlog_rep(fe::var(0, name), Fq2::new(fq("z0"), fq("z1")))
}
fn pk(name: &str) -> PublicKey {
    PublicKey::from(g2p(name))
}
fn sig(name: &str) -> Signature {
    Signature::from(g1p(name))
}
fn dk(p: &PublicKey) -> Fr {
    Fr(p.as_ref().d)
}
fn ds(p: &Signature) -> Fr {
    Fr(p.as_ref().d)
}
fn bit(b: &[u8], i: usize) -> bool {
    (b[i / 8] >> (i % 8)) & 1 == 1
}
fn texts(k: usize) -> (Vec<u8>, Vec<u8>) {
    let (m, e) = [(1, 2), (0, 0), (33, 0), (97, 40)][choice(k, "lengths")];
    (bytes_vec(m, "message"), bytes_vec(e, "extra"))
}
/// the candidate string of an attempt
fn string(composite: bool, cip22: bool, dom: &[u8], m: &[u8], e: &[u8], c: u8) -> Vec<u8> {
    if cip22 {
        let inner = COMPOSITE_HASHER.crh(dom, m, 64).unwrap();
        COMPOSITE_HASHER.xof(dom, &[&[c][..], e, &inner[..]].concat(), 64).unwrap()
    } else {
        let s = [&[c][..], e, m].concat();
        if composite {
            COMPOSITE_HASHER.hash(dom, &s, 64).unwrap()
        } else {
            DirectHasher.hash(dom, &s, 64).unwrap()
        }
    }
}
/// whether a candidate string is of a point of the group, and the point
fn candidate(h: &[u8]) -> (bool, G1Projective) {
    let mut w = h[..48].to_vec();
    w[47] &= 1;
    let x = fe::from_bytes(1, &w);
    let small = eq_bytes(&fe::to_bytes(x, 48), &w);
    let (on, y) = GroupAffine::<g1::Parameters>::y_of_x(Fq(x), bit(h, 377));
    let p = GroupAffine::<g1::Parameters>::new(Fq(x), y, false);
    let q = p.scale_by_cofactor();
    // an encoding of the point at infinity is no candidate
    let inf = and(p.x.is_zero(), bit(h, 382));
    (and(and(small, on), and(not(q.is_zero()), not(inf))), q)
}
/// the hash to the group; the first candidate is taken to be valid
fn hash_spec(composite: bool, cip22: bool, dom: &[u8], m: &[u8], e: &[u8]) -> G1Projective {
    let (ok, q) = candidate(&string(composite, cip22, dom, m, e, 0));
    assume(ok);
    q
}
unsafe fn view<'a>(p: *mut u8, n: i32) -> &'a [u8] {
    std::slice::from_raw_parts(p, n as usize)
}
/// the buffer has exactly this content and can be released as what it is
fn owned(p: *mut u8, n: i32, want: &[u8], what: &str) {
    check(!p.is_null(), what);
    check(n as usize == want.len(), what);
    unsafe {
        check(eq_bytes(view(p, n), want), what);
        check(free_vec(p, n), "released");
    }
}
fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize(&mut v).unwrap();
    v
}
fn unc<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
fn raw<T: ToBytes>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.write(&mut v).unwrap();
    v
}
fn iff(a: bool, b: bool) -> bool {
    a == b
}

// ---------------------------------------------------------------- C26
fn c26_sign_body() {
    let (m, e) = texts(4);
    let (comp, cip) = (bool("composite"), bool("cip22"));
    let sk = PrivateKey::from(fr("sk"));
    let mut out: *mut Signature = null_mut();
    let bad = !comp && cip;
    let h = if bad { G1Projective::zero() } else { hash_spec(comp, cip, SIG, &m, &e) };
    let r = sign_message(&sk, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, comp, cip, &mut out);
    if bad {
        check(!r, "an unsupported combination is refused");
        check(out.is_null(), "nothing is written on failure");
        reach("refused");
        return;
    }
    check(r, "signs");
    check(!out.is_null(), "a signature is written");
    let s = unsafe { &*out };
    check(ds(s) == Fr(fe::mul(sk.as_ref().0, h.d)), "signature is key times the hash asked for");
    reach("signed");
    let mut pk: *mut PublicKey = null_mut();
    check(private_key_to_public_key(&sk, &mut pk), "public key");
    check(dk(unsafe { &*pk }) == *sk.as_ref(), "public key is key times generator");
    let mut v = false;
    check(verify_signature(pk, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, out, comp, cip, &mut v), "verification runs");
    check(v, "own signature rejected");
    unsafe {
        check(destroy_signature(out), "signature released");
        check(destroy_public_key(pk), "key released");
    }
}
fn c26_verify_body() {
    let (m, e) = texts(4);
    let (comp, cip) = (bool("composite"), bool("cip22"));
    let (pk, s) = (pk("pk"), sig("sig"));
    let before = bool("before");
    let mut v = before;
    let bad = !comp && cip;
    let h = if bad { G1Projective::zero() } else { hash_spec(comp, cip, SIG, &m, &e) };
    let r = verify_signature(&pk, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, &s, comp, cip, &mut v);
    if bad {
        check(!r, "an unsupported combination is refused");
        check(iff(v, before), "nothing is written on failure");
        reach("refused");
        return;
    }
    check(r, "verification runs");
    check(iff(v, ds(&s) == dk(&pk) * Fr(h.d)), "accepted a wrong signature or rejected the right one");
    reach("verified");
}
/// a signature of one setting, checked under another
fn c26_cross_body() {
    let (m, e) = texts(1);
    let settings = [(false, false), (true, false), (true, true)];
    let (a, b) = (settings[choice(3, "signing")], settings[choice(3, "checking")]);
    let sk = PrivateKey::from(fr("sk"));
    let (ha, hb) = (hash_spec(a.0, a.1, SIG, &m, &e), hash_spec(b.0, b.1, SIG, &m, &e));
    let mut out: *mut Signature = null_mut();
    check(sign_message(&sk, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, a.0, a.1, &mut out), "signs");
    let (pk, mut v) = (sk.to_public(), false);
    check(verify_signature(&pk, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, out, b.0, b.1, &mut v), "verification runs");
    let k = *sk.as_ref();
    check(iff(v, k * Fr(ha.d) == k * Fr(hb.d)), "a signature moves between hash settings");
    unsafe { destroy_signature(out) };
    reach("crossed");
}
fn c26_pop_body() {
    let (m, _) = texts(4);
    let sk = PrivateKey::from(fr("sk"));
    let mut out: *mut Signature = null_mut();
    let h = hash_spec(false, false, POP, &m, &[]);
    check(sign_pop(&sk, m.as_ptr(), m.len() as i32, &mut out), "signs");
    check(ds(unsafe { &*out }) == Fr(fe::mul(sk.as_ref().0, h.d)), "proof of possession");
    let (pk, s) = (pk("pk"), sig("sig"));
    let mut v = false;
    check(verify_pop(&pk, m.as_ptr(), m.len() as i32, &s, &mut v), "verification runs");
    check(iff(v, ds(&s) == dk(&pk) * Fr(h.d)), "accepted a wrong proof of possession or rejected the right one");
    unsafe { destroy_signature(out) };
    reach("pop");
}
fn c26_hashes_body() {
    let (m, e) = texts(3);
    let (mut p, mut n): (*mut u8, i32) = (null_mut(), 0);
    let (mp, ml) = (m.as_ptr(), m.len() as i32);
    match choice(6, "entry point") {
        0 => {
            let pop = bool("pop");
            let h = hash_spec(false, false, if pop { POP } else { SIG }, &m, &[]);
            check(hash_direct(mp, ml, &mut p, &mut n, pop), "hashes");
            owned(p, n, &raw(&h.into_affine()), "direct hash");
        }
        1 => {
            let pop = bool("pop");
            let dom = if pop { POP } else { SIG };
            let (first, q) = candidate(&string(false, false, dom, &m, &[], 0));
            let (second, r) = candidate(&string(false, false, dom, &m, &[], 1));
            assume(or(first, second));
            let mut c = 77;
            check(hash_direct_with_attempt(mp, ml, &mut p, &mut n, &mut c, pop), "hashes");
            check(c == if first { 0 } else { 1 }, "attempt");
            owned(p, n, &raw(&if first { q } else { r }.into_affine()), "direct hash with attempt");
        }
        2 => {
            hash_spec(true, false, SIG, &m, &e);
            let want = COMPOSITE_HASH_TO_G1.hash(SIG, &m, &e).unwrap();
            check(hash_composite(mp, ml, e.as_ptr(), e.len() as i32, &mut p, &mut n), "hashes");
            owned(p, n, &raw(&want), "composite hash");
        }
        3 => {
            hash_spec(true, true, SIG, &m, &e);
            let (want, c) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG, &m, &e).unwrap();
            let mut a = 77;
            check(hash_composite_cip22(mp, ml, e.as_ptr(), e.len() as i32, &mut p, &mut n, &mut a), "hashes");
            check(a as usize == c, "attempt");
            owned(p, n, &raw(&want), "composite hash of CIP22");
        }
        4 => {
            let l = pick(&[64, 1, 96], "length");
            check(hash_crh(mp, ml, l as i32, &mut p, &mut n), "hashes");
            owned(p, n, &COMPOSITE_HASHER.crh(SIG, &m, l).unwrap(), "inner hash");
        }
        _ => {
            let l = pick(&[64, 1, 96, 0], "length");
            let r = hash_direct_first_step(mp, ml, l as i32, &mut p, &mut n);
            match DirectHasher.hash(SIG, &m, l) {
                Ok(h) => {
                    check(r, "hashes");
                    owned(p, n, &h, "direct first step");
                }
                Err(_) => check(and(!r, p.is_null()), "a failing hash is reported"),
            }
        }
    }
    reach("hashed");
}
/// a key with arbitrary coordinates; the point is a function of them
fn any_key() -> PublicKey {
    let q = || Fq2::new(fq("c0"), fq("c1"));
    let (x, y, z) = (q(), q(), q());
    let mut u = Uf::new();
    for c in &[x.c0, x.c1, y.c0, y.c1, z.c0, z.c1] {
        u = u.fe(c.0);
    }
    let mut p = G2Projective::of_dlog(u.to_fe("point", 0));
    p.x = x;
    p.y = y;
    p.z = z;
    PublicKey::from(p)
}
fn c26_sums_body() {
    let n = choice(4, "n");
    let (ps, ss): (Vec<_>, Vec<_>) = ((0..n).map(|_| any_key()).collect(), (0..n).map(|_| sig("s")).collect());
    let pp: Vec<*const PublicKey> = ps.iter().map(|p| p as *const _).collect();
    let sp: Vec<*const Signature> = ss.iter().map(|p| p as *const _).collect();
    let (mut a, mut b) = (Fr::zero(), Fr::zero());
    for i in 0..n {
        a += dk(&ps[i]);
        b += ds(&ss[i]);
        for j in 0..i {
            assume(dk(&ps[i]) != dk(&ps[j]));
        }
    }
    let mut s: *mut Signature = null_mut();
    check(aggregate_signatures(sp.as_ptr(), n as i32, &mut s), "aggregates");
    check(ds(unsafe { &*s }) == b, "sum of signatures");
    let mut k: *mut PublicKey = null_mut();
    check(aggregate_public_keys(pp.as_ptr(), n as i32, &mut k), "aggregates");
    check(dk(unsafe { &*k }) == a, "sum of keys");
    // subtracting some of them
    let m = choice(n + 1, "subtracted");
    let mut rest = Fr::zero();
    for p in &ps[m..] {
        rest += dk(p);
    }
    let mut d: *mut PublicKey = null_mut();
    check(aggregate_public_keys_subtract(k, pp.as_ptr(), m as i32, &mut d), "subtracts");
    check(dk(unsafe { &*d }) == rest, "difference of keys");
    unsafe {
        check(and(destroy_signature(s), and(destroy_public_key(k), destroy_public_key(d))), "released");
    }
    reach("summed");
}
fn c26_batch_body() {
    let n = choice(3, "n");
    let (comp, cip) = (bool("composite"), bool("cip22"));
    let bad = !comp && cip;
    let lens = [(1, 2), (33, 0)];
    let t: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|i| (bytes_vec(lens[i].0, "message"), bytes_vec(lens[i].1, "extra"))).collect();
    let (ps, ss): (Vec<_>, Vec<_>) = ((0..n).map(|_| pk("p")).collect(), (0..n).map(|_| sig("s")).collect());
    let (mut left, mut right) = (Fr::zero(), Fr::zero());
    for i in 0..n {
        left += ds(&ss[i]);
        if !bad {
            right += dk(&ps[i]) * Fr(hash_spec(comp, cip, SIG, &t[i].0, &t[i].1).d);
        }
    }
    let buf = |b: &Vec<u8>| Buffer { ptr: b.as_ptr(), len: b.len() };
    let ms: Vec<MessageFFI> = (0..n).map(|i| MessageFFI { data: buf(&t[i].0), extra: buf(&t[i].1), public_key: &ps[i], sig: &ss[i] }).collect();
    let before = bool("before");
    let mut v = before;
    let r = batch_verify_signature(ms.as_ptr(), n, comp, cip, &mut v);
    if bad {
        check(!r, "an unsupported combination is refused");
        check(iff(v, before), "nothing is written on failure");
        reach("refused");
        return;
    }
    check(r, "verification runs");
    check(iff(v, left == right), "batch equation");
    reach("batch");
}

// ---------------------------------------------------------------- C27
fn c27_key_body() {
    let sk = PrivateKey::from(fr("sk"));
    let (mut p, mut n): (*mut u8, i32) = (null_mut(), 0);
    check(serialize_private_key(&sk, &mut p, &mut n), "serializes");
    let mut o: *mut PrivateKey = null_mut();
    check(deserialize_private_key(p, n, &mut o), "reads back");
    check(*unsafe { &*o }.as_ref() == *sk.as_ref(), "the same key");
    owned(p, n, &ser(&sk), "private key");
    check(unsafe { destroy_private_key(o) }, "released");
    unsafe {
        check(!destroy_private_key(null_mut()), "null private key");
        check(!destroy_public_key(null_mut()), "null public key");
        check(!destroy_signature(null_mut()), "null signature");
        check(!free_vec(null_mut(), 0), "null buffer");
    }
    reach("private");
}
fn c27_points_body() {
    let (mut p, mut n): (*mut u8, i32) = (null_mut(), 0);
    let way = choice(4, "entry point");
    if way < 2 {
        let k = pk("pk");
        check(if way == 0 { serialize_public_key(&k, &mut p, &mut n) } else { serialize_public_key_uncompressed(&k, &mut p, &mut n) }, "serializes");
        if way == 0 {
            let (mut o, mut c): (*mut PublicKey, *mut PublicKey) = (null_mut(), null_mut());
            check(deserialize_public_key(p, n, &mut o), "reads back");
            check(deserialize_public_key_cached(p, n, &mut c), "reads back through the cache");
            check(and(dk(unsafe { &*o }) == dk(&k), dk(unsafe { &*c }) == dk(&k)), "the same key");
            unsafe { check(and(destroy_public_key(o), destroy_public_key(c)), "released") };
        }
        owned(p, n, &if way == 0 { ser(&k) } else { unc(&k) }, "public key");
        reach("public");
    } else {
        let s = sig("sig");
        check(if way == 2 { serialize_signature(&s, &mut p, &mut n) } else { serialize_signature_uncompressed(&s, &mut p, &mut n) }, "serializes");
        if way == 2 {
            let mut o: *mut Signature = null_mut();
            check(deserialize_signature(p, n, &mut o), "reads back");
            check(ds(unsafe { &*o }) == ds(&s), "the same signature");
            unsafe { check(destroy_signature(o), "released") };
        }
        owned(p, n, &if way == 2 { ser(&s) } else { unc(&s) }, "signature");
        reach("signature");
    }
}
/// arbitrary bytes
fn c27_bytes_body() {
    let way = choice(4, "entry point");
    let n = pick([&[0, 1, 31, 32, 33][..], &[0, 1, 95, 96, 97], &[0, 1, 95, 96, 97], &[0, 1, 47, 48, 49]][way], "length");
    let b = bytes_vec(n, "bytes");
    let (p, l) = (b.as_ptr(), n as i32);
    let ok = match way {
        0 => {
            let mut o: *mut PrivateKey = null_mut();
            let r = deserialize_private_key(p, l, &mut o);
            let want = PrivateKey::deserialize(&b[..]);
            check(r == want.is_ok(), "private keys are those of the library");
            check(o.is_null() == !r, "an object exactly on success");
            if r {
                unsafe {
                    check(*(*o).as_ref() == *want.unwrap().as_ref(), "the key of these bytes");
                    check(destroy_private_key(o), "released");
                }
            }
            r
        }
        1 | 2 => {
            let mut o: *mut PublicKey = null_mut();
            let r = if way == 1 { deserialize_public_key(p, l, &mut o) } else { deserialize_public_key_cached(p, l, &mut o) };
            let want = PublicKey::deserialize(&b[..]);
            check(r == want.is_ok(), "public keys are those of the library");
            check(o.is_null() == !r, "an object exactly on success");
            if r {
                unsafe {
                    check(dk(&*o) == dk(&want.unwrap()), "the key of these bytes");
                    check(destroy_public_key(o), "released");
                }
            }
            r
        }
        _ => {
            let mut o: *mut Signature = null_mut();
            let r = deserialize_signature(p, l, &mut o);
            let want = Signature::deserialize(&b[..]);
            check(r == want.is_ok(), "signatures are those of the library");
            check(o.is_null() == !r, "an object exactly on success");
            if r {
                unsafe {
                    check(ds(&*o) == ds(&want.unwrap()), "the signature of these bytes");
                    check(destroy_signature(o), "released");
                }
            }
            r
        }
    };
    reach(if ok { "accepted" } else { "rejected" });
}
fn c27_compress_body() {
    let g2 = choice(2, "key") == 1;
    let n = pick(if g2 { &[192, 0, 1, 95, 96, 97, 191, 193] } else { &[96, 0, 1, 47, 48, 49, 95, 97] }, "length");
    let b = bytes_vec(n, "bytes");
    let (mut p, mut l): (*mut u8, i32) = (null_mut(), 0);
    let r = if g2 { compress_pubkey(b.as_ptr(), n as i32, &mut p, &mut l) } else { compress_signature(b.as_ptr(), n as i32, &mut p, &mut l) };
    let mut s = &b[..];
    let want = if g2 {
        Fq2::read(&mut s).and_then(|x| Fq2::read(&mut s).map(|y| ser(&G2Affine::new(x, y, false))))
    } else {
        Fq::read(&mut s).and_then(|x| Fq::read(&mut s).map(|y| ser(&G1Affine::new(x, y, false))))
    };
    match want {
        Ok(w) => {
            check(r, "coordinates are compressed");
            owned(p, l, &w, "compressed point");
            reach("compressed");
        }
        Err(_) => {
            check(!r, "malformed coordinates are refused");
            check(p.is_null(), "no buffer on failure");
            reach("malformed");
        }
    }
}
/// the views of messages as buffers and back
fn c27_buffers_body() {
    let (m, e) = texts(4);
    let (pk, s) = (pk("pk"), sig("sig"));
    let msg = Message { data: &m, extra: &e, public_key: &pk, sig: &s };
    let f = MessageFFI::from(&msg);
    check(and(f.data.len == m.len(), f.extra.len == e.len()), "lengths");
    let back = Message::from(&f);
    check(and(eq_bytes(back.data, &m), eq_bytes(back.extra, &e)), "contents");
    check(and(back.public_key as *const _ == &pk as *const _, back.sig as *const _ == &s as *const _), "the same objects");
    reach("buffers");
}

// ---------------------------------------------------------------- C28
/// exponents drawn for batches of these sizes, in the order of the draws
fn exponents(n: usize, from: &mut usize) -> Vec<Fr> {
    let mut target = (128 + if n > 1 { (64 - (n as u64 - 1).leading_zeros()) as usize } else { 0 } + 7) / 8;
    target = target.min(253 / 8);
    (0..n)
        .map(|_| {
            let b = rand::drawn()[*from..*from + target].to_vec();
            *from += target;
            Fr(fe::from_bytes(0, &b))
        })
        .collect()
}
fn c28_body(batches: usize, max: usize) {
    let n = choice(batches + 1, "batches");
    let (comp, cip) = (bool("composite"), bool("cip22"));
    let bad = !comp && cip;
    let lens = [(1, 2), (0, 0), (33, 0)];
    let t: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|i| (bytes_vec(lens[i].0, "message"), bytes_vec(lens[i].1, "extra"))).collect();
    let ps: Vec<Vec<PublicKey>> = (0..n).map(|_| (0..choice(max + 1, "keys")).map(|_| pk("p")).collect()).collect();
    let ss: Vec<Vec<Signature>> = (0..n).map(|_| (0..choice(max + 1, "signatures")).map(|_| sig("s")).collect()).collect();
    let pp: Vec<Vec<*const PublicKey>> = ps.iter().map(|v| v.iter().map(|p| p as *const _).collect()).collect();
    let sp: Vec<Vec<*const Signature>> = ss.iter().map(|v| v.iter().map(|p| p as *const _).collect()).collect();
    let h: Vec<G1Projective> = t.iter().map(|t| if bad { G1Projective::zero() } else { hash_spec(comp, cip, SIG, &t.0, &t.1) }).collect();
    let buf = |b: &Vec<u8>| Buffer { ptr: b.as_ptr(), len: b.len() };
    let bs: Vec<BatchMessageFFI> = (0..n)
        .map(|i| BatchMessageFFI { data: buf(&t[i].0), extra: buf(&t[i].1), public_keys: pp[i].as_ptr(), public_keys_len: pp[i].len(), signatures: sp[i].as_ptr(), signatures_len: sp[i].len() })
        .collect();
    let mut out: Vec<bool> = (0..n).map(|_| bool("before")).collect();
    let r = batch_verify_strict(bs.as_ptr(), n, comp, cip, out.as_mut_ptr());
    let (mut all, mut from) = (true, 0);
    for i in 0..n {
        if bad {
            check(!out[i], "an unsupported combination is refused");
            all = false;
            continue;
        }
        if ps[i].len() != ss[i].len() {
            check(!out[i], "a batch with a key or signature too many is refused");
            all = false;
            reach("uneven");
            // whatever has been drawn for it
            if i + 1 < n {
                return;
            }
            continue;
        }
        let x = exponents(ps[i].len(), &mut from);
        let mut s = Fr::zero();
        for j in 0..x.len() {
            s += x[j] * (ds(&ss[i][j]) - dk(&ps[i][j]) * Fr(h[i].d));
        }
        check(iff(out[i], s.is_zero()), "each result is that of its batch");
        all = and(all, s.is_zero());
    }
    check(iff(r, all), "success exactly if every batch is accepted");
    if r {
        reach("all accepted");
    } else {
        reach("some rejected");
    }
}
/// entries that are individually valid are accepted
fn c28_valid_body() {
    let (m, e) = texts(2);
    let (comp, cip) = [(false, false), (true, false), (true, true)][choice(3, "setting")];
    let h = hash_spec(comp, cip, SIG, &m, &e);
    let n = choice(4, "n");
    let ps: Vec<PublicKey> = (0..n).map(|_| pk("p")).collect();
    let ss: Vec<Signature> = ps.iter().map(|p| Signature::from(G1Projective::of_dlog((dk(p) * Fr(h.d)).0))).collect();
    let pp: Vec<*const PublicKey> = ps.iter().map(|p| p as *const _).collect();
    let sp: Vec<*const Signature> = ss.iter().map(|p| p as *const _).collect();
    let buf = |b: &Vec<u8>| Buffer { ptr: b.as_ptr(), len: b.len() };
    let b = BatchMessageFFI { data: buf(&m), extra: buf(&e), public_keys: pp.as_ptr(), public_keys_len: n, signatures: sp.as_ptr(), signatures_len: n };
    let mut out = false;
    check(batch_verify_strict(&b, 1, comp, cip, &mut out), "valid entries are accepted");
    check(out, "valid entries are accepted");
    reach("valid");
}

// ---------------------------------------------------------------- C29
fn entropy(name: &str) -> Option<Vec<u8>> {
    if choice(2, "entropy present") == 1 {
        Some(bytes_vec(16, name))
    } else {
        None
    }
}
fn ptr(e: &Option<Vec<u8>>) -> *const u8 {
    e.as_ref().map(|v| v.as_ptr()).unwrap_or(std::ptr::null())
}
fn opt_eq(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => eq_bytes(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// an epoch as a caller describes it: the keys are arbitrary bytes
struct Given {
    e: Option<Vec<u8>>,
    p: Option<Vec<u8>>,
    keys: Vec<u8>,
    n: usize,
    index: u16,
    round: u8,
    non_signers: u32,
    max: usize,
}
impl Given {
    fn new(n: usize, max: usize) -> Given {
        Given::with(n, max, entropy("epoch entropy"), entropy("parent entropy"))
    }
    fn with(n: usize, max: usize, e: Option<Vec<u8>>, p: Option<Vec<u8>>) -> Given {
        Given { e, p, keys: bytes_vec(96 * n, "keys"), n, index: u16("index"), round: u8("round"), non_signers: u32("non signers"), max }
    }
    fn ffi(&self) -> EpochBlockFFI {
        EpochBlockFFI { index: self.index, round: self.round, epoch_entropy: ptr(&self.e), parent_entropy: ptr(&self.p), pubkeys: self.keys.as_ptr(), pubkeys_num: self.n, maximum_non_signers: self.non_signers, maximum_validators: self.max }
    }
    /// the block it is, if its keys are keys
    fn block(&self) -> Option<EpochBlock> {
        let mut k = vec![];
        for c in self.keys.chunks(96) {
            match G2Affine::deserialize(c) {
                Ok(p) => k.push(PublicKey::from(p.into_projective())),
                Err(_) => return None,
            }
        }
        Some(EpochBlock::new(self.index, self.round, self.e.clone(), self.p.clone(), self.non_signers, self.max, k))
    }
}
fn c29_convert_body() {
    let n = choice(4, "n");
    let g = Given::new(n, u8("max") as usize);
    let want = g.block();
    match EpochBlock::try_from(&g.ffi()) {
        Ok(b) => {
            check(want.is_some(), "malformed keys are refused");
            let w = want.unwrap();
            check(and(b.index == w.index, and(b.round == w.round, b.maximum_non_signers == w.maximum_non_signers)), "numbers");
            check(b.maximum_validators == w.maximum_validators, "maximum of validators");
            check(and(opt_eq(&b.epoch_entropy, &w.epoch_entropy), opt_eq(&b.parent_entropy, &w.parent_entropy)), "entropies");
            check(b.new_public_keys.len() == n, "number of keys");
            for (x, y) in b.new_public_keys.iter().zip(&w.new_public_keys) {
                check(dk(x) == dk(y), "keys");
            }
            reach("converted");
        }
        Err(_) => {
            check(want.is_none(), "a well-formed epoch is converted");
            reach("malformed");
        }
    }
}
fn c29_verify_body(n: usize, lengths: bool, k: usize) {
    let has = |name: &str, b: bool| if b { Some(bytes_vec(16, name)) } else { None };
    let first = Given::with(n, 1, has("first epoch entropy", k == 1 || k == 2), has("first parent entropy", k == 1 || k == 3));
    let last = Given::with(n, 1, has("last epoch entropy", k == 1 || k == 3), has("last parent entropy", k == 1 || k == 2));
    // arbitrary bytes for the verifying key (three inputs, unless cut short) and the proof
    const FULL: usize = 96 + 3 * 96 + 8 + 3 * 96;
    let (vl, pl) = if lengths {
        [(FULL + 1, 288), (FULL - 1, 288), (392, 288), (391, 288), (0, 288), (FULL, 289), (FULL, 287), (FULL, 1), (FULL, 0)][choice(9, "lengths")]
    } else {
        (FULL, 288)
    };
    let mut vk = bytes_vec(vl, "verifying key");
    let proof = bytes_vec(pl, "proof");
    if vl >= 392 {
        vk[384..392].copy_from_slice(&[3, 0, 0, 0, 0, 0, 0, 0]);
    }
    let r = unsafe { bls_snark_sys::snark::verify(vk.as_ptr(), vl as u32, proof.as_ptr(), pl as u32, first.ffi(), last.ffi()) };
    let all = first.block().and_then(|f| {
        let l = last.block()?;
        let v = VerifyingKey::<BW6_761>::deserialize(&vk[..]).ok()?;
        Some((f, l, v, Proof::<BW6_761>::deserialize(&proof[..]).ok()?))
    });
    match all {
        Some((f, l, v, p)) => {
            let want = epoch_snark::verify(&v, &f, &l, &p).is_ok();
            check(r == want, "the verdict is that of the verifier on these epochs");
            if r {
                reach("accepted");
            } else {
                reach("rejected");
            }
        }
        None => {
            check(!r, "malformed input is refused");
            reach("malformed");
        }
    }
}
fn c29_encode_body() {
    let n = choice(3, "n");
    let (e, p) = (entropy("epoch entropy"), entropy("parent entropy"));
    let (i, r, ns) = (u16("index"), u8("round"), u32("non signers"));
    let ks: Vec<PublicKey> = (0..n).map(|_| PublicKey::from(G2Projective::of_dlog(fe::var(0, "key")))).collect();
    let kp: Vec<*const PublicKey> = ks.iter().map(|k| k as *const _).collect();
    let (mut a, mut al, mut b, mut bl): (*mut u8, i32, *mut u8, i32) = (null_mut(), 0, null_mut(), 0);
    if bool("cip22") {
        let max = n + choice(2, "padding");
        check(encode_epoch_block_to_bytes_cip22(i, r, ptr(&e), ptr(&p), ns, max as u32, kp.as_ptr(), n as i32, &mut a, &mut al, &mut b, &mut bl), "encodes");
        let (x, y) = EpochBlock::new(i, r, e, p, ns, max, ks.clone()).encode_inner_to_bytes_cip22().unwrap();
        owned(a, al, &x, "encoding of CIP22");
        owned(b, bl, &y, "extra data of CIP22");
    } else {
        check(encode_epoch_block_to_bytes(i, ns, kp.as_ptr(), n as i32, &mut a, &mut al), "encodes");
        let x = EpochBlock::new(i, 0, None, None, ns, n, ks.clone()).encode_to_bytes().unwrap();
        owned(a, al, &x, "encoding");
    }
    reach("encoded");
}
fn c29_keys_body() {
    let n = choice(4, "n");
    let ks: Vec<PublicKey> = (0..n).map(|_| pk("key")).collect();
    let b = serialize_pubkeys(&ks).unwrap();
    check(b.len() == 96 * n, "length of the keys");
    let g = EpochBlockFFI { index: 0, round: 0, epoch_entropy: std::ptr::null(), parent_entropy: std::ptr::null(), pubkeys: b.as_ptr(), pubkeys_num: n, maximum_non_signers: 0, maximum_validators: n };
    let r = EpochBlock::try_from(&g);
    check(r.is_ok(), "keys are read back");
    for (x, y) in r.unwrap().new_public_keys.iter().zip(&ks) {
        check(dk(x) == dk(y), "the same keys");
    }
    reach("keys");
}

harnesses! {
    fn c26_sign() { c26_sign_body() }
    fn c26_verify() { c26_verify_body() }
    fn c26_cross() { c26_cross_body() }
    fn c26_pop() { c26_pop_body() }
    fn c26_hashes() { c26_hashes_body() }
    fn c26_sums() { c26_sums_body() }
    fn c26_batch() { c26_batch_body() }
    fn c27_key() { c27_key_body() }
    fn c27_points() { c27_points_body() }
    fn c27_bytes() { c27_bytes_body() }
    fn c27_compress() { c27_compress_body() }
    fn c27_buffers() { c27_buffers_body() }
    fn c28_one() { c28_body(1, 2) }
    fn c28_two() { c28_body(2, 1) }
    fn c28_valid() { c28_valid_body() }
    fn c29_convert() { c29_convert_body() }
    fn c29_verify_none() { c29_verify_body(1, false, 0) }
    fn c29_verify_all() { c29_verify_body(1, false, 1) }
    fn c29_verify_some() { c29_verify_body(1, false, 2) }
    fn c29_verify_lengths() { c29_verify_body(0, true, 0) }
    fn c29_encode() { c29_encode_body() }
    fn c29_keys() { c29_keys_body() }
}

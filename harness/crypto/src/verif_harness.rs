//! C05..C14, C30: signatures, hashing to the curve, batches, caches and serialization of bls-crypto,
//! against reference statements over discrete logarithms.
use ark::curves::bls12_377::{g1, Fq, Fr, G1Affine, G1Projective, G2Projective};
use ark::ec::{AffineCurve, GroupAffine, ProjectiveCurve, SWModelParameters};
use ark::ff::{Field, PrimeField, Zero};
use ark::ser::*;
use bls_crypto::bls::Batch;
use bls_crypto::hash_to_curve::{hash_length, try_and_increment::TryAndIncrement, try_and_increment_cip22::TryAndIncrementCIP22, HashToCurve};
use bls_crypto::hashers::Hasher;
use bls_crypto::*;
use symapi::*;

const SIG: &[u8] = b"ULforxof";
const POP: &[u8] = b"ULforpop";

fn num(p: &str, i: usize) -> String {
    rand::draw_name(p, i)
}
fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
static mut VARS: Vec<(String, Fe)> = Vec::new();
/// the arbitrary element with this name
fn fvar(f: u32, name: &str) -> Fe {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(v) = VARS.iter().find(|v| v.0 == name) {
            return v.1;
        }
        let v = fe::var(f, name);
        VARS.push((String::from(name), v));
        v
    }
}
fn fr(name: &str) -> Fr {
    Fr(fvar(0, name))
}
/// an arbitrary group element with an arbitrary representative
fn g1p(name: &str) -> G1Projective {
    let r = Fq(fvar(1, &(String::from(name) + "_z")));
    G1Projective::of_dlog_rep(fvar(0, name), r)
}
fn g2p(name: &str) -> G2Projective {
    let z = ark::ff::Fq2::new(Fq(fvar(1, &(String::from(name) + "_z0"))), Fq(fvar(1, &(String::from(name) + "_z1"))));
    G2Projective::of_dlog_rep(fvar(0, name), z)
}
fn d1(p: &G1Projective) -> Fr {
    Fr(p.d)
}
fn d2(p: &G2Projective) -> Fr {
    Fr(p.d)
}

/// an arbitrary hash to the group, which may fail
struct H;
fn h_ok(domain: &[u8], message: &[u8], extra: &[u8]) -> bool {
    Uf::new().u64(domain.len() as u64).bytes(domain).u64(message.len() as u64).bytes(message).bytes(extra).to_bool("hash_ok")
}
fn h_d(domain: &[u8], message: &[u8], extra: &[u8]) -> Fr {
    Fr(Uf::new().u64(domain.len() as u64).bytes(domain).u64(message.len() as u64).bytes(message).bytes(extra).to_fe("hash_dlog", 0))
}
impl HashToCurve for H {
    type Output = G1Projective;
    fn hash(&self, domain: &[u8], message: &[u8], extra: &[u8]) -> Result<G1Projective, BLSError> {
        if h_ok(domain, message, extra) {
            Ok(G1Projective::of_dlog_rep(h_d(domain, message, extra).0, Fq(Uf::new().bytes(message).bytes(extra).to_fe("hash_rep", 1))))
        } else {
            Err(BLSError::HashToCurveError)
        }
    }
}
fn texts(k: usize) -> (Vec<u8>, Vec<u8>) {
    let m = pick(&[0, 1, 33, 97][..k], "mlen");
    let e = pick(&[0, 1, 7, 40][..k], "elen");
    (bytes_vec(m, "message"), bytes_vec(e, "extra"))
}

// ---------------------------------------------------------------- C08
fn c08_sign_body(pop: bool) {
    let (m, e) = texts(4);
    let e = if pop { vec![] } else { e };
    let dom = if pop { POP } else { SIG };
    let sk = PrivateKey::from(fr("sk"));
    let s = if pop { sk.sign_pop(&m, &H) } else { sk.sign(&m, &e, &H) };
    let ok = h_ok(dom, &m, &e);
    match s {
        Ok(s) => {
            check(ok, "signed although hashing failed");
            check(d1(s.as_ref()) == fr("sk") * h_d(dom, &m, &e), "signature is not key times hash");
            let pk = sk.to_public();
            check(d2(pk.as_ref()) == fr("sk"), "public key is not key times generator");
            let v = if pop { pk.verify_pop(&m, &s, &H) } else { pk.verify(&m, &e, &s, &H) };
            check(v.is_ok(), "own signature rejected");
            reach("signed");
        }
        Err(_) => {
            check(!ok, "signing failed");
            reach("sign error");
        }
    }
}
fn c08_verify_body(pop: bool) {
    let (m, e) = texts(4);
    let e = if pop { vec![] } else { e };
    let dom = if pop { POP } else { SIG };
    let pk = PublicKey::from(g2p("pk"));
    let s = Signature::from(g1p("sig"));
    let v = if pop { pk.verify_pop(&m, &s, &H) } else { pk.verify(&m, &e, &s, &H) };
    let want = and(h_ok(dom, &m, &e), fr("sig") == fr("pk") * h_d(dom, &m, &e));
    if v.is_ok() {
        reach("accepted");
    } else {
        reach("rejected");
    }
    check(v.is_ok() == want, "accepted a wrong signature or rejected the right one");
}
/// a signature made for one pair of texts, checked on another
fn c08_cross_body() {
    let (m, e) = texts(3);
    let (l2, k2) = (pick(&[0, 1, 33], "mlen2"), pick(&[0, 1, 7], "elen2"));
    let (m2, e2) = (bytes_vec(l2, "message2"), bytes_vec(k2, "extra2"));
    let sk = PrivateKey::from(fr("sk"));
    let sk2 = PrivateKey::from(fr("sk2"));
    let (as_pop, on_pop) = (bool("signed as pop"), bool("checked as pop"));
    let s = if as_pop { sk.sign_pop(&m, &H) } else { sk.sign(&m, &e, &H) };
    let (d, x) = if as_pop { (POP, &[][..]) } else { (SIG, &e[..]) };
    let (dd, xx) = if on_pop { (POP, &[][..]) } else { (SIG, &e2[..]) };
    if let Ok(s) = s {
        let pk = sk2.to_public();
        let v = if on_pop { pk.verify_pop(&m2, &s, &H) } else { pk.verify(&m2, &e2, &s, &H) };
        let want = and(h_ok(dd, &m2, xx), fr("sk") * h_d(d, &m, x) == fr("sk2") * h_d(dd, &m2, xx));
        check(v.is_ok() == want, "signature moves between keys, texts or domains");
    }
}

// ---------------------------------------------------------------- C09
fn c09_sums_body() {
    let n = choice(9, "n");
    let ps: Vec<PublicKey> = (0..n).map(|i| PublicKey::from(g2p(&num("p", i)))).collect();
    let ss: Vec<Signature> = (0..n).map(|i| Signature::from(g1p(&num("s", i)))).collect();
    let (mut a, mut b) = (Fr::zero(), Fr::zero());
    for i in 0..n {
        a += fr(&num("p", i));
        b += fr(&num("s", i));
    }
    check(d2(PublicKey::aggregate(&ps).as_ref()) == a, "sum of keys (by reference)");
    check(d1(Signature::aggregate(&ss).as_ref()) == b, "sum of signatures (by reference)");
    check(d2(PublicKey::aggregate(ps).as_ref()) == a, "sum of keys");
    check(d1(Signature::aggregate(ss).as_ref()) == b, "sum of signatures");
    reach("summed");
}
/// signers' signatures over one message, one of them altered by `delta`
fn c09_verify_body() {
    let n = choice(6, "n");
    let (m, e) = texts(2);
    let keys: Vec<PrivateKey> = (0..n).map(|i| PrivateKey::from(fr(&num("k", i)))).collect();
    let mut sigs: Vec<Signature> = vec![];
    for k in &keys {
        match k.sign(&m, &e, &H) {
            Ok(s) => sigs.push(s),
            Err(_) => return,
        }
    }
    assume(h_ok(SIG, &m, &e));
    let pk = PublicKey::aggregate(keys.iter().map(|k| k.to_public()));
    let delta = fr("delta");
    if n > 0 {
        let at = choice(n, "at");
        let how = choice(3, "how");
        let own = fr(&num("k", at)) * h_d(SIG, &m, &e);
        let (sigs, off) = match how {
            0 => {
                let mut s = sigs.clone();
                s[at] = Signature::from(G1Projective::of_dlog((own + delta).0));
                (s, delta)
            }
            1 => {
                let mut s = sigs.clone();
                s.remove(at);
                (s, own)
            }
            _ => {
                let mut s = sigs.clone();
                s.push(sigs[at].clone());
                (s, own)
            }
        };
        let agg = Signature::aggregate(&sigs);
        check(pk.verify(&m, &e, &agg, &H).is_ok() == off.is_zero(), "aggregate over altered contributions");
        reach("altered");
    } else {
        check(pk.verify(&m, &e, &Signature::aggregate(&sigs), &H).is_ok(), "empty aggregate");
    }
    let agg = Signature::aggregate(&sigs);
    check(pk.verify(&m, &e, &agg, &H).is_ok(), "aggregate of all signers rejected");
}

// ---------------------------------------------------------------- C10
fn c10_batch_body(maxn: usize, hashes: bool) {
    let n = choice(maxn + 1, "n");
    let k = choice(maxn + 1, "k");
    let pks: Vec<PublicKey> = (0..k).map(|i| PublicKey::from(g2p(&num("p", i)))).collect();
    let sig = Signature::from(g1p("sig"));
    if hashes {
        let hs: Vec<G1Projective> = (0..n).map(|i| g1p(&num("h", i))).collect();
        let r = sig.batch_verify_hashes(&pks, &hs);
        if n != k {
            check(matches!(r, Err(BLSError::UnevenNumKeysMessages)), "lists of different lengths");
            reach("uneven");
            return;
        }
        let mut want = Fr::zero();
        for i in 0..n {
            want += fr(&num("p", i)) * fr(&num("h", i));
        }
        check(r.is_ok() == (fr("sig") == want), "product equation");
        reach("batch");
        return;
    }
    let dom = bytes_vec(pick(&[0, 8], "dlen"), "domain");
    let ml = pick(&[0, 1, 33], "mlen");
    let el = pick(&[0, 2], "elen");
    // the lengths of the texts alternate between entries
    let ms: Vec<(Vec<u8>, Vec<u8>)> = (0..n)
        .map(|i| (bytes_vec(if i % 2 == 1 { 1 } else { ml }, &num("m", i)), bytes_vec(if i % 2 == 1 { 0 } else { el }, &num("e", i))))
        .collect();
    let refs: Vec<(&[u8], &[u8])> = ms.iter().map(|x| (&x.0[..], &x.1[..])).collect();
    let r = sig.batch_verify(&pks, &dom, &refs, &H);
    if n != k {
        check(matches!(r, Err(BLSError::UnevenNumKeysMessages)), "lists of different lengths");
        reach("uneven");
        return;
    }
    let mut want = Fr::zero();
    let mut ok = true;
    for i in 0..n {
        ok = and(ok, h_ok(&dom, &ms[i].0, &ms[i].1));
        want += fr(&num("p", i)) * h_d(&dom, &ms[i].0, &ms[i].1);
    }
    check(r.is_ok() == and(ok, fr("sig") == want), "product equation");
    reach("batch");
}

// ---------------------------------------------------------------- C11
/// the random exponents, in the order of the entries: the drawn bytes cut into equal parts
fn exponents(n: usize) -> Vec<Fr> {
    if n == 0 {
        return vec![];
    }
    if rand::draws() == 0 {
        check(rand::field_draws() == n, "one exponent per entry");
        return rand::drawn_fields().iter().map(|f| Fr(*f)).collect();
    }
    let s = rand::drawn();
    check(s.len() % n == 0, "exponents of equal size");
    let c = s.len() / n;
    check(c >= 16, "exponents of at least 128 bits");
    check(c < 32, "exponents below the group order");
    (0..n).map(|i| Fr(fe::from_bytes(0, &s[c * i..c * i + c]))).collect()
}
fn c11_strict_body(sizes: &[usize], empty: bool) {
    let n = pick(sizes, "n");
    let (m, e) = if empty { (vec![], vec![]) } else { texts(2) };
    let mut b = Batch::new(&m, &e);
    for i in 0..n {
        b.add(PublicKey::from(g2p(&num("p", i))), Signature::from(g1p(&num("s", i))));
    }
    let r = b.verify(&H);
    let h = h_d(SIG, &m, &e);
    let x = exponents(n);
    let mut t = Fr::zero();
    for i in 0..n {
        t += x[i] * (fr(&num("s", i)) - fr(&num("p", i)) * h);
    }
    if r.is_ok() {
        reach("accepted");
    } else {
        reach("rejected");
    }
    check(r.is_ok() == and(h_ok(SIG, &m, &e), t.is_zero()), "acceptance is not the random combination of the entries being zero");
}
/// the batch may be checked again: fresh exponents
fn c11_again_body() {
    let n = 2;
    let mut b = Batch::new(&[], &[]);
    for i in 0..n {
        b.add(PublicKey::from(g2p(&num("p", i))), Signature::from(g1p(&num("s", i))));
    }
    let h = h_d(SIG, &[], &[]);
    let _ = b.verify(&H);
    let (k, f) = (rand::drawn().len(), rand::field_draws());
    let r = b.verify(&H);
    let s = rand::drawn()[k..].to_vec();
    let x: Vec<Fr> = if k == 0 {
        rand::drawn_fields()[f..].iter().map(|f| Fr(*f)).collect()
    } else {
        check(s.len() == k, "fresh exponents");
        let c = k / n;
        (0..n).map(|i| Fr(fe::from_bytes(0, &s[c * i..c * i + c]))).collect()
    };
    let mut t = Fr::zero();
    for i in 0..n {
        t += x[i] * (fr(&num("s", i)) - fr(&num("p", i)) * h);
    }
    check(r.is_ok() == and(h_ok(SIG, &[], &[]), t.is_zero()), "second verification");
}
fn c11_each_body() {
    let n = choice(5, "n");
    let (m, e) = texts(2);
    let mut b = Batch::new(&m, &e);
    for i in 0..n {
        b.add(PublicKey::from(g2p(&num("p", i))), Signature::from(g1p(&num("s", i))));
    }
    let h = h_d(SIG, &m, &e);
    let mut all = or(n == 0, h_ok(SIG, &m, &e));
    for i in 0..n {
        all = and(all, fr(&num("s", i)) == fr(&num("p", i)) * h);
    }
    check(b.verify_each(&H).is_ok() == all, "verify_each");
    reach("each");
}
/// valid entries are accepted whatever is drawn, and lists of different lengths have no combination
fn c11_combine_body() {
    let n = choice(4, "n");
    let k = choice(4, "k");
    let x: Vec<Fr> = (0..k).map(|i| fr(&num("x", i))).collect();
    let p = PublicKey::batch(&x, (0..n).map(|i| PublicKey::from(g2p(&num("p", i)))));
    let s = Signature::batch(&x, (0..n).map(|i| Signature::from(g1p(&num("s", i)))));
    if n != k {
        check(p.is_none(), "keys and exponents of different numbers");
        check(s.is_none(), "signatures and exponents of different numbers");
        reach("uneven");
        return;
    }
    let (mut a, mut b) = (Fr::zero(), Fr::zero());
    for i in 0..n {
        a += x[i] * fr(&num("p", i));
        b += x[i] * fr(&num("s", i));
    }
    check(p.map(|p| d2(p.as_ref()) == a).unwrap_or(false), "combination of keys");
    check(s.map(|s| d1(s.as_ref()) == b).unwrap_or(false), "combination of signatures");
    reach("combined");
}

// ---------------------------------------------------------------- C12
/// a key with arbitrary coordinates; the point is a function of them
fn any_key(name: &str) -> G2Projective {
    let v = |s: &str| Fq(fvar(1, &(String::from(name) + s)));
    let q = |a: &str, b: &str| ark::ff::Fq2::new(v(a), v(b));
    let (x, y, z) = (q("_x0", "_x1"), q("_y0", "_y1"), q("_z0", "_z1"));
    let mut u = Uf::new();
    for c in &[x.c0, x.c1, y.c0, y.c1, z.c0, z.c1] {
        u = u.fe(c.0);
    }
    G2Projective { x, y, z, d: u.to_fe("key_dlog", 0), raw: false, _p: Default::default() }
}
/// `steps` calls with up to `max` keys each; any of the keys may be equal to an earlier one
fn c12_body(steps: usize, max: usize, clear: bool) {
    let mut cache = PublicKeyCache::new();
    for step in 0..steps {
        if clear && step > 0 && bool(&num("clear", step)) {
            cache.clear_cache();
        }
        let n = choice(max + 1, &num("n", step));
        let keys: Vec<G2Projective> = (0..n).map(|i| any_key(&num(&num("key", step), i))).collect();
        for i in 0..n {
            for j in 0..i {
                assume(d2(&keys[i]) != d2(&keys[j]));
            }
        }
        c12_request(&mut cache, &keys);
    }
}

/// Requests for subsets of some distinct keys.
fn c12_pool_body(steps: usize, size: usize) {
    let mut cache = PublicKeyCache::new();
    let pool: Vec<G2Projective> = (0..size).map(|i| any_key(&num("key", i))).collect();
    for i in 0..size {
        for j in 0..i {
            assume(d2(&pool[i]) != d2(&pool[j]));
        }
    }
    for step in 0..steps {
        let subset = choice(1 << size, &num("subset", step));
        let keys: Vec<G2Projective> =
            pool.iter().enumerate().filter(|(i, _)| subset >> i & 1 == 1).map(|(_, k)| *k).collect();
        c12_request(&mut cache, &keys);
    }
}

fn c12_request(cache: &mut PublicKeyCache, keys: &[G2Projective]) {
    let mut want = Fr::zero();
    for k in keys {
        want += d2(k);
    }
    let r = cache.aggregate(keys.iter().map(|k| PublicKey::from(*k)).collect());
    check(d2(r.as_ref()) == want, "cached aggregate");
    check(d2(cache.combined.as_ref()) == want, "combined");
    reach("aggregated");
}

// ---------------------------------------------------------------- C13
fn c13_body(steps: usize, cap: usize, lens: &[usize]) {
    let mut cache = PublicKeyCache::new();
    if cap > 0 {
        cache.de.resize(cap);
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    for i in 0..steps {
        let op = choice(if i == 0 { 1 } else { 3 }, &num("op", i));
        if op == 1 {
            cache.clear_cache();
            continue;
        }
        let data = if op == 2 {
            // a string seen before (a new one may be equal to it, too)
            seen[choice(seen.len(), &num("again", i))].clone()
        } else {
            bytes_vec(lens[choice(lens.len(), &num("len", i))], &num("data", i))
        };
        seen.push(data.clone());
        let want = PublicKey::deserialize(&data[..]);
        let got = cache.deserialize(data);
        match (want, got) {
            (Ok(a), Ok(b)) => {
                check(d2(a.as_ref()) == d2(b.as_ref()), "cached key differs");
                reach("key");
            }
            (Err(_), Err(_)) => reach("malformed"),
            (Ok(_), Err(_)) => check(false, "cached deserialization fails"),
            (Err(_), Ok(_)) => check(false, "cached deserialization accepts what the uncached one rejects"),
        }
    }
}

// ---------------------------------------------------------------- C14
fn round<T: CanonicalSerialize + CanonicalDeserialize>(t: &T, same: impl Fn(&T) -> bool, size: usize, usize_: usize) {
    let mut v = vec![];
    check(t.serialize(&mut v).is_ok(), "serialize");
    check(v.len() == size, "bytes written");
    check(t.serialized_size() == size, "declared size");
    match T::deserialize(&v[..]) {
        Ok(x) => check(same(&x), "compressed round trip"),
        Err(_) => check(false, "own bytes rejected"),
    }
    let mut v = vec![];
    check(t.serialize_uncompressed(&mut v).is_ok(), "serialize uncompressed");
    check(v.len() == usize_, "bytes written, uncompressed");
    check(t.uncompressed_size() == usize_, "declared size, uncompressed");
    match T::deserialize_uncompressed(&v[..]) {
        Ok(x) => check(same(&x), "uncompressed round trip"),
        Err(_) => check(false, "own uncompressed bytes rejected"),
    }
    let mut v = vec![];
    check(t.serialize_unchecked(&mut v).is_ok(), "serialize unchecked");
    match T::deserialize_unchecked(&v[..]) {
        Ok(x) => check(same(&x), "unchecked round trip"),
        Err(_) => check(false, "own unchecked bytes rejected"),
    }
    reach("round trip");
}
fn c14_keys_body() {
    let sk = PrivateKey::from(fr("sk"));
    round(&sk, |x| *x.as_ref() == fr("sk"), 32, 32);
}
fn c14_points_body() {
    let pk = PublicKey::from(g2p("pk"));
    round(&pk, |x| d2(x.as_ref()) == fr("pk"), 96, 192);
    let s = Signature::from(g1p("s"));
    round(&s, |x| d1(x.as_ref()) == fr("s"), 48, 96);
}
/// what is accepted serializes back to itself; nothing panics
fn c14_bytes_body() {
    let n = pick(&[0, 1, 31, 32, 33, 47, 48, 49, 95, 96, 97, 191, 192, 193], "n");
    let b = bytes_vec(n, "b");
    fn back<T: CanonicalSerialize>(r: Result<T, SerializationError>, b: &[u8], n: usize, unc: bool, l: &str) {
        match r {
            Ok(x) => {
                check(b.len() >= n, "accepted a truncated string");
                let mut v = vec![];
                let _ = if unc { x.serialize_uncompressed(&mut v) } else { x.serialize(&mut v) };
                check(eq_bytes(&v, &b[..n.min(b.len())]), l);
                reach("accepted");
            }
            Err(_) => reach("rejected"),
        }
    }
    back(PrivateKey::deserialize(&b[..]), &b, 32, false, "secret key bytes");
    back(PublicKey::deserialize(&b[..]), &b, 96, false, "public key bytes");
    back(PublicKey::deserialize_uncompressed(&b[..]), &b, 192, true, "uncompressed public key bytes");
    back(Signature::deserialize(&b[..]), &b, 48, false, "signature bytes");
    back(Signature::deserialize_uncompressed(&b[..]), &b, 96, true, "uncompressed signature bytes");
}

// ---------------------------------------------------------------- C05
fn c05_all_body(bits: u32) {
    let n = u64("n", bits) as usize;
    let r = hash_length(n);
    check(r % 32 == 0, "whole blocks");
    check(r >= n, "covers the element");
    check(r < n + 32, "no block too many");
}
fn c05_elements_body() {
    for (n, want) in &[(G1Affine::zero().serialized_size(), 64), (ark::curves::bls12_377::G2Affine::zero().serialized_size(), 96)] {
        check(hash_length(*n) == *want, "element");
    }
    reach("element");
}

// ---------------------------------------------------------------- C06, C07
/// an arbitrary hash function, in its three parts; may fail. For strings that begin with a byte
/// outside a window, the candidates are no coordinates.
#[derive(Clone)]
struct U;
static mut WINDOW: (usize, usize) = (0, 256);
fn in_window(c: u8) -> bool {
    unsafe { WINDOW.0 <= c as usize && (c as usize) < WINDOW.1 }
}
fn ufb(d: &[u8], m: &[u8], len: usize) -> Uf {
    Uf::new().u64(d.len() as u64).bytes(d).u64(m.len() as u64).bytes(m).u64(len as u64)
}
fn part(name: &str, fail: &str, d: &[u8], m: &[u8], len: usize, out: usize) -> Result<Vec<u8>, BLSError> {
    if name != "crh" && !m.is_empty() && !in_window(m[0]) {
        return Ok(vec![0xff; out]);
    }
    if ufb(d, m, len).to_bool(fail) {
        return Err(BLSError::HashToCurveError);
    }
    Ok(ufb(d, m, len).to_bytes(name, out))
}
impl Hasher for U {
    type Error = BLSError;
    fn crh(&self, domain: &[u8], message: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        part("crh", "crh_fails", domain, message, len, 48)
    }
    fn xof(&self, domain: &[u8], hashed: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        part("xof", "xof_fails", domain, hashed, len, len)
    }
    fn hash(&self, domain: &[u8], message: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        part("whole", "hash_fails", domain, message, len, len)
    }
}
/// a hash function whose candidates are no coordinates and that notes what it is asked
#[derive(Clone)]
struct Noting;
static mut NOTES: Vec<(&'static str, Vec<u8>, Vec<u8>, usize)> = Vec::new();
fn noted(n: &'static str, d: &[u8], m: &[u8], len: usize) {
    #[allow(static_mut_refs)]
    unsafe {
        NOTES.push((n, d.to_vec(), m.to_vec(), len))
    }
}
impl Hasher for Noting {
    type Error = BLSError;
    fn crh(&self, domain: &[u8], message: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        noted("crh", domain, message, len);
        Ok(ufb(domain, message, len).to_bytes("crh", 48))
    }
    fn xof(&self, domain: &[u8], hashed: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        noted("xof", domain, hashed, len);
        Ok(vec![0xff; len])
    }
    fn hash(&self, domain: &[u8], message: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        noted("hash", domain, message, len);
        Ok(vec![0xff; len])
    }
}
fn c07_body<P: SWModelParameters<BaseField = F, ScalarField = Fr>, F: Field>(cip: bool, lens: &[usize]) {
    let domain = bytes_vec(pick(&[8, 3], "dlen"), "domain");
    let message = bytes_vec(pick(lens, "mlen"), "message");
    let extra = bytes_vec(pick(lens, "elen"), "extra");
    let len = (P::SIZE + 31) / 32 * 32;
    let r = if cip {
        TryAndIncrementCIP22::<Noting, P>::new(&Noting).hash_with_attempt_cip22(&domain, &message, &extra).map(|x| x.0)
    } else {
        TryAndIncrement::<Noting, P>::new(&Noting).hash_with_attempt(&domain, &message, &extra).map(|x| x.0)
    };
    check(r.is_err(), "no candidate is valid");
    #[allow(static_mut_refs)]
    let notes = unsafe { NOTES.clone() };
    let mut notes = &notes[..];
    let mut inner = message.clone();
    if cip {
        let n = notes[0].clone();
        check(n.0 == "crh", "compresses first");
        check(and(n.1.len() == domain.len(), eq_bytes(&n.1, &domain)), "domain of the inner hash");
        check(and(n.2.len() == message.len(), eq_bytes(&n.2, &message)), "the inner hash is of the message alone");
        check(n.3 == len, "length of the inner hash");
        inner = ufb(&domain, &message, len).to_bytes("crh", 48);
        notes = &notes[1..];
    }
    check(notes.len() == 255, "counters 0 to 254");
    for (c, n) in notes.iter().enumerate() {
        check(n.0 == if cip { "xof" } else { "hash" }, "part of the hash function");
        check(and(n.1.len() == domain.len(), eq_bytes(&n.1, &domain)), "domain");
        let want = [&[c as u8][..], &extra[..], &inner[..]].concat();
        check(and(n.2.len() == want.len(), eq_bytes(&n.2, &want)), "hashed string");
        check(n.3 == len, "requested length");
    }
    reach("strings");
}
/// what the candidate string decodes to: None, or the cofactor-cleared point
fn candidate<P: SWModelParameters<BaseField = F>, F: Field>(c: &[u8], n: usize, compat: bool) -> Option<GroupAffine<P>> {
    let mut b = c[..n].to_vec();
    if compat {
        // bit 1 of the last byte says which y; the other flag bits are not the hash's
        let s = (b[n - 1] >> 1) & 1;
        b[n - 1] = (b[n - 1] & 0x7f) | (s << 7);
    }
    let y_large = b[n - 1] >> 7 == 1;
    let inf = (b[n - 1] >> 6) & 1 == 1;
    b[n - 1] &= 0x01;
    let half = 48;
    let mut parts = vec![];
    for k in 0..n / half {
        let w = &mut b[half * k..half * k + half];
        w[half - 1] &= 0x01;
        // below the modulus
        let f = fe::from_bytes(1, w);
        if !eq_bytes(&fe::to_bytes(f, half), w) {
            return None;
        }
        parts.push(f);
    }
    let x = F::from_parts(&parts);
    if and(x.is_zero(), inf) {
        return Some(GroupAffine::zero());
    }
    GroupAffine::get_point_from_x(x, y_large)
}
const COMPAT: bool = true;
fn c06_body<P: SWModelParameters<BaseField = F, ScalarField = Fr>, F: Field>(cip: bool, first: usize, last: usize) {
    let domain = bytes::<8>("domain");
    let (ml, el) = [(3, 2), (0, 0)][choice(2, "lengths")];
    let message = bytes_vec(ml, "message");
    let extra = bytes_vec(el, "extra");
    let n = P::SIZE;
    let len = (n + 31) / 32 * 32;
    let string = |c: usize, inner: &[u8]| [&[c as u8][..], &extra[..], inner].concat();
    let inner = if cip { ufb(&domain, &message, len).to_bytes("crh", 48) } else { message.clone() };
    let (name, fail) = if cip { ("xof", "xof_fails") } else { ("whole", "hash_fails") };
    unsafe { WINDOW = (first, last) };
    let r = if cip {
        TryAndIncrementCIP22::<U, P>::new(&U).hash_with_attempt_cip22(&domain, &message, &extra)
    } else {
        TryAndIncrement::<U, P>::new(&U).hash_with_attempt(&domain, &message, &extra)
    };
    // the statement
    if cip && ufb(&domain, &message, len).to_bool("crh_fails") {
        check(r.is_err(), "a failing hash is reported");
        reach("hash error");
        return;
    }
    for c in first..last.min(255) {
        let s = string(c, &inner);
        if ufb(&domain, &s, len).to_bool(fail) {
            check(r.is_err(), "a failing hash is reported");
            reach("hash error");
            return;
        }
        let b = ufb(&domain, &s, len).to_bytes(name, len);
        if let Some(p) = candidate::<P, F>(&b, n, COMPAT) {
            let q = p.scale_by_cofactor();
            if q.is_zero() {
                continue;
            }
            match r {
                Ok((g, a)) => {
                    check(a == c, "counter of the first valid candidate");
                    check(fe::eq(g.d, q.d), "point of the first valid candidate");
                    check(!g.is_zero(), "zero point");
                    reach("hashed");
                }
                Err(_) => check(false, "a valid candidate is not returned"),
            }
            return;
        }
    }
    check(r.is_err(), "no candidate is valid");
    reach("no point");
}

// ---------------------------------------------------------------- C30
fn c30_body(lens: &[usize]) {
    use bls_crypto::hashers::composite::{CompositeHasher, COMPOSITE_HASHER, CRH};
    let ml = pick(lens, "mlen");
    let m = bytes_vec(ml, "message");
    let dl = choice(9, "dlen");
    let d = bytes_vec(dl, "domain");
    let fresh = bool("fresh");
    let h = if fresh { CompositeHasher::<CRH>::new().unwrap() } else { (*COMPOSITE_HASHER).clone() };
    let n = pick(&[0, 32, 48, 64, 96, 70], "len");
    let mut block = [0u8; 32];
    block[0] = 32;
    block[2] = 1;
    block[3] = 1;
    block[24..].copy_from_slice(b"UL_prngs");
    let key = blake2s_simd::digest(&block, false, &[0; 32], b"ULTRALIGHT PRNG SEED");
    let seed = Uf::new().bytes(&key[..32]).u64(0).to_bytes("seeded_rng", 32);
    let (x, _) = ark::crypto::crh::bowe_hopwood::value(&seed, (93, 560), &m);
    let want = fe::to_bytes(x.0, 48);
    match h.crh(&d, &m, n) {
        Ok(r) => check(eq_bytes(&r, &want), "CRH is not the x coordinate of the Pedersen hash"),
        Err(_) => check(false, "CRH fails"),
    }
    let x = match (h.xof(&d, &want, n), hashers::DirectHasher.xof(&d, &want, n)) {
        (Ok(a), Ok(b)) => {
            check(eq_bytes(&a, &b), "XOF is not the direct hasher's");
            b
        }
        (Err(_), Err(_)) => return,
        _ => {
            check(false, "XOF fails");
            return;
        }
    };
    {
        // and of any other input
        match (h.xof(&d, &m, n), hashers::DirectHasher.xof(&d, &m, n)) {
            (Ok(a), Ok(b)) => check(eq_bytes(&a, &b), "XOF is not the direct hasher's"),
            (Err(_), Err(_)) => {}
            _ => check(false, "XOF fails"),
        }
    }
    match h.hash(&d, &m, n) {
        Ok(a) => check(eq_bytes(&a, &x), "hash is not XOF of CRH"),
        Err(_) => check(false, "hash fails"),
    }
    reach("composite");
}

harnesses! {
    fn c05_all() { c05_all_body(50) }
    fn c05_elements() { c05_elements_body() }
    fn c06_g1_first() { c06_body::<g1::Parameters, Fq>(false, 0, 2) }
    fn c06_g1_middle() { c06_body::<g1::Parameters, Fq>(false, 127, 129) }
    fn c06_g1_last() { c06_body::<g1::Parameters, Fq>(false, 253, 256) }
    fn c06_cip_first() { c06_body::<g1::Parameters, Fq>(true, 0, 2) }
    fn c06_cip_middle() { c06_body::<g1::Parameters, Fq>(true, 127, 129) }
    fn c06_cip_last() { c06_body::<g1::Parameters, Fq>(true, 253, 256) }
    fn c06_g2_first() { c06_body::<ark::curves::bls12_377::g2::Parameters, ark::ff::Fq2>(false, 0, 2) }
    fn c06_g2_cip() { c06_body::<ark::curves::bls12_377::g2::Parameters, ark::ff::Fq2>(true, 0, 2) }
    fn c06_g1_deep() { c06_body::<g1::Parameters, Fq>(false, 0, 4) }
    fn c06_cip_deep() { c06_body::<g1::Parameters, Fq>(true, 0, 4) }
    fn c07_legacy() { c07_body::<g1::Parameters, Fq>(false, &[0, 1, 33, 97]) }
    fn c07_cip() { c07_body::<g1::Parameters, Fq>(true, &[0, 1, 33, 97]) }
    fn c07_legacy_g2() { c07_body::<ark::curves::bls12_377::g2::Parameters, ark::ff::Fq2>(false, &[0, 33]) }
    fn c07_cip_g2() { c07_body::<ark::curves::bls12_377::g2::Parameters, ark::ff::Fq2>(true, &[0, 33]) }
    fn c08_sign() { c08_sign_body(false) }
    fn c08_sign_pop() { c08_sign_body(true) }
    fn c08_verify() { c08_verify_body(false) }
    fn c08_verify_pop() { c08_verify_body(true) }
    fn c08_cross() { c08_cross_body() }
    fn c09_sums() { c09_sums_body() }
    fn c09_verify() { c09_verify_body() }
    fn c10_batch() { c10_batch_body(3, false) }
    fn c10_hashes() { c10_batch_body(5, true) }
    fn c11_strict() { c11_strict_body(&[1, 2, 3, 4], false) }
    fn c11_again() { c11_again_body() }
    fn c11_sizes() { c11_strict_body(&[5, 7, 8, 9, 16, 17, 32, 33], true) }
    fn c11_large() { c11_strict_body(&[64, 65, 128, 129, 256, 257], true) }
    fn c11_each() { c11_each_body() }
    fn c11_combine() { c11_combine_body() }
    fn c12_two() { c12_body(2, 2, true) }
    fn c12_pairs() { c12_body(2, 3, false) }
    fn c12_ones() { c12_body(4, 1, true) }
    fn c12_pool() { c12_pool_body(2, 3) }
    fn c12_pool_3() { c12_pool_body(3, 3) }
    fn c12_pool_4() { c12_pool_body(2, 4) }
    fn c12_three() { c12_body(3, 2, false) }
    fn c13_history() { c13_body(3, 0, &[96, 5]) }
    fn c13_small() { c13_body(3, 1, &[96]) }
    fn c13_deep() { c13_body(4, 0, &[96, 5]) }
    fn c13_small_deep() { c13_body(4, 1, &[96]) }
    fn c13_lengths() { c13_body(2, 0, &[0, 1, 95, 96, 97, 192]) }
    fn c14_keys() { c14_keys_body() }
    fn c14_points() { c14_points_body() }
    fn c14_bytes() { c14_bytes_body() }
    fn c30_composite() { c30_body(&[0, 1, 32, 65, 130]) }
}

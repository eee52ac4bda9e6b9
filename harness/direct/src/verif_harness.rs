//! C01, C02, C03: the direct hasher against BLAKE2Xs.
use crate::hashers::{DirectHasher, Hasher};
use crate::BLSError;
use symapi::*;

/// BLAKE2s of a message under a whole parameter block: the same uninterpreted function as in the
/// stand-in for blake2s_simd, or RFC 7693 natively.
#[cfg(not(feature = "native"))]
fn b2s(block: &[u8; 32], msg: &[u8]) -> Vec<u8> {
    blake2s_simd::digest(block, false, &[0; 32], msg)
}
#[cfg(feature = "native")]
fn b2s(block: &[u8; 32], msg: &[u8]) -> Vec<u8> {
    const IV: [u32; 8] = [
        0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    fn word(b: &[u8]) -> u32 {
        b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
    }
    assert!(block[1] == 0);
    let mut h = IV;
    for i in 0..8 {
        h[i] ^= word(&block[4 * i..]);
    }
    let blocks = if msg.is_empty() { 1 } else { (msg.len() + 63) / 64 };
    for k in 0..blocks {
        let mut m = [0u8; 64];
        let part = &msg[64 * k..msg.len().min(64 * k + 64)];
        m[..part.len()].copy_from_slice(part);
        let t = (64 * k + part.len()) as u64;
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if k + 1 == blocks {
            v[14] = !v[14];
        }
        for s in &SIGMA {
            for (i, q) in [
                [0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15],
                [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14],
            ].iter().enumerate() {
                let [a, b, c, d] = *q;
                let x = word(&m[4 * s[2 * i]..]);
                let y = word(&m[4 * s[2 * i + 1]..]);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(8);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(7);
            }
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = vec![];
    for w in &h {
        out.extend_from_slice(&w.to_le_bytes());
    }
    out.truncate(block[0] as usize);
    out.resize(32, 0);
    out
}

fn personal(b: &mut [u8; 32], domain: &[u8]) {
    for (i, x) in domain.iter().enumerate() {
        b[24 + i] = *x;
    }
}
/// CRH: sequential BLAKE2s with the XOF length in bits 32..47 of the node offset.
fn ref_crh(domain: &[u8], msg: &[u8], len: usize) -> Vec<u8> {
    let mut b = [0u8; 32];
    b[0] = 32; // digest length
    b[2] = 1; // fanout
    b[3] = 1; // depth
    b[12] = len as u8;
    b[13] = (len >> 8) as u8;
    personal(&mut b, domain);
    b2s(&b, msg)
}
/// Block i of BLAKE2Xs
fn ref_block(domain: &[u8], input: &[u8], len: usize, i: usize) -> Vec<u8> {
    let left = len - 32 * i;
    let mut b = [0u8; 32];
    b[0] = if left < 32 { left } else { 32 } as u8;
    b[4] = 32; // leaf length
    b[8] = i as u8;
    b[9] = (i >> 8) as u8;
    b[12] = len as u8;
    b[13] = (len >> 8) as u8;
    b[15] = 32; // inner length
    personal(&mut b, domain);
    let mut d = b2s(&b, input);
    d.truncate(b[0] as usize);
    d
}
fn check_xof(r: &[u8], domain: &[u8], input: &[u8], len: usize) {
    check(r.len() == len, "xof: length");
    let mut i = 0;
    while 32 * i < len {
        let want = ref_block(domain, input, len, i);
        check(eq_bytes(&r[32 * i..32 * i + want.len()], &want), "xof: block");
        i += 1;
    }
}

fn xof(domain: &[u8], input: &[u8], len: usize) {
    match DirectHasher.xof(domain, input, len) {
        Ok(r) => {
            reach("xof ok");
            check_xof(&r, domain, input, len)
        }
        Err(_) => check(false, "xof: error on a legal domain"),
    }
}
fn xof_lengths(lo: usize, n: usize) {
    let domain = bytes::<8>("domain");
    let input = bytes::<32>("input");
    let len = lo + choice(n, "len");
    xof(&domain, &input, len);
}
fn pick(v: &[usize], name: &str) -> usize {
    v[choice(v.len(), name)]
}
fn crh(domain: &[u8], msg: &[u8], len: usize) {
    match DirectHasher.crh(domain, msg, len) {
        Ok(r) => {
            reach("crh ok");
            check(r.len() == 32, "crh: length");
            check(eq_bytes(&r, &ref_crh(domain, msg, len)), "crh: value");
        }
        Err(_) => check(false, "crh: error on a legal domain"),
    }
}
fn is_too_large(e: &BLSError, n: usize) -> bool {
    match e {
        BLSError::DomainTooLarge(k) => *k == n,
        _ => false,
    }
}
fn no_panic(what: usize, domain: &[u8], msg: &[u8], len: usize) {
    let r = match what {
        0 => DirectHasher.crh(domain, msg, len),
        1 => DirectHasher.xof(domain, msg, len),
        _ => DirectHasher.hash(domain, msg, len),
    };
    match r {
        Ok(_) => {
            reach("value");
            check(domain.len() <= 8, "a domain of more than 8 bytes is accepted");
        }
        Err(e) => {
            reach("error");
            check(domain.len() > 8, "a domain of at most 8 bytes is refused");
            check(is_too_large(&e, domain.len()), "the error does not name the domain's length");
        }
    }
}

/// A hasher with arbitrary CRH and XOF, to decide the provided composition.
struct AnyHasher;
#[derive(Debug, PartialEq)]
struct Failed(u8);
impl Hasher for AnyHasher {
    type Error = Failed;
    fn crh(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, Failed> {
        note("crh", 1);
        if Uf::new().bytes(d).bytes(m).u64(n as u64).to_bool("crh fails") {
            return Err(Failed(1));
        }
        Ok(Uf::new().bytes(d).bytes(m).u64(n as u64).to_bytes("crh", 32))
    }
    fn xof(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, Failed> {
        note("xof", 1);
        if Uf::new().bytes(d).bytes(m).u64(n as u64).to_bool("xof fails") {
            return Err(Failed(2));
        }
        // of an arbitrary length, here a fixed one
        Ok(Uf::new().bytes(d).bytes(m).u64(n as u64).to_bytes("xof", 8))
    }
}

fn hash(domain: &[u8], msg: &[u8], len: usize) {
    let c = ref_crh(domain, msg, len);
    match DirectHasher.hash(domain, msg, len) {
        Ok(r) => {
            reach("hash ok");
            check_xof(&r, domain, &c, len)
        }
        Err(_) => check(false, "hash: error on a legal domain"),
    }
}

const LENS: &[usize] = &[0, 1, 2, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 128, 192, 256, 257, 512, 1024];

const LONG: &[usize] = &[191, 192, 193, 255, 256, 257, 300, 512, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 16385, 65535, 65536, 65537];
fn num(p: &str, i: usize) -> String {
    let mut s = String::from(p);
    s.push((b'0' + i as u8) as char);
    s
}

harnesses! {
    // C01: every output length of the range, any 8-byte domain, any 32-byte input
    fn c01_len_a() { xof_lengths(0, 256) }
    fn c01_len_b() { xof_lengths(256, 256) }
    fn c01_len_c() { xof_lengths(512, 256) }
    fn c01_len_d() { xof_lengths(768, 300) }
    fn c01_len_e() { xof_lengths(1068, 500) }
    fn c01_len_f() { xof_lengths(1568, 500) }
    fn c01_len_g() { xof_lengths(2068, 500) }
    fn c01_len_h() { xof_lengths(2568, 400) }
    fn c01_len_i() { xof_lengths(2968, 400) }
    fn c01_len_j() { xof_lengths(3368, 400) }
    fn c01_len_k() { xof_lengths(3768, 400) }
    fn c01_deep_a() { xof_lengths(4168, 1000) }
    fn c01_deep_b() { xof_lengths(5168, 1000) }
    fn c01_deep_c() { xof_lengths(6168, 1000) }
    fn c01_deep_d() { xof_lengths(7168, 1000) }
    fn c01_deep_e() { xof_lengths(8168, 800) }
    fn c01_deep_f() { xof_lengths(8968, 700) }
    // C01: the largest lengths, and those around the carries of the length and the block index
    fn c01_len_top() {
        let domain = bytes::<8>("domain");
        let input = bytes::<32>("input");
        let len = pick(&[65535, 65534, 65505, 65504, 65503, 32769, 32768, 32767, 16384, 8224, 8193, 8192, 8191, 4097, 4096], "len");
        xof(&domain, &input, len);
    }
    // C01: every domain length and several input lengths
    fn c01_shape() {
        let d = choice(9, "domain length");
        let domain = bytes_vec(d, "domain");
        let m = pick(&[0, 1, 31, 33, 64, 65, 128, 130], "input length");
        let input = bytes_vec(m, "input");
        let len = pick(&[0, 1, 32, 33, 64, 95, 96, 97], "len");
        xof(&domain, &input, len);
    }
    // C01: every input length up to 140
    fn c01_inputs() {
        let domain = bytes_vec(pick(&[0, 3, 8], "domain length"), "domain");
        let input = bytes_vec(choice(141, "input length"), "input");
        let len = pick(&[1, 48, 96, 300], "len");
        xof(&domain, &input, len);
    }
    fn c01_inputs_long() {
        let domain = bytes_vec(pick(&[2, 8], "domain length"), "domain");
        let n = if bool("range") { 141 + choice(160, "input length") } else { pick(LONG, "input length") };
        let input = bytes_vec(n, "input");
        let len = pick(&[48, 96], "len");
        xof(&domain, &input, len);
    }
    // C01: calls after other calls; the strings may be equal or not
    fn c01_twice() {
        for i in 0..2 {
            let domain = bytes_vec(pick(&[0, 8], &num("domain length", i)), &num("domain", i));
            let input = bytes_vec(pick(&[0, 32, 48], &num("input length", i)), &num("input", i));
            let len = pick(&[1, 32, 64, 96], &num("len", i));
            xof(&domain, &input, len);
        }
    }
    fn c01_thrice() {
        for i in 0..3 {
            let domain = bytes_vec(8, &num("domain", i));
            let input = bytes_vec(32, &num("input", i));
            let len = pick(&[32, 33, 96], &num("len", i));
            xof(&domain, &input, len);
        }
    }
    // C02: every output length at once (16 symbolic bits), every domain length, several messages
    fn c02_crh() {
        let d = choice(9, "domain length");
        let domain = bytes_vec(d, "domain");
        let m = choice(141, "message length");
        let msg = bytes_vec(m, "message");
        let len = u64("len", 16) as usize;
        crh(&domain, &msg, len);
    }
    fn c02_crh_long() {
        let domain = bytes::<8>("domain");
        let m = pick(LONG, "message length");
        let msg = bytes_vec(m, "message");
        let len = u64("len", 16) as usize;
        crh(&domain, &msg, len);
    }
    // C02: the whole hash is the XOF of the CRH
    fn c02_twice() {
        for i in 0..2 {
            let domain = bytes_vec(pick(&[0, 8], &num("domain length", i)), &num("domain", i));
            let msg = bytes_vec(pick(&[0, 2, 32], &num("message length", i)), &num("message", i));
            let len = pick(&[0, 64, 96], &num("len", i));
            match choice(3, &num("function", i)) {
                0 => crh(&domain, &msg, len),
                1 => xof(&domain, &msg, len),
                _ => hash(&domain, &msg, len),
            }
        }
    }
    fn c02_thrice() {
        for i in 0..3 {
            let domain = bytes_vec(8, &num("domain", i));
            let msg = bytes_vec(4, &num("message", i));
            let len = pick(&[64, 96], &num("len", i));
            if bool(&num("whole", i)) {
                hash(&domain, &msg, len)
            } else {
                crh(&domain, &msg, len)
            }
        }
    }
    fn c02_hash() {
        let d = choice(9, "domain length");
        let domain = bytes_vec(d, "domain");
        let m = pick(&[0, 1, 32, 63, 64, 65, 130], "message length");
        let msg = bytes_vec(m, "message");
        let len = pick(LENS, "len");
        hash(&domain, &msg, len);
    }
    fn c02_hash_lengths() {
        let domain = bytes::<8>("domain");
        let msg = bytes::<2>("message");
        let len = if bool("range") { choice(520, "len") } else { pick(&[640, 1000, 1023, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65503, 65504, 65505, 65534, 65535], "len") };
        hash(&domain, &msg, len);
    }
    fn c02_hash_messages() {
        let domain = bytes_vec(pick(&[0, 5, 8], "domain length"), "domain");
        let n = if bool("range") { choice(141, "message length") } else { pick(LONG, "message length") };
        let msg = bytes_vec(n, "message");
        let len = pick(&[1, 32, 64, 96], "len");
        hash(&domain, &msg, len);
    }
    // C02: the provided composition, for any CRH and XOF, errors included
    fn c02_compose() {
        let domain = bytes_vec(choice(12, "domain length"), "domain");
        let m = choice(141, "message length");
        let msg = bytes_vec(m, "message");
        let n = u64("len", 64) as usize;
        let got = AnyHasher.hash(&domain, &msg, n);
        let want = match AnyHasher.crh(&domain, &msg, n) {
            Err(e) => Err(e),
            Ok(c) => AnyHasher.xof(&domain, &c, n),
        };
        match (got, want) {
            (Ok(a), Ok(b)) => {
                reach("value");
                check(eq_bytes(&a, &b), "hash: not the XOF of the CRH")
            }
            (Err(a), Err(b)) => {
                reach("error");
                check(a == b, "hash: another error")
            }
            _ => check(false, "hash: succeeds or fails differently from XOF of CRH"),
        }
    }
    // C03
    fn c03_domains() {
        let what = choice(3, "function");
        let d = choice(48, "domain length");
        let domain = bytes_vec(d, "domain");
        let m = pick(&[0, 1, 32, 65], "message length");
        let msg = bytes_vec(m, "message");
        let len = pick(&[0, 1, 31, 32, 33, 64, 96], "len");
        no_panic(what, &domain, &msg, len);
    }
    fn c03_long_domains() {
        let what = choice(3, "function");
        let d = pick(&[63, 64, 65, 127, 255, 256, 257, 264, 300, 512, 520, 1000, 65536, 65540], "domain length");
        let domain = bytes_vec(d, "domain");
        let msg = bytes::<4>("message");
        let len = pick(&[0, 33, 96], "len");
        no_panic(what, &domain, &msg, len);
    }
    fn c03_lengths() {
        let what = choice(3, "function");
        let d = pick(&[0, 5, 8, 9], "domain length");
        let domain = bytes_vec(d, "domain");
        let msg = bytes::<4>("message");
        let len = choice(330, "len");
        no_panic(what, &domain, &msg, len);
    }
    fn c03_twice() {
        for i in 0..2 {
            let what = choice(3, &num("function", i));
            let domain = bytes_vec(pick(&[0, 8, 9, 16, 40], &num("domain length", i)), &num("domain", i));
            let msg = bytes_vec(pick(&[0, 4], &num("message length", i)), &num("message", i));
            no_panic(what, &domain, &msg, pick(&[0, 33, 96], &num("len", i)));
        }
    }
    fn c03_messages() {
        let what = choice(3, "function");
        let domain = bytes_vec(pick(&[8, 9], "domain length"), "domain");
        let n = if bool("range") { choice(300, "message length") } else { pick(LONG, "message length") };
        let msg = bytes_vec(n, "message");
        no_panic(what, &domain, &msg, pick(&[0, 96], "len"));
    }
    fn c03_top_lengths() {
        let what = choice(3, "function");
        let domain = bytes::<8>("domain");
        let msg = bytes::<4>("message");
        let len = pick(&[65535, 65505, 65504, 32768, 32767, 8192, 4096], "len");
        no_panic(what, &domain, &msg, len);
    }
}

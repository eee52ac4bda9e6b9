//! Prime-field arithmetic on 384-bit residues (Montgomery form), used for the coefficients of the
//! polynomial terms and for the values of field variables in models.
//! The same file is compiled into the native replay runtime.
#![allow(dead_code)]

pub const L: usize = 6;
pub type U = [u64; L];
pub const ZERO: U = [0; L];

pub fn cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..L).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn add_carry(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..L {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (r, c != 0)
}
pub fn sub_borrow(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0i128;
    for i in 0..L {
        let t = a[i] as i128 - b[i] as i128 + c;
        r[i] = t as u64;
        c = if t < 0 { -1 } else { 0 };
    }
    (r, c != 0)
}
pub fn bit(a: &U, i: usize) -> bool {
    i < 64 * L && (a[i / 64] >> (i % 64)) & 1 == 1
}
pub fn shl1(a: &U) -> U {
    let mut r = ZERO;
    let mut c = 0;
    for i in 0..L {
        r[i] = (a[i] << 1) | c;
        c = a[i] >> 63;
    }
    r
}
pub fn shr1(a: &U) -> U {
    let mut r = ZERO;
    for i in 0..L {
        r[i] = a[i] >> 1 | if i + 1 < L { a[i + 1] << 63 } else { 0 };
    }
    r
}
pub fn from_dec(s: &str) -> U {
    let mut r = ZERO;
    for ch in s.bytes() {
        let mut c = (ch - b'0') as u128;
        for l in r.iter_mut() {
            let t = *l as u128 * 10 + c;
            *l = t as u64;
            c = t >> 64;
        }
    }
    r
}
pub fn from_hex(s: &str) -> U {
    let mut r = ZERO;
    for ch in s.bytes() {
        let d = (ch as char).to_digit(16).unwrap() as u64;
        let mut c = d;
        for l in r.iter_mut() {
            let t = (*l << 4) | c;
            c = *l >> 60;
            *l = t;
        }
    }
    r
}
pub fn to_hex(a: &U) -> String {
    let mut s = String::new();
    for l in a.iter().rev() {
        s.push_str(&format!("{:016x}", l));
    }
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub p: U,
    pub bits: usize,
    pub r2: U,
    pub one: U,
    pub inv: u64,
    known: std::rc::Rc<std::cell::RefCell<std::collections::HashMap<U, U>>>,
}

impl Field {
    pub fn new(name: &'static str, p: U) -> Field {
        let mut bits = 0;
        for i in 0..64 * L {
            if bit(&p, i) {
                bits = i + 1;
            }
        }
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(inv)));
        }
        let inv = inv.wrapping_neg();
        let mut f = Field { name, p, bits, r2: ZERO, one: ZERO, inv, known: Default::default() };
        // R mod p and R^2 mod p by doubling
        let mut x = ZERO;
        x[0] = 1;
        for i in 0..2 * 64 * L {
            if i == 64 * L {
                f.one = x;
            }
            x = f.add(&x, &x);
        }
        f.r2 = x;
        f
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (r, _) = add_carry(a, b);
        let (s, bo) = sub_borrow(&r, &self.p);
        if bo { r } else { s }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (r, bo) = sub_borrow(a, b);
        if bo { add_carry(&r, &self.p).0 } else { r }
    }
    pub fn neg(&self, a: &U) -> U {
        self.sub(&ZERO, a)
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; L + 2];
        for i in 0..L {
            let mut c = 0u128;
            for j in 0..L {
                let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                t[j] = x as u64;
                c = x >> 64;
            }
            let x = t[L] as u128 + c;
            t[L] = x as u64;
            t[L + 1] = (x >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..L {
                let x = t[j] as u128 + m as u128 * self.p[j] as u128 + c;
                t[j - 1] = x as u64;
                c = x >> 64;
            }
            let x = t[L] as u128 + c;
            t[L - 1] = x as u64;
            t[L] = t[L + 1] + (x >> 64) as u64;
        }
        let mut r = ZERO;
        r.copy_from_slice(&t[..L]);
        let (s, bo) = sub_borrow(&r, &self.p);
        if bo && t[L] == 0 { r } else { s }
    }
    /// plain integer < 2^384 (any) -> Montgomery residue
    pub fn enc(&self, a: &U) -> U {
        let mut a = *a;
        while cmp(&a, &self.p) != std::cmp::Ordering::Less {
            // reduce by long subtraction of shifted p
            let mut s = self.p;
            loop {
                if bit(&s, 64 * L - 1) { break; }
                let d = shl1(&s);
                if cmp(&d, &a) == std::cmp::Ordering::Greater { break; }
                s = d;
            }
            a = sub_borrow(&a, &s).0;
        }
        self.mul(&a, &self.r2)
    }
    pub fn enc_u64(&self, v: u64) -> U {
        let mut a = ZERO;
        a[0] = v;
        self.enc(&a)
    }
    pub fn dec(&self, a: &U) -> U {
        let mut o = ZERO;
        o[0] = 1;
        self.mul(a, &o)
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = self.one;
        for i in (0..64 * L).rev() {
            r = self.mul(&r, &r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inverse(&self, a: &U) -> U {
        if *a == self.one || *a == self.neg(&self.one) {
            return *a;
        }
        if let Some(r) = self.known.borrow().get(a) {
            return *r;
        }
        let r = self.invert(a);
        let mut k = self.known.borrow_mut();
        if k.len() > 100_000 {
            k.clear();
        }
        k.insert(*a, r);
        r
    }
    fn invert(&self, a: &U) -> U {
        let mut two = ZERO;
        two[0] = 2;
        let (e, _) = sub_borrow(&self.p, &two);
        self.pow(a, &e)
    }
    /// residue reduced from 48 pseudo-random bytes
    pub fn random(&self, rng: &mut Rng) -> U {
        let mut a = ZERO;
        for l in a.iter_mut() {
            *l = rng.next();
        }
        // clear the high bits
        for i in (0..64 * L).rev() {
            if i < self.bits { break; }
            a[i / 64] &= !(1u64 << (i % 64));
        }
        if cmp(&a, &self.p) != std::cmp::Ordering::Less {
            a = sub_borrow(&a, &self.p).0;
        }
        a // uniform enough; already a residue, Montgomery or not
    }
}

pub const FR: usize = 0; // BLS12-377 scalar field (group exponents)
pub const FQ: usize = 1; // BLS12-377 base field = BW6-761 scalar field

pub fn fields() -> Vec<Field> {
    vec![
        Field::new("Fr", from_dec("8444461749428370424248824938781546531375899335154063827935233455917409239041")),
        Field::new("Fq", from_dec("258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177")),
    ]
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

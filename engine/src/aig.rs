//! And/Xor-inverter graph with structural hashing; every symbolic bit is a literal of it.
use std::collections::HashMap;

pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;
#[inline]
pub fn neg(a: Lit) -> Lit {
    a ^ 1
}
#[inline]
pub fn node(a: Lit) -> u32 {
    a >> 1
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Input,
    And,
    Xor,
}

#[derive(Clone, Debug)]
pub enum Input {
    /// bit `1` of the named harness input (name index into `names`)
    Var(u32, u32),
    /// truth value of an equality of field terms (index into Fp::eqs)
    FpEq(u32),
    /// result bit of an application of an uninterpreted function
    Uf(u32, u32),
    /// bit of an SMT-LIB extension term (floating point)
    Ext(u32, u32),
    /// bit of the canonical representative of a field term
    FpBit(u32, u32),
}

/// without leading zeros
fn trim(a: &[Lit]) -> &[Lit] {
    &a[..a.len() - a.iter().rev().take_while(|l| **l == F).count()]
}

pub struct Aig {
    pub kind: Vec<Kind>,
    pub a: Vec<Lit>,
    pub b: Vec<Lit>,
    hash: HashMap<(bool, Lit, Lit), u32, FxB>,
    pub inputs: HashMap<u32, Input, FxB>,
    /// upper bounds of sums, by their bits without leading zeros
    most: HashMap<Vec<Lit>, u64, FxB>,
    /// the summands of sums that cannot overflow, all without leading zeros
    sums: HashMap<Vec<Lit>, (Vec<Lit>, Vec<Lit>), FxB>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

impl Aig {
    pub fn new() -> Aig {
        Aig { kind: vec![Kind::Const], a: vec![0], b: vec![0], hash: HashMap::default(), inputs: HashMap::default(), most: HashMap::default(), sums: HashMap::default() }
    }
    pub fn len(&self) -> usize {
        self.kind.len()
    }
    pub fn input(&mut self, i: Input) -> Lit {
        let n = self.kind.len() as u32;
        self.kind.push(Kind::Input);
        self.a.push(0);
        self.b.push(0);
        self.inputs.insert(n, i);
        n << 1
    }
    fn mk(&mut self, xor: bool, a: Lit, b: Lit) -> u32 {
        if let Some(n) = self.hash.get(&(xor, a, b)) {
            return *n;
        }
        let n = self.kind.len() as u32;
        self.kind.push(if xor { Kind::Xor } else { Kind::And });
        self.a.push(a);
        self.b.push(b);
        self.hash.insert((xor, a, b), n);
        n
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == b {
            return a;
        }
        if a == neg(b) || a == F || b == F {
            return F;
        }
        if a == T {
            return b;
        }
        if b == T {
            return a;
        }
        // two-level rules
        for (x, y) in [(a, b), (b, a)] {
            let n = node(x) as usize;
            if self.kind[n] == Kind::And {
                let (p, q) = (self.a[n], self.b[n]);
                if x & 1 == 0 {
                    if p == y || q == y {
                        return x;
                    }
                    if p == neg(y) || q == neg(y) {
                        return F;
                    }
                    let m = node(y) as usize;
                    if self.kind[m] == Kind::And {
                        let (r, s) = (self.a[m], self.b[m]);
                        if y & 1 == 0 && (p == neg(r) || p == neg(s) || q == neg(r) || q == neg(s)) {
                            return F;
                        }
                        if y & 1 == 1 && (p == neg(r) || p == neg(s) || q == neg(r) || q == neg(s)) {
                            return x;
                        }
                        if y & 1 == 1 && (p == r || q == r) {
                            return self.and(x, neg(s));
                        }
                        if y & 1 == 1 && (p == s || q == s) {
                            return self.and(x, neg(r));
                        }
                    }
                } else {
                    if p == neg(y) || q == neg(y) {
                        return y;
                    }
                    if p == y {
                        return self.and(y, neg(q));
                    }
                    if q == y {
                        return self.and(y, neg(p));
                    }
                    let m = node(y) as usize;
                    if y & 1 == 1 && self.kind[m] == Kind::And {
                        // !(p&q) & !(r&s) with p==r, q==!s  ->  !p
                        let (r, s) = (self.a[m], self.b[m]);
                        if (p == r && q == neg(s)) || (p == s && q == neg(r)) {
                            return neg(p);
                        }
                        if (q == r && p == neg(s)) || (q == s && p == neg(r)) {
                            return neg(q);
                        }
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(false, a, b) << 1
    }
    /// for debugging
    pub fn show(&self, l: Lit, d: u32) -> String {
        let n = node(l) as usize;
        let s = if l & 1 == 1 { "!" } else { "" };
        match self.kind[n] {
            Kind::Const => if l == T { "1".into() } else { "0".into() },
            Kind::Input => format!("{}i{}", s, n),
            _ if d == 0 => format!("{}n{}", s, n),
            Kind::And => format!("{}({} & {})", s, self.show(self.a[n], d - 1), self.show(self.b[n], d - 1)),
            Kind::Xor => format!("{}({} ^ {})", s, self.show(self.a[n], d - 1), self.show(self.b[n], d - 1)),
            _ => format!("{}e{}", s, n),
        }
    }
    /// literals whose conjunction is l
    pub fn conjuncts(&self, l: Lit) -> Vec<Lit> {
        let mut seen: FxSet<Lit> = Default::default();
        let mut todo = vec![l];
        let mut r = vec![];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = node(x) as usize;
            if x & 1 == 0 && self.kind[n] == Kind::And {
                todo.push(self.a[n]);
                todo.push(self.b[n]);
            } else {
                r.push(x);
            }
        }
        r
    }
    /// l where the literals of `known` hold
    pub fn under(&mut self, known: &FxSet<Lit>, l: Lit, memo: &mut FxMap<u32, Lit>) -> Lit {
        if l <= 1 {
            return l;
        }
        let n = node(l);
        let s = l & 1;
        if known.contains(&(n << 1)) {
            return T ^ s;
        }
        if known.contains(&((n << 1) | 1)) {
            return F ^ s;
        }
        if let Some(r) = memo.get(&n) {
            return *r ^ s;
        }
        // beyond some size the rest is left as it is
        if self.kind[n as usize] == Kind::Input || self.kind[n as usize] == Kind::Const || memo.len() > 20_000 {
            return l;
        }
        let (a, b) = (self.a[n as usize], self.b[n as usize]);
        let (x, y) = (self.under(known, a, memo), self.under(known, b, memo));
        let r = if x == a && y == b {
            n << 1
        } else if self.kind[n as usize] == Kind::Xor {
            self.xor(x, y)
        } else {
            self.and(x, y)
        };
        memo.insert(n, r);
        r ^ s
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return F ^ s;
        }
        if a == F {
            return b ^ s;
        }
        if b == F {
            return a ^ s;
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = node(x) as usize;
            if self.kind[n] == Kind::Xor {
                if self.a[n] == y {
                    return self.b[n] ^ s;
                }
                if self.b[n] == y {
                    return self.a[n] ^ s;
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        (self.mk(true, a, b) << 1) ^ s
    }
    pub fn iff(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.xor(a, b))
    }
    pub fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == neg(b) {
            return neg(self.xor(c, a));
        }
        if c == a {
            return self.or(c, b);
        }
        if c == neg(a) {
            return self.and(neg(c), b);
        }
        if c == b {
            return self.and(c, a);
        }
        if c == neg(b) {
            return self.or(neg(c), a);
        }
        let x = self.and(c, a);
        let y = self.and(neg(c), b);
        self.or(x, y)
    }
    pub fn and_all(&mut self, v: &[Lit]) -> Lit {
        match v.len() {
            0 => T,
            1 => v[0],
            n => {
                let (x, y) = v.split_at(n / 2);
                let p = self.and_all(x);
                if p == F {
                    return F;
                }
                let q = self.and_all(y);
                self.and(p, q)
            }
        }
    }
    pub fn or_all(&mut self, v: &[Lit]) -> Lit {
        let w: Vec<Lit> = v.iter().map(|l| neg(*l)).collect();
        neg(self.and_all(&w))
    }
    // ---- bit vectors, least significant bit first
    pub fn eq(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        debug_assert_eq!(a.len(), b.len());
        let mut v = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let l = self.iff(a[i], b[i]);
            if l == F {
                return F;
            }
            if l != T {
                v.push(l);
            }
        }
        self.and_all(&v)
    }
    pub fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut r = F;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.mux(x, b[i], r);
        }
        r
    }
    pub fn slt(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let n = a.len();
        let mut x = a.to_vec();
        let mut y = b.to_vec();
        x[n - 1] = neg(x[n - 1]);
        y[n - 1] = neg(y[n - 1]);
        self.ult(&x, &y)
    }
    /// an upper bound of the number these bits stand for, if it is below 2^62
    fn bound(&self, a: &[Lit]) -> Option<u64> {
        let n = a.len() - a.iter().rev().take_while(|l| **l == F).count();
        if n > 62 {
            return None;
        }
        let m = a[..n].iter().enumerate().filter(|(_, l)| **l != F).map(|(i, _)| 1u64 << i).sum();
        Some(self.most.get(&a[..n]).copied().unwrap_or(m).min(m))
    }
    pub fn adc(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let n = a.len();
        if let (F, Some(x), Some(y)) = (c, self.bound(a), self.bound(b)) {
            let k = (64 - (x + y).leading_zeros()) as usize;
            if k <= n {
                let (mut r, _) = self.ripple(&a[..k], &b[..k], F);
                let j = k - r.iter().rev().take_while(|l| **l == F).count();
                if r.iter().any(|l| *l > T) {
                    self.most.insert(r[..j].to_vec(), x + y);
                    self.sums.insert(r[..j].to_vec(), (trim(a).to_vec(), trim(b).to_vec()));
                }
                r.resize(n, F);
                return (r, F);
            }
        }
        let (r, d) = self.ripple(a, b, c);
        c = d;
        (r, c)
    }
    fn ripple(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            c = self.mux(x, c, a[i]);
        }
        (r, c)
    }
    pub fn add(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        self.adc(a, b, F).0
    }
    pub fn not(&self, a: &[Lit]) -> Vec<Lit> {
        a.iter().map(|x| neg(*x)).collect()
    }
    pub fn sub(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let n = self.not(b);
        self.adc(a, &n, T).0
    }
    pub fn mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        // use as multiplier the operand with fewer non-zero bits
        let nz = |v: &[Lit]| v.iter().filter(|l| **l != F).count();
        let (a, b) = if nz(a) < nz(b) { (b, a) } else { (a, b) };
        let mut r = vec![F; n];
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let mut t = Vec::with_capacity(n - i);
            for j in 0..n - i {
                t.push(self.and(a[j], b[i]));
            }
            let s = self.add(&r[i..].to_vec(), &t);
            r[i..].copy_from_slice(&s);
        }
        r
    }
    pub fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        // c ? x + k : x is x + (c ? k : 0): counters keep being sums
        for (c, p, q) in [(c, a, b), (neg(c), b, a)] {
            if let Some((x, y)) = self.sums.get(trim(p)) {
                let t = trim(q);
                let k = if x[..] == *t { y.clone() } else if y[..] == *t { x.clone() } else { continue };
                let mut k: Vec<Lit> = k.into_iter().map(|l| self.and(c, l)).collect();
                k.resize(q.len(), F);
                return self.add(q, &k);
            }
        }
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }
    pub fn udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let n = a.len();
        let mut rem = vec![F; n + 1];
        let mut q = vec![F; n];
        let mut bb = b.to_vec();
        bb.push(F);
        for i in (0..n).rev() {
            rem.pop();
            rem.insert(0, a[i]);
            let lt = self.ult(&rem, &bb);
            let d = self.sub(&rem, &bb);
            rem = self.muxv(lt, &rem.clone(), &d);
            q[i] = neg(lt);
        }
        rem.pop();
        (q, rem)
    }
    pub fn sdivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let n = a.len();
        let (sa, sb) = (a[n - 1], b[n - 1]);
        let z = vec![F; n];
        let na = self.sub(&z, a);
        let nb = self.sub(&z, b);
        let ua = self.muxv(sa, &na, a);
        let ub = self.muxv(sb, &nb, b);
        let (q, r) = self.udivrem(&ua, &ub);
        let s = self.xor(sa, sb);
        let nq = self.sub(&z, &q);
        let nr = self.sub(&z, &r);
        (self.muxv(s, &nq, &q), self.muxv(sa, &nr, &r))
    }
    /// kind: 0 shl, 1 lshr, 2 ashr. Shifts >= width give poison in LLVM; here zero / sign.
    pub fn shift(&mut self, k: u8, a: &[Lit], s: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        let fill = if k == 2 { a[n - 1] } else { F };
        let mut r = a.to_vec();
        let mut over = F;
        for (i, sl) in s.iter().enumerate() {
            if *sl == F {
                continue;
            }
            if i >= 31 || (1usize << i) >= n {
                over = self.or(over, *sl);
                continue;
            }
            let d = 1usize << i;
            let mut t = Vec::with_capacity(n);
            for j in 0..n {
                let src = if k == 0 {
                    if j >= d { r[j - d] } else { F }
                } else if j + d < n {
                    r[j + d]
                } else {
                    fill
                };
                t.push(src);
            }
            r = self.muxv(*sl, &t, &r.clone());
        }
        let fv = vec![fill; n];
        self.muxv(over, &fv, &r)
    }
    pub fn popcount(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        let mut r = vec![F; n];
        for l in a {
            let mut one = vec![F; n];
            one[0] = *l;
            r = self.add(&r, &one);
        }
        r
    }
    /// number of leading (from the top) or trailing zeros
    pub fn count_zeros(&mut self, a: &[Lit], leading: bool) -> Vec<Lit> {
        let n = a.len();
        let cst = |v: usize| -> Vec<Lit> { (0..n).map(|i| if i < 63 && (v >> i) & 1 == 1 { T } else { F }).collect() };
        let mut r = cst(n);
        // process from the far end so that the nearest set bit wins
        for k in (0..n).rev() {
            let idx = if leading { n - 1 - k } else { k };
            let c = cst(k);
            r = self.muxv(a[idx], &c, &r.clone());
        }
        r
    }
}

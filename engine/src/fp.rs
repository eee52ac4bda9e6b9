//! Field terms: polynomials over atoms (variables, AIG booleans, uninterpreted functions), and the
//! registry of theory atoms (equalities, bits, function applications).
use crate::aig::*;
use crate::big::{self, Field, U};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type TermId = u32;
pub type Mono = Vec<u32>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(usize, String),
    Bool(Lit),
    Uf(u32), // application index
    Inv(TermId),
    /// the number with these bits, many of them symbolic
    Comp(usize, Rc<Vec<Lit>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub f: usize,
    pub t: Vec<(Mono, U)>, // sorted by monomial, coefficients non-zero (Montgomery)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Arg {
    Bits(Vec<Lit>),
    Term(TermId),
}
#[derive(Clone, Debug)]
pub enum Res {
    Bits(Vec<Lit>),
    Field(u32, usize), // atom, field
}
#[derive(Clone, Debug)]
pub struct App {
    pub uf: u32,
    pub args: Vec<Arg>,
    pub res: Res,
}

pub struct Fp {
    pub fields: Vec<Field>,
    pub atoms: Vec<Atom>,
    atomidx: HashMap<Atom, u32>,
    pub terms: Vec<Poly>,
    termidx: HashMap<Poly, TermId>,
    /// FpEq atoms: polynomial (as term) that is compared with zero
    pub eqs: Vec<TermId>,
    eqidx: HashMap<TermId, Lit>,
    pub products: HashMap<TermId, (TermId, TermId)>,
    pub ufnames: Vec<String>,
    ufidx: HashMap<String, u32>,
    pub apps: Vec<App>,
    appidx: HashMap<(u32, Vec<Arg>, usize), u32>,
    pub apps_of: HashMap<u32, Vec<u32>>,
    pub bits: HashMap<TermId, Rc<(Vec<Lit>, Vec<Lit>)>>, // term -> (bits, axioms)
    pub pb: HashMap<TermId, Lit>,
    pows: HashMap<usize, BTreeMap<U, i64>>,
    pub ack: HashMap<(u32, u32), Lit>,
    /// for a composed atom: that it equals the sum of its bits, and that it is zero
    pub comp: HashMap<u32, (Lit, Lit)>,
    /// what holds of an atom everywhere
    pub defs: HashMap<u32, Lit>,
}

impl Fp {
    pub fn new() -> Fp {
        Fp {
            fields: big::fields(),
            atoms: vec![],
            atomidx: Default::default(),
            terms: vec![],
            termidx: Default::default(),
            eqs: vec![],
            eqidx: Default::default(),
            products: Default::default(),
            ufnames: vec![],
            ufidx: Default::default(),
            apps: vec![],
            appidx: Default::default(),
            apps_of: Default::default(),
            bits: Default::default(),
            pb: Default::default(),
            pows: Default::default(),
            ack: Default::default(),
            comp: Default::default(),
            defs: Default::default(),
        }
    }
    pub fn intern(&mut self, p: Poly) -> TermId {
        if let Some(i) = self.termidx.get(&p) {
            return *i;
        }
        let i = self.terms.len() as TermId;
        self.terms.push(p.clone());
        self.termidx.insert(p, i);
        i
    }
    pub fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atomidx.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atomidx.insert(a, i);
        i
    }
    pub fn is_bool(&self, a: u32) -> bool {
        matches!(self.atoms[a as usize], Atom::Bool(_))
    }
    pub fn norm(&self, f: usize, m: BTreeMap<Mono, U>) -> Poly {
        Poly { f, t: m.into_iter().filter(|(_, c)| *c != big::ZERO).collect() }
    }
    pub fn cst(&mut self, f: usize, v: &U) -> TermId {
        let c = self.fields[f].enc(v);
        let t = if c == big::ZERO { vec![] } else { vec![(vec![], c)] };
        self.intern(Poly { f, t })
    }
    pub fn zero(&mut self, f: usize) -> TermId {
        self.cst(f, &big::ZERO)
    }
    pub fn as_const(&self, t: TermId) -> Option<U> {
        let p = &self.terms[t as usize];
        match p.t.len() {
            0 => Some(big::ZERO),
            1 if p.t[0].0.is_empty() => Some(self.fields[p.f].dec(&p.t[0].1)),
            _ => None,
        }
    }
    pub fn from_atom(&mut self, f: usize, a: u32) -> TermId {
        let one = self.fields[f].one;
        self.intern(Poly { f, t: vec![(vec![a], one)] })
    }
    pub fn var(&mut self, f: usize, name: &str) -> TermId {
        let a = self.atom(Atom::Var(f, name.to_string()));
        self.from_atom(f, a)
    }
    pub fn from_lit(&mut self, f: usize, l: Lit) -> TermId {
        let one = self.fields[f].one;
        if l == F {
            return self.zero(f);
        }
        if l == T {
            return self.intern(Poly { f, t: vec![(vec![], one)] });
        }
        let a = self.atom(Atom::Bool(l & !1));
        let b = self.from_atom(f, a);
        if l & 1 == 0 {
            b
        } else {
            let o = self.intern(Poly { f, t: vec![(vec![], one)] });
            self.sub(o, b)
        }
    }
    pub fn lin(&mut self, a: TermId, b: TermId, neg: bool) -> TermId {
        let p = &self.terms[a as usize];
        let q = &self.terms[b as usize];
        assert_eq!(p.f, q.f, "field mismatch");
        let fl = &self.fields[p.f];
        let mut r: Vec<(Mono, U)> = Vec::with_capacity(p.t.len() + q.t.len());
        let (mut i, mut j) = (0, 0);
        while i < p.t.len() || j < q.t.len() {
            let ord = if i == p.t.len() {
                std::cmp::Ordering::Greater
            } else if j == q.t.len() {
                std::cmp::Ordering::Less
            } else {
                p.t[i].0.cmp(&q.t[j].0)
            };
            match ord {
                std::cmp::Ordering::Less => {
                    r.push(p.t[i].clone());
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    let c = if neg { fl.neg(&q.t[j].1) } else { q.t[j].1 };
                    r.push((q.t[j].0.clone(), c));
                    j += 1;
                }
                std::cmp::Ordering::Equal => {
                    let c = if neg { fl.sub(&p.t[i].1, &q.t[j].1) } else { fl.add(&p.t[i].1, &q.t[j].1) };
                    if c != big::ZERO {
                        r.push((p.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        let f = p.f;
        self.intern(Poly { f, t: r })
    }
    pub fn add(&mut self, a: TermId, b: TermId) -> TermId {
        self.lin(a, b, false)
    }
    pub fn sub(&mut self, a: TermId, b: TermId) -> TermId {
        self.lin(a, b, true)
    }
    pub fn mono_mul(&self, a: &Mono, b: &Mono) -> Mono {
        let mut m: Mono = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            let x = if j == b.len() || (i < a.len() && a[i] <= b[j]) {
                i += 1;
                a[i - 1]
            } else {
                j += 1;
                b[j - 1]
            };
            if m.last() == Some(&x) && self.is_bool(x) {
                continue;
            }
            m.push(x);
        }
        m
    }
    pub fn mul(&mut self, a: TermId, b: TermId) -> TermId {
        let (ca, cb) = (self.as_const(a).is_some(), self.as_const(b).is_some());
        let p = self.terms[a as usize].clone();
        let q = self.terms[b as usize].clone();
        assert_eq!(p.f, q.f, "field mismatch");
        let mut m: BTreeMap<Mono, U> = BTreeMap::new();
        let fl = self.fields[p.f].clone();
        for (x, c) in &p.t {
            for (y, d) in &q.t {
                let k = self.mono_mul(x, y);
                let v = fl.mul(c, d);
                let e = m.entry(k).or_insert(big::ZERO);
                *e = fl.add(e, &v);
            }
        }
        let n = self.norm(p.f, m);
        let r = self.intern(n);
        if !ca && !cb {
            let k = self.monic(r);
            self.products.entry(k).or_insert((a, b));
        }
        r
    }
    /// the multiple of a term with leading coefficient one
    pub fn monic(&mut self, t: TermId) -> TermId {
        let p = &self.terms[t as usize];
        match p.t.last() {
            None => t,
            Some((_, lead)) if *lead == self.fields[p.f].one => t,
            Some((_, lead)) => {
                let iv = self.fields[p.f].inverse(lead);
                self.scale(t, &iv)
            }
        }
    }
    pub fn scale(&mut self, a: TermId, c: &U) -> TermId {
        let mut p = self.terms[a as usize].clone();
        for t in p.t.iter_mut() {
            t.1 = self.fields[p.f].mul(&t.1, c);
        }
        p.t.retain(|t| t.1 != big::ZERO);
        self.intern(p)
    }
    pub fn ite(&mut self, g: &mut Aig, c: Lit, a: TermId, b: TermId) -> TermId {
        let _ = g;
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        let f = self.terms[a as usize].f;
        let d = self.sub(a, b);
        let cl = self.from_lit(f, c);
        let m = self.mul(cl, d);
        self.add(b, m)
    }
    /// literal for "term == 0"
    pub fn is_zero(&mut self, g: &mut Aig, t: TermId) -> Lit {
        if let Some(c) = self.as_const(t) {
            return if c == big::ZERO { T } else { F };
        }
        let t = self.monic(t);
        // a product is zero iff one of its factors is
        if let Some((a, b)) = self.products.get(&t).copied() {
            let (a, b) = (self.monic(a), self.monic(b));
            if a != t && b != t && self.terms[a as usize].t.len() * self.terms[b as usize].t.len() > 1 {
                let x = self.is_zero(g, a);
                let y = self.is_zero(g, b);
                return g.or(x, y);
            }
        }
        let p = self.terms[t as usize].clone();
        if p.t.len() == 1 {
            let mut v = vec![];
            for a in p.t[0].0.clone() {
                let l = match self.atoms[a as usize].clone() {
                    Atom::Bool(l) => neg(l),
                    Atom::Comp(f, b) => {
                        let e = self.from_bits(f, &b);
                        match self.pb_zero(g, e) {
                            Some(l) => l,
                            None => {
                                let ta = self.from_atom(p.f, a);
                                self.raw_eq(g, ta)
                            }
                        }
                    }
                    _ => {
                        let ta = self.from_atom(p.f, a);
                        self.raw_eq(g, ta)
                    }
                };
                v.push(l);
            }
            return g.or_all(&v);
        }
        // common boolean factor
        let first = p.t[0].0.clone();
        for a in &first {
            if let Atom::Bool(l) = self.atoms[*a as usize] {
                if p.t.iter().all(|(m, _)| m.contains(a)) {
                    let q = Poly { f: p.f, t: p.t.iter().map(|(m, c)| (m.iter().copied().filter(|x| x != a).collect(), *c)).collect() };
                    let q = self.resort(q);
                    let r = self.is_zero(g, q);
                    return g.or(neg(l), r);
                }
            }
        }
        for a in &first {
            if !self.is_bool(*a) && p.t.iter().all(|(m, _)| m.contains(a)) {
                let cut = |m: &Mono| {
                    let k = m.iter().position(|x| x == a).unwrap();
                    let mut m = m.clone();
                    m.remove(k);
                    m
                };
                let q = Poly { f: p.f, t: p.t.iter().map(|(m, c)| (cut(m), *c)).collect() };
                let q = self.resort(q);
                let r = self.is_zero(g, q);
                let ta = self.from_atom(p.f, *a);
                let l = self.is_zero(g, ta);
                return g.or(l, r);
            }
        }
        // (1 - b) factor: vanishes for b = 1
        let mut bools: Vec<u32> = vec![];
        for (m, _) in &p.t {
            for a in m {
                if self.is_bool(*a) && !bools.contains(a) {
                    bools.push(*a);
                }
            }
            if bools.len() > 64 {
                break;
            }
        }
        if bools.len() <= 64 {
            for a in bools {
                let one = self.subst_bool(&p, a, true);
                if self.terms[one as usize].t.is_empty() {
                    let z = self.subst_bool(&p, a, false);
                    let l = match self.atoms[a as usize] {
                        Atom::Bool(l) => l,
                        _ => unreachable!(),
                    };
                    let r = self.is_zero(g, z);
                    return g.or(l, r);
                }
            }
        }
        if p.t.iter().all(|(m, _)| m.iter().all(|a| self.is_bool(*a))) {
            if let Some(l) = self.pb_zero(g, t) {
                return l;
            }
        }
        if let Some(l) = self.comp_eq(g, &p) {
            return l;
        }
        if let Some(e) = self.expand(&p) {
            if let Some(c) = self.as_const(e) {
                return if c == big::ZERO { T } else { F };
            }
            if let Some(l) = self.pb_zero(g, e) {
                return l;
            }
        }
        self.raw_eq(g, t)
    }
    fn resort(&mut self, p: Poly) -> TermId {
        let mut m: BTreeMap<Mono, U> = BTreeMap::new();
        let fl = self.fields[p.f].clone();
        for (k, c) in p.t {
            let e = m.entry(k).or_insert(big::ZERO);
            *e = fl.add(e, &c);
        }
        let n = self.norm(p.f, m);
        self.intern(n)
    }
    pub fn subst_bool(&mut self, p: &Poly, a: u32, v: bool) -> TermId {
        let mut t = vec![];
        for (m, c) in &p.t {
            if m.contains(&a) {
                if v {
                    t.push((m.iter().copied().filter(|x| *x != a).collect(), *c));
                }
            } else {
                t.push((m.clone(), *c));
            }
        }
        self.resort(Poly { f: p.f, t })
    }
    /// uninterpreted equality atom for "term == 0" (normalised to a monic polynomial)
    pub fn raw_eq(&mut self, g: &mut Aig, t: TermId) -> Lit {
        if let Some(c) = self.as_const(t) {
            return if c == big::ZERO { T } else { F };
        }
        let p = &self.terms[t as usize];
        let lead = p.t.last().unwrap().1;
        let f = p.f;
        let iv = self.fields[f].inverse(&lead);
        let n = self.scale(t, &iv);
        if let Some(l) = self.eqidx.get(&n) {
            return *l;
        }
        let k = self.eqs.len() as u32;
        self.eqs.push(n);
        let l = g.input(Input::FpEq(k));
        self.eqidx.insert(n, l);
        l
    }
    pub fn eq(&mut self, g: &mut Aig, a: TermId, b: TermId) -> Lit {
        let d = self.sub(a, b);
        self.is_zero(g, d)
    }
    /// pure boolean polynomial == 0 (mod p) as an AIG literal, if the integer range is small
    pub fn pb_zero(&mut self, g: &mut Aig, t: TermId) -> Option<Lit> {
        if let Some(l) = self.pb.get(&t) {
            return Some(*l);
        }
        let p = self.terms[t as usize].clone();
        let fl = self.fields[p.f].clone();
        let p = self.rescaled(p);
        if let Some(b) = self.pow2_bits(&p) {
            // below twice the modulus: zero or the modulus
            let z = g.or_all(&b);
            let pl: Vec<Lit> = (0..b.len()).map(|i| if big::bit(&fl.p, i) { T } else { F }).collect();
            let e = if b[b.len() - 1] == F { F } else { g.eq(&b, &pl) };
            let l = g.or(neg(z), e);
            self.pb.insert(t, l);
            return Some(l);
        }
        let w = 400;
        let half = big::shr1(&fl.p);
        let tolits = |u: &U| -> Vec<Lit> { (0..w).map(|i| if big::bit(u, i) { T } else { F }).collect() };
        // rows of partial sums; single powers of two share a row where they can
        let (mut pos, mut neg_): (Vec<Vec<Lit>>, Vec<Vec<Lit>>) = (vec![], vec![]);
        // upper bounds of both sums, in units of p (as f64, generous)
        let tof = |u: &U| -> f64 { u.iter().rev().fold(0.0, |a, x| a * 18446744073709551616.0 + *x as f64) };
        let pf = tof(&fl.p);
        let (mut bp, mut bn) = (0.0, 0.0);
        for (m, c) in &p.t {
            let v = fl.dec(c);
            let n = big::cmp(&v, &half) == std::cmp::Ordering::Greater;
            let mag = if n { big::sub_borrow(&fl.p, &v).0 } else { v };
            let lits: Vec<Lit> = m
                .iter()
                .map(|a| match self.atoms[*a as usize] {
                    Atom::Bool(l) => l,
                    _ => unreachable!(),
                })
                .collect();
            let l = g.and_all(&lits);
            let add: Vec<Lit> = tolits(&mag).iter().map(|x| if *x == T { l } else { F }).collect();
            let (rows, b) = if n { (&mut neg_, &mut bn) } else { (&mut pos, &mut bp) };
            *b += tof(&mag) / pf;
            let fit = |r: &Vec<Lit>| add.iter().zip(r).all(|(a, b)| *a == F || *b == F);
            match rows.iter().position(fit) {
                Some(k) => {
                    for (i, a) in add.iter().enumerate() {
                        if *a != F {
                            rows[k][i] = *a;
                        }
                    }
                }
                None => rows.push(add),
            }
        }
        if std::env::var("IRSYM_DEBUG").is_ok() { eprintln!("pb {} {} terms {} rows {} {}", bp, bn, p.t.len(), pos.len(), neg_.len()); }
        if bp > 8.0 || bn > 8.0 {
            return None;
        }
        let mut sum = |rows: Vec<Vec<Lit>>| -> Vec<Lit> {
            let mut r = vec![F; w];
            for x in rows {
                r = g.add(&r, &x);
            }
            r
        };
        let (pos, neg_) = (sum(pos), sum(neg_));
        // pos - neg = k p for some k in -floor(bn)..=floor(bp)
        let mut alts = vec![];
        let pl = tolits(&fl.p);
        let mut s = neg_.clone();
        for _ in 0..=(bp + 1e-9) as i64 {
            alts.push(g.eq(&pos, &s));
            s = g.add(&s, &pl);
        }
        let mut s = pos.clone();
        for _ in 1..=(bn + 1e-9) as i64 {
            s = g.add(&s, &pl);
            alts.push(g.eq(&s, &neg_));
        }
        let l = g.or_all(&alts);
        self.pb.insert(t, l);
        Some(l)
    }
    /// canonical bits of a term
    pub fn to_bits(&mut self, g: &mut Aig, t: TermId) -> Rc<(Vec<Lit>, Vec<Lit>)> {
        if let Some(b) = self.bits.get(&t) {
            return b.clone();
        }
        let p = self.terms[t as usize].clone();
        let fl = self.fields[p.f].clone();
        let n = fl.bits;
        let r = if let Some(c) = self.as_const(t) {
            Rc::new(((0..n).map(|i| if big::bit(&c, i) { T } else { F }).collect(), vec![]))
        } else if let Some(b) = self.pow2_bits(&p) {
            let r = self.reduce(g, p.f, b);
            Rc::new((r, vec![]))
        } else {
            let bits: Vec<Lit> = (0..n).map(|i| g.input(Input::FpBit(t, i as u32))).collect();
            // axioms: t = sum 2^i b_i ; sum < p
            let s = self.from_bits(p.f, &bits);
            let d = self.sub(t, s);
            let e = self.raw_eq(g, d);
            let pl: Vec<Lit> = (0..n).map(|i| if big::bit(&fl.p, i) { T } else { F }).collect();
            let lt = g.ult(&bits, &pl);
            // the bits of a negated term follow from the bits of the term
            Rc::new((bits, vec![e, lt]))
        };
        self.bits.insert(t, r.clone());
        r
    }
    /// a multiple whose non-constant coefficients are all powers of two (up to sign), the least
    /// of them one, if there is one
    fn rescaled(&mut self, p: Poly) -> Poly {
        let fl = self.fields[p.f].clone();
        let lead = match p.t.iter().find(|(m, _)| !m.is_empty()) {
            Some((_, c)) => *c,
            None => return p,
        };
        let f = p.f;
        if !self.pows.contains_key(&f) {
            let mut m = BTreeMap::new();
            let n = fl.bits as i64;
            let two = fl.add(&fl.one, &fl.one);
            let half = fl.inverse(&two);
            let (mut u, mut d) = (fl.one, fl.one);
            for k in 0..n + 4 {
                m.entry(u).or_insert(k);
                m.entry(fl.neg(&u)).or_insert(k);
                m.entry(d).or_insert(-k);
                m.entry(fl.neg(&d)).or_insert(-k);
                u = fl.mul(&u, &two);
                d = fl.mul(&d, &half);
            }
            self.pows.insert(f, m);
        }
        let iv = fl.inverse(&lead);
        let mut least = (0, lead);
        for (m, c) in &p.t {
            if m.is_empty() {
                continue;
            }
            match self.pows[&f].get(&fl.mul(c, &iv)) {
                Some(k) if *k < least.0 => least = (*k, *c),
                Some(_) => {}
                None => return p,
            }
        }
        let iv = fl.inverse(&least.1);
        let mut p = p;
        for t in p.t.iter_mut() {
            t.1 = fl.mul(&t.1, &iv);
        }
        p
    }
    /// the term as a sum of distinct powers of two times literals
    fn pow2_bits(&self, p: &Poly) -> Option<Vec<Lit>> {
        let fl = &self.fields[p.f];
        let mut r = vec![F; fl.bits];
        let mut cst = big::ZERO;
        let single = |v: &U| -> Option<usize> {
            let mut k = None;
            for i in 0..fl.bits {
                if big::bit(v, i) {
                    if k.is_some() {
                        return None;
                    }
                    k = Some(i);
                }
            }
            k
        };
        for (m, c) in &p.t {
            if m.is_empty() {
                cst = fl.add(&cst, c);
                continue;
            }
            if m.len() > 1 {
                return None;
            }
            let l = match self.atoms[m[0] as usize] {
                Atom::Bool(l) => l,
                _ => return None,
            };
            let (k, l) = match single(&fl.dec(c)) {
                Some(k) => (k, l),
                None => {
                    // -2^k b = 2^k (1 - b) - 2^k
                    let k = single(&fl.dec(&fl.neg(c)))?;
                    cst = fl.add(&cst, c);
                    (k, neg(l))
                }
            };
            if r[k] != F {
                return None;
            }
            r[k] = l;
        }
        let cst = fl.dec(&cst);
        for i in 0..fl.bits {
            if big::bit(&cst, i) {
                if r[i] != F {
                    return None;
                }
                r[i] = T;
            }
        }
        Some(r)
    }
    /// sum 2^i b_i; recognises the complete bits of a term (and partial zero tails)
    pub fn from_bits(&mut self, f: usize, bits: &[Lit]) -> TermId {
        let fl = self.fields[f].clone();
        let mut m: BTreeMap<Mono, U> = BTreeMap::new();
        let mut w = fl.one;
        for l in bits {
            if *l != F {
                let t = self.from_lit(f, *l);
                for (mo, c) in self.terms[t as usize].t.clone() {
                    let e = m.entry(mo).or_insert(big::ZERO);
                    *e = fl.add(e, &fl.mul(&c, &w));
                }
            }
            w = fl.add(&w, &w);
        }
        let n = self.norm(f, m);
        self.intern(n)
    }
    /// as from_bits, but the full canonical bits of a term give the term itself
    pub fn compose(&mut self, g: &mut Aig, f: usize, bits: &[Lit]) -> TermId {
        let n = self.fields[f].bits;
        if bits.len() >= n && bits[n..].iter().all(|l| *l == F) {
            if let Some(Input::FpBit(t, 0)) = g.inputs.get(&node(bits[0])) {
                if bits[0] & 1 == 0 && self.terms[*t as usize].f == f {
                    if let Some(b) = self.bits.get(t) {
                        if b.0[..] == bits[..n] {
                            return *t;
                        }
                    }
                }
            }
        }
        let top = bits.iter().rposition(|l| *l != F).map(|k| k + 1).unwrap_or(0);
        let bits = &bits[..top];
        if bits.iter().filter(|l| **l != F && **l != T).count() <= 16 {
            return self.from_bits(f, bits);
        }
        let at = self.atom(Atom::Comp(f, Rc::new(bits.to_vec())));
        let t = self.from_atom(f, at);
        if !self.comp.contains_key(&at) {
            let s = self.from_bits(f, bits);
            let d = self.sub(t, s);
            let l = self.raw_eq(g, d);
            let z = self.is_zero(g, t);
            self.comp.insert(at, (l, z));
            if top <= n + 24 {
                let r = self.reduce(g, f, bits.to_vec());
                self.bits.insert(t, Rc::new((r, vec![])));
            }
        }
        t
    }
    /// canonical bits of a number, by conditional subtraction of multiples of the modulus
    fn reduce(&mut self, g: &mut Aig, f: usize, mut b: Vec<Lit>) -> Vec<Lit> {
        let n = self.fields[f].bits;
        let p = self.fields[f].p;
        if b.len() < n {
            b.resize(n, F);
        }
        for k in (0..=b.len() - n).rev() {
            // below 2^(n+k+1): subtract p * 2^k
            if b[n + k - 1] == F {
                continue;
            }
            let pl: Vec<Lit> = (0..b.len()).map(|i| if i >= k && i - k < n && big::bit(&p, i - k) { T } else { F }).collect();
            let below = g.ult(&b, &pl);
            let red = g.sub(&b, &pl);
            b = (0..b.len()).map(|i| g.mux(below, b[i], red[i])).collect();
            if k > 0 {
                b.truncate(n + k);
            }
        }
        b.truncate(n);
        b
    }
    /// a composed number equal to another one or to a constant: by their canonical bits
    fn comp_eq(&mut self, g: &mut Aig, p: &Poly) -> Option<Lit> {
        if p.t.len() != 2 {
            return None;
        }
        let fl = self.fields[p.f].clone();
        let (m0, c0) = &p.t[0];
        let (m1, c1) = &p.t[1];
        let mut bits = |m: &Mono| -> Option<Rc<(Vec<Lit>, Vec<Lit>)>> {
            if m.len() == 1 && matches!(self.atoms[m[0] as usize], Atom::Comp(..)) {
                let t = self.from_atom(p.f, m[0]);
                return self.bits.get(&t).cloned();
            }
            None
        };
        let b = bits(m1)?;
        if m0.is_empty() {
            // c0 + c1 x = 0
            let v = fl.dec(&fl.mul(&fl.neg(c0), &fl.inverse(c1)));
            let w: Vec<Lit> = (0..fl.bits).map(|i| if big::bit(&v, i) { T } else { F }).collect();
            return Some(g.eq(&b.0, &w));
        }
        if *c0 == fl.neg(c1) {
            let a = bits(m0)?;
            return Some(g.eq(&a.0, &b.0));
        }
        None
    }
    /// the term with composed atoms replaced by their bits, if they occur linearly and nothing else does
    fn expand(&mut self, p: &Poly) -> Option<TermId> {
        let mut any = false;
        for (m, _) in &p.t {
            for a in m {
                match self.atoms[*a as usize] {
                    Atom::Bool(_) => {}
                    Atom::Comp(..) if m.len() == 1 => any = true,
                    _ => return None,
                }
            }
        }
        if !any {
            return None;
        }
        let mut r = self.zero(p.f);
        for (m, c) in &p.t {
            let t = match m.first().map(|a| self.atoms[*a as usize].clone()) {
                Some(Atom::Comp(f, b)) => {
                    let s = self.from_bits(f, &b);
                    self.scale(s, c)
                }
                _ => self.intern(Poly { f: p.f, t: vec![(m.clone(), *c)] }),
            };
            r = self.add(r, t);
        }
        Some(r)
    }
    pub fn uf_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.ufidx.get(name) {
            return *i;
        }
        let i = self.ufnames.len() as u32;
        self.ufnames.push(name.to_string());
        self.ufidx.insert(name.to_string(), i);
        i
    }
    /// rk: Some(field) or None with a bit count
    pub fn apply(&mut self, g: &mut Aig, name: &str, args: Vec<Arg>, field: Option<usize>, nbits: usize) -> u32 {
        let uf = self.uf_id(name);
        let rk = field.map(|f| 1_000_000 + f).unwrap_or(nbits);
        if let Some(i) = self.appidx.get(&(uf, args.clone(), rk)) {
            return *i;
        }
        let i = self.apps.len() as u32;
        let res = match field {
            Some(f) => Res::Field(self.atom(Atom::Uf(i)), f),
            None => Res::Bits((0..nbits).map(|k| g.input(Input::Uf(i, k as u32))).collect()),
        };
        self.apps.push(App { uf, args: args.clone(), res });
        self.appidx.insert((uf, args, rk), i);
        self.apps_of.entry(uf).or_default().push(i);
        i
    }
    /// congruence (and injectivity for names starting with '!') of two applications
    pub fn ackermann(&mut self, g: &mut Aig, i: u32, j: u32) -> Lit {
        if let Some(l) = self.ack.get(&(i, j)) {
            return *l;
        }
        let a = self.apps[i as usize].clone();
        let b = self.apps[j as usize].clone();
        let inj = self.ufnames[a.uf as usize].starts_with('!');
        let mut conds = vec![];
        let shape = a.args.len() == b.args.len()
            && a.args.iter().zip(&b.args).all(|(x, y)| match (x, y) {
                (Arg::Bits(p), Arg::Bits(q)) => p.len() == q.len(),
                (Arg::Term(_), Arg::Term(_)) => true,
                _ => false,
            });
        let same = if shape {
            for (x, y) in a.args.iter().zip(&b.args) {
                let l = match (x, y) {
                    (Arg::Bits(p), Arg::Bits(q)) => g.eq(p, q),
                    (Arg::Term(p), Arg::Term(q)) => self.eq(g, *p, *q),
                    _ => unreachable!(),
                };
                conds.push(l);
            }
            g.and_all(&conds)
        } else {
            F
        };
        let req = match (&a.res, &b.res) {
            (Res::Bits(p), Res::Bits(q)) if p.len() == q.len() => g.eq(p, q),
            (Res::Field(p, f), Res::Field(q, _)) => {
                let x = self.from_atom(*f, *p);
                let y = self.from_atom(*f, *q);
                self.eq(g, x, y)
            }
            _ => F,
        };
        let mut l = g.or(neg(same), req);
        if !matches!((&a.res, &b.res), (Res::Bits(p), Res::Bits(q)) if p.len() != q.len()) {
            if inj {
                let back = g.or(neg(req), same);
                l = g.and(l, back);
            }
        } else {
            l = T;
        }
        self.ack.insert((i, j), l);
        l
    }
}

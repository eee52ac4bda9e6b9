//! Satisfiability of conjunctions of literals: z3 decides the boolean part, an incremental check of
//! the field equalities (linear algebra over the prime field on monomials) adds theory lemmas.
use crate::aig::*;
use crate::big::{self, Rng, U};
use crate::defaults;
use crate::fp::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Ext {
    Const(f64),
    FromBv(Vec<Lit>, bool),
    /// an exactly representable number: an integer over a power of two (resolved before solving)
    Dy(Vec<Lit>, i32),
    Bin(char, u32, u32),
    Neg(u32),
    Abs(u32),
    Round(&'static str, u32), // RTP ceil, RTN floor, RTZ trunc, RNA round
    Ite(Lit, u32, u32),
    /// saturating conversion to an integer of the given width (bits are inputs)
    ToBv(u32, u32, bool),
    /// comparison (one bit)
    Cmp(String, u32, u32),
}

pub struct Ctx {
    pub g: Aig,
    pub fp: Fp,
    pub names: Vec<String>,
    pub ext: Vec<Ext>,
}

#[derive(Default)]
pub struct Model {
    pub inputs: FxMap<u32, bool>,
    pub fvars: HashMap<u32, U>,
    pub ufb: HashMap<(u32, Vec<u8>, usize), Vec<bool>>,
    pub uff: HashMap<(u32, Vec<u8>), U>,
    memo: RefCell<FxMap<u32, bool>>,
    tmemo: RefCell<HashMap<TermId, U>>,
    akey: RefCell<HashMap<u32, Rc<Vec<u8>>>>,
}
impl Clone for Model {
    fn clone(&self) -> Model {
        Model { inputs: self.inputs.clone(), fvars: self.fvars.clone(), ufb: self.ufb.clone(), uff: self.uff.clone(), ..Default::default() }
    }
}

impl Model {
    pub fn lit(&self, c: &Ctx, l: Lit) -> bool {
        self.node(c, node(l)) ^ (l & 1 == 1)
    }
    fn node(&self, c: &Ctx, n: u32) -> bool {
        if n == 0 {
            return false;
        }
        if let Some(v) = self.memo.borrow().get(&n) {
            return *v;
        }
        let mut st = vec![n];
        while let Some(&m) = st.last() {
            if m == 0 || self.memo.borrow().contains_key(&m) {
                st.pop();
                continue;
            }
            match c.g.kind[m as usize] {
                Kind::Const => {
                    st.pop();
                }
                Kind::Input => {
                    let v = self.input(c, m);
                    self.memo.borrow_mut().insert(m, v);
                    st.pop();
                }
                k => {
                    let (a, b) = (c.g.a[m as usize], c.g.b[m as usize]);
                    let get = |l: Lit| -> Option<bool> {
                        if node(l) == 0 {
                            return Some(l == T);
                        }
                        self.memo.borrow().get(&node(l)).map(|v| *v ^ (l & 1 == 1))
                    };
                    let x = get(a);
                    if x.is_none() {
                        st.push(node(a));
                        continue;
                    }
                    if k == Kind::And && x == Some(false) {
                        self.memo.borrow_mut().insert(m, false);
                        st.pop();
                        continue;
                    }
                    let y = get(b);
                    if y.is_none() {
                        st.push(node(b));
                        continue;
                    }
                    let v = if k == Kind::And { x.unwrap() && y.unwrap() } else { x.unwrap() ^ y.unwrap() };
                    self.memo.borrow_mut().insert(m, v);
                    st.pop();
                }
            }
        }
        *self.memo.borrow().get(&n).unwrap()
    }
    fn input(&self, c: &Ctx, n: u32) -> bool {
        match c.g.inputs[&n] {
            Input::Var(_, _) => self.inputs.get(&n).copied().unwrap_or(false),
            Input::FpEq(k) => self.term(c, c.fp.eqs[k as usize]) == big::ZERO,
            Input::FpBit(t, i) => {
                let f = c.fp.terms[t as usize].f;
                let v = c.fp.fields[f].dec(&self.term(c, t));
                big::bit(&v, i as usize)
            }
            Input::Uf(a, i) => self.app_bits(c, a)[i as usize],
            Input::Ext(e, i) => match &c.ext[e as usize] {
                Ext::ToBv(x, w, s) => {
                    let v = self.ext(c, *x);
                    let r: u64 = if *s {
                        let lim = if *w == 64 { v as i64 } else { (v as i64).clamp(-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
                        lim as u64
                    } else if *w == 64 {
                        v as u64
                    } else {
                        (v as u64).min((1u64 << w) - 1)
                    };
                    (r >> i) & 1 == 1
                }
                Ext::Cmp(p, a, b) => {
                    let (x, y) = (self.ext(c, *a), self.ext(c, *b));
                    fcmp(p, x, y)
                }
                _ => unreachable!(),
            },
        }
    }
    pub fn ext(&self, c: &Ctx, e: u32) -> f64 {
        match &c.ext[e as usize] {
            Ext::Const(v) => *v,
            Ext::FromBv(b, s) => {
                let mut u = 0u64;
                for (i, l) in b.iter().enumerate() {
                    if self.lit(c, *l) {
                        u |= 1 << i;
                    }
                }
                if *s {
                    let sh = 64 - b.len();
                    (((u << sh) as i64) >> sh) as f64
                } else {
                    u as f64
                }
            }
            Ext::Bin(op, a, b) => {
                let (x, y) = (self.ext(c, *a), self.ext(c, *b));
                match op {
                    '+' => x + y,
                    '-' => x - y,
                    '*' => x * y,
                    '/' => x / y,
                    _ => x % y,
                }
            }
            Ext::Neg(a) => -self.ext(c, *a),
            Ext::Abs(a) => self.ext(c, *a).abs(),
            Ext::Round(m, a) => {
                let v = self.ext(c, *a);
                match *m {
                    "RTP" => v.ceil(),
                    "RTN" => v.floor(),
                    "RTZ" => v.trunc(),
                    "RNE" => v.round_ties_even(),
                    _ => v.round(),
                }
            }
            Ext::Ite(l, a, b) => {
                if self.lit(c, *l) { self.ext(c, *a) } else { self.ext(c, *b) }
            }
            _ => unreachable!(),
        }
    }
    pub fn key(&self, c: &Ctx, app: u32) -> Rc<Vec<u8>> {
        if let Some(k) = self.akey.borrow().get(&app) {
            return k.clone();
        }
        let a = &c.fp.apps[app as usize];
        let mut k = vec![];
        for x in &a.args {
            match x {
                Arg::Bits(b) => {
                    let v: Vec<bool> = b.iter().map(|l| self.lit(c, *l)).collect();
                    defaults::key_bits(&mut k, &v);
                }
                Arg::Term(t) => {
                    let f = c.fp.terms[*t as usize].f;
                    let v = c.fp.fields[f].dec(&self.term(c, *t));
                    defaults::key_field(&mut k, &v);
                }
            }
        }
        let k = Rc::new(k);
        self.akey.borrow_mut().insert(app, k.clone());
        k
    }
    pub fn app_bits(&self, c: &Ctx, app: u32) -> Vec<bool> {
        let a = &c.fp.apps[app as usize];
        let n = match &a.res {
            Res::Bits(b) => b.len(),
            _ => unreachable!(),
        };
        let k = self.key(c, app);
        if let Some(v) = self.ufb.get(&(a.uf, (*k).clone(), n)) {
            return v.clone();
        }
        let mut dk = c.fp.ufnames[a.uf as usize].clone().into_bytes();
        dk.extend_from_slice(&k);
        defaults::bits(n, &dk)
    }
    pub fn atom(&self, c: &Ctx, a: u32) -> U {
        match &c.fp.atoms[a as usize] {
            Atom::Var(f, n) => self.fvars.get(&a).copied().unwrap_or_else(|| defaults::field(&c.fp.fields[*f], n.as_bytes())),
            Atom::Bool(_) => unreachable!(),
            Atom::Uf(app) => {
                let ap = &c.fp.apps[*app as usize];
                let f = match ap.res {
                    Res::Field(_, f) => f,
                    _ => unreachable!(),
                };
                let k = self.key(c, *app);
                if let Some(v) = self.uff.get(&(ap.uf, (*k).clone())) {
                    return *v;
                }
                let mut dk = c.fp.ufnames[ap.uf as usize].clone().into_bytes();
                dk.extend_from_slice(&k);
                defaults::field(&c.fp.fields[f], &dk)
            }
            Atom::Comp(f, bits) => {
                let fl = &c.fp.fields[*f];
                let (mut s, mut w) = (big::ZERO, fl.one);
                for l in bits.iter() {
                    if self.lit(c, *l) {
                        s = fl.add(&s, &w);
                    }
                    w = fl.add(&w, &w);
                }
                s
            }
            Atom::Inv(t) => {
                let f = c.fp.terms[*t as usize].f;
                c.fp.fields[f].inverse(&self.term(c, *t))
            }
        }
    }
    /// Montgomery residue of a term
    pub fn term(&self, c: &Ctx, t: TermId) -> U {
        if let Some(v) = self.tmemo.borrow().get(&t) {
            return *v;
        }
        let p = &c.fp.terms[t as usize];
        let fl = &c.fp.fields[p.f];
        let mut s = big::ZERO;
        for (m, k) in &p.t {
            let mut v = *k;
            for a in m {
                match c.fp.atoms[*a as usize] {
                    Atom::Bool(l) => {
                        if !self.lit(c, l) {
                            v = big::ZERO;
                            break;
                        }
                    }
                    _ => v = fl.mul(&v, &self.atom(c, *a)),
                }
            }
            s = fl.add(&s, &v);
        }
        self.tmemo.borrow_mut().insert(t, s);
        s
    }
}

pub fn fcmp(p: &str, x: f64, y: f64) -> bool {
    let un = x.is_nan() || y.is_nan();
    match p {
        "oeq" => x == y,
        "ogt" => x > y,
        "oge" => x >= y,
        "olt" => x < y,
        "ole" => x <= y,
        "one" => !un && x != y,
        "ord" => !un,
        "ueq" => un || x == y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "une" => x != y,
        "uno" => un,
        "true" => true,
        _ => false,
    }
}

/// A query up to the names of its variables: two queries with the same canonical form have the
/// same answer.
#[derive(Default)]
struct Canon {
    nodes: FxMap<u32, u32>,
    terms: FxMap<u32, u32>,
    atoms: FxMap<u32, u32>,
    apps: FxMap<u32, u32>,
    o: Vec<u64>,
    bad: bool,
}
impl Canon {
    fn of(c: &Ctx, lits: &[Lit]) -> Option<(u64, u64)> {
        use std::hash::Hasher;
        let mut k = Canon::default();
        for l in lits {
            k.lit(c, *l);
            k.o.push(u64::MAX);
        }
        if k.bad {
            return None;
        }
        let mut h = [std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new()];
        h[1].write_u64(1);
        for x in &k.o {
            h[0].write_u64(*x);
            h[1].write_u64(*x);
        }
        Some((h[0].finish(), h[1].finish()))
    }
    /// whether it is new
    fn see(m: &mut FxMap<u32, u32>, o: &mut Vec<u64>, x: u32, tag: u64) -> bool {
        let k = m.len() as u32;
        match m.get(&x) {
            Some(v) => {
                o.extend([tag, 0, *v as u64]);
                false
            }
            None => {
                m.insert(x, k);
                o.extend([tag, 1]);
                true
            }
        }
    }
    fn lit(&mut self, c: &Ctx, l: Lit) {
        let mut st = vec![l];
        while let Some(l) = st.pop() {
            let n = node(l);
            self.o.push((l & 1) as u64);
            if n == 0 {
                self.o.push(10);
                continue;
            }
            if !Self::see(&mut self.nodes, &mut self.o, n, 11) {
                continue;
            }
            match c.g.kind[n as usize] {
                Kind::Const => self.o.push(12),
                Kind::And | Kind::Xor => {
                    self.o.push(if c.g.kind[n as usize] == Kind::And { 13 } else { 14 });
                    st.push(c.g.b[n as usize]);
                    st.push(c.g.a[n as usize]);
                }
                Kind::Input => match &c.g.inputs[&n] {
                    Input::Var(_, _) => self.o.push(15),
                    Input::FpEq(k) => {
                        self.o.push(16);
                        self.term(c, c.fp.eqs[*k as usize]);
                    }
                    Input::FpBit(t, i) => {
                        self.o.extend([17, *i as u64]);
                        self.term(c, *t);
                    }
                    Input::Uf(a, i) => {
                        self.o.extend([18, *i as u64]);
                        self.app(c, *a);
                    }
                    Input::Ext(_, _) => self.bad = true,
                },
            }
        }
    }
    fn term(&mut self, c: &Ctx, t: TermId) {
        if !Self::see(&mut self.terms, &mut self.o, t, 21) {
            return;
        }
        let p = &c.fp.terms[t as usize];
        self.o.extend([p.f as u64, p.t.len() as u64]);
        for (m, k) in &p.t {
            self.o.extend(k.iter().copied());
            self.o.push(m.len() as u64);
            for a in m.iter() {
                self.atom(c, *a);
            }
        }
    }
    fn atom(&mut self, c: &Ctx, a: u32) {
        if !Self::see(&mut self.atoms, &mut self.o, a, 31) {
            return;
        }
        match &c.fp.atoms[a as usize] {
            Atom::Var(f, _) => self.o.extend([32, *f as u64]),
            Atom::Bool(l) => {
                self.o.push(33);
                self.lit(c, *l);
            }
            Atom::Uf(k) => {
                self.o.push(34);
                self.app(c, *k);
            }
            Atom::Inv(t) => {
                self.o.push(35);
                self.term(c, *t);
            }
            Atom::Comp(f, b) => {
                self.o.extend([36, *f as u64, b.len() as u64]);
                for l in b.iter() {
                    self.lit(c, *l);
                }
            }
        }
    }
    fn app(&mut self, c: &Ctx, a: u32) {
        if !Self::see(&mut self.apps, &mut self.o, a, 41) {
            return;
        }
        let a = &c.fp.apps[a as usize];
        self.o.extend([a.uf as u64, a.args.len() as u64]);
        match &a.res {
            Res::Bits(b) => self.o.extend([42, b.len() as u64]),
            Res::Field(_, f) => self.o.extend([43, *f as u64]),
        }
        for x in &a.args {
            match x {
                Arg::Bits(b) => {
                    self.o.extend([44, b.len() as u64]);
                    for l in b {
                        self.lit(c, *l);
                    }
                }
                Arg::Term(t) => {
                    self.o.push(45);
                    self.term(c, *t);
                }
            }
        }
    }
}

/// What a literal depends on.
#[derive(Default)]
pub struct Cone {
    seen: FxSet<u32>,
    seen_terms: FxSet<u32>,
    pub inputs: Vec<u32>, // Var nodes
    pub eqs: Vec<(u32, u32)>, // (node, eq index)
    pub fatoms: BTreeSet<u32>,
    pub apps: BTreeSet<u32>,
    pub bits: BTreeSet<u32>, // terms with FpBit inputs
    pub exts: Vec<u32>, // ext bit nodes
}
impl Cone {
    pub fn lit(&mut self, c: &Ctx, l: Lit) {
        let mut st = vec![node(l)];
        while let Some(n) = st.pop() {
            if n == 0 || !self.seen.insert(n) {
                continue;
            }
            match c.g.kind[n as usize] {
                Kind::Const => {}
                Kind::Input => match &c.g.inputs[&n] {
                    Input::Var(_, _) => self.inputs.push(n),
                    Input::FpEq(k) => {
                        self.eqs.push((n, *k));
                        self.term(c, c.fp.eqs[*k as usize], &mut st);
                    }
                    Input::FpBit(t, _) => {
                        if self.bits.insert(*t) {
                            self.term(c, *t, &mut st);
                            if let Some(b) = c.fp.bits.get(t) {
                                for l in &b.1 {
                                    st.push(node(*l));
                                }
                            }
                        }
                    }
                    Input::Uf(a, _) => self.app(c, *a, &mut st),
                    Input::Ext(e, _) => {
                        self.exts.push(n);
                        self.ext(c, *e, &mut st);
                    }
                },
                _ => {
                    st.push(node(c.g.a[n as usize]));
                    st.push(node(c.g.b[n as usize]));
                }
            }
        }
    }
    fn ext(&mut self, c: &Ctx, e: u32, st: &mut Vec<u32>) {
        match &c.ext[e as usize] {
            Ext::Const(_) => {}
            Ext::FromBv(b, _) | Ext::Dy(b, _) => st.extend(b.iter().map(|l| node(*l))),
            Ext::Bin(_, a, b) | Ext::Cmp(_, a, b) => {
                self.ext(c, *a, st);
                self.ext(c, *b, st);
            }
            Ext::Neg(a) | Ext::Abs(a) | Ext::Round(_, a) | Ext::ToBv(a, _, _) => self.ext(c, *a, st),
            Ext::Ite(l, a, b) => {
                st.push(node(*l));
                self.ext(c, *a, st);
                self.ext(c, *b, st);
            }
        }
    }
    fn app(&mut self, c: &Ctx, a: u32, st: &mut Vec<u32>) {
        if !self.apps.insert(a) {
            return;
        }
        for x in &c.fp.apps[a as usize].args {
            match x {
                Arg::Bits(b) => st.extend(b.iter().map(|l| node(*l))),
                Arg::Term(t) => self.term(c, *t, st),
            }
        }
    }
    fn term(&mut self, c: &Ctx, t: TermId, st: &mut Vec<u32>) {
        if !self.seen_terms.insert(t) {
            return;
        }
        for (m, _) in &c.fp.terms[t as usize].t {
            for a in m {
                match &c.fp.atoms[*a as usize] {
                    Atom::Bool(l) => st.push(node(*l)),
                    Atom::Var(_, _) => {
                        self.fatoms.insert(*a);
                    }
                    Atom::Uf(ap) => {
                        self.fatoms.insert(*a);
                        self.app(c, *ap, st);
                    }
                    Atom::Comp(_, b) => {
                        self.fatoms.insert(*a);
                        st.extend(b.iter().map(|l| node(*l)));
                    }
                    Atom::Inv(t2) => {
                        self.fatoms.insert(*a);
                        self.term(c, *t2, st);
                    }
                }
            }
        }
    }
    pub fn keys(&self, c: &Ctx) -> Vec<u32> {
        let mut v: Vec<u32> = self.inputs.clone();
        for a in &self.fatoms {
            v.push(0x8000_0000 | a);
        }
        for a in &self.apps {
            v.push(0xC000_0000 | c.fp.apps[*a as usize].uf);
        }
        v.sort();
        v.dedup();
        v
    }
}

#[derive(Clone)]
pub struct Pc {
    pub lit: Lit,
    pub keys: Rc<Vec<u32>>,
}

pub enum Sat {
    Sat(Rc<Model>),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxSet<u32>,
    /// levels of definitions above the last cut (z3's define-fun is slow on deep ones)
    depth: FxMap<u32, u8>,
    /// nodes declared as constants; a query asserts their definitions
    cut: Vec<u32>,
    extdef: FxSet<u32>,
    nq: usize,
    buf: String,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver {
    pub bin: String,
    p: Option<Proc>,
    pf: Option<Proc>,
    pub queries: u64,
    pub fresh: u64,
    /// queries, up to the names of variables, that have (not) been found unsatisfiable on their own
    alone: HashMap<(u64, u64), bool>,
    pub repeated: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub lemmas: u64,
    pub time: Duration,
    pub timeout_ms: u64,
    pub deadline: Option<Instant>,
    rng: Rng,
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64) -> Solver {
        Solver {
            bin: bin.into(),
            p: None,
            pf: None,
            queries: 0,
            fresh: 0,
            alone: Default::default(),
            repeated: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            lemmas: 0,
            time: Duration::ZERO,
            timeout_ms,
            deadline: None,
            rng: Rng(12345),
        }
    }
    fn spawn(&self, fd: bool) -> Proc {
        let mut child = Command::new(&self.bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut p = Proc { child, inp, out, defined: Default::default(), depth: Default::default(), cut: vec![], extdef: Default::default(), nq: 0, buf: String::new() };
        if fd {
            p.buf.push_str("(set-logic QF_FD)\n");
        }
        let _ = write!(p.buf, "(set-option :timeout {})\n", self.timeout_ms);
        p
    }
    fn name(l: Lit) -> String {
        if l == F {
            "false".into()
        } else if l == T {
            "true".into()
        } else if l & 1 == 1 {
            format!("(not n{})", node(l))
        } else {
            format!("n{}", node(l))
        }
    }
    fn define(p: &mut Proc, c: &Ctx, l: Lit) {
        let mut st = vec![node(l)];
        while let Some(&n) = st.last() {
            if n == 0 || p.defined.contains(&n) {
                st.pop();
                continue;
            }
            match c.g.kind[n as usize] {
                Kind::Const => {
                    st.pop();
                }
                Kind::Input => {
                    if let Input::Ext(e, i) = c.g.inputs[&n] {
                        Self::define_ext(p, c, e);
                        match &c.ext[e as usize] {
                            Ext::Cmp(_, _, _) => {
                                let _ = writeln!(p.buf, "(define-fun n{} () Bool e{})", n, e);
                            }
                            _ => {
                                let _ = writeln!(p.buf, "(define-fun n{} () Bool (= ((_ extract {} {}) e{}) #b1))", n, i, i, e);
                            }
                        }
                    } else {
                        let _ = writeln!(p.buf, "(declare-const n{} Bool)", n);
                    }
                    p.defined.insert(n);
                    st.pop();
                }
                k => {
                    let (a, b) = (c.g.a[n as usize], c.g.b[n as usize]);
                    let (x, y) = (node(a), node(b));
                    let mut ready = true;
                    if x != 0 && !p.defined.contains(&x) {
                        st.push(x);
                        ready = false;
                    }
                    if y != 0 && !p.defined.contains(&y) {
                        st.push(y);
                        ready = false;
                    }
                    if ready {
                        let d = p.depth.get(&x).copied().unwrap_or(0).max(p.depth.get(&y).copied().unwrap_or(0)) + 1;
                        let op = if k == Kind::And { "and" } else { "xor" };
                        if d > 10 {
                            let _ = writeln!(p.buf, "(define-fun d{} () Bool ({} {} {}))\n(declare-const n{} Bool)", n, op, Self::name(a), Self::name(b), n);
                            p.cut.push(n);
                        } else {
                            let _ = writeln!(p.buf, "(define-fun n{} () Bool ({} {} {}))", n, op, Self::name(a), Self::name(b));
                            p.depth.insert(n, d);
                        }
                        p.defined.insert(n);
                        st.pop();
                    }
                }
            }
        }
    }
    /// asserts the definitions of the cut nodes in the cone
    fn assert_cuts(p: &mut Proc, cone: &Cone, done: &mut FxSet<u32>) {
        for n in &p.cut {
            if cone.seen.contains(n) && done.insert(*n) {
                let _ = writeln!(p.buf, "(assert (= n{} d{}))", n, n);
            }
        }
    }
    fn bv(b: &[Lit]) -> String {
        let mut s = String::from("(concat");
        for l in b.iter().rev() {
            let _ = write!(s, " (ite {} #b1 #b0)", Self::name(*l));
        }
        s.push(')');
        s
    }
    fn define_ext(p: &mut Proc, c: &Ctx, e: u32) {
        if !p.extdef.insert(e) {
            return;
        }
        let fs = "(_ FloatingPoint 11 53)";
        let line = match &c.ext[e as usize] {
            Ext::Dy(..) => unreachable!(),
            Ext::Const(v) => format!("(define-fun e{} () {} ((_ to_fp 11 53) #x{:016x}))", e, fs, v.to_bits()),
            Ext::FromBv(b, s) => {
                for l in b {
                    Self::define(p, c, *l);
                }
                format!("(define-fun e{} () {} ((_ {} 11 53) RNE {}))", e, fs, if *s { "to_fp" } else { "to_fp_unsigned" }, Self::bv(b))
            }
            Ext::Bin(op, a, b) => {
                Self::define_ext(p, c, *a);
                Self::define_ext(p, c, *b);
                let o = match op {
                    '+' => "fp.add RNE",
                    '-' => "fp.sub RNE",
                    '*' => "fp.mul RNE",
                    '/' => "fp.div RNE",
                    _ => "fp.rem",
                };
                format!("(define-fun e{} () {} ({} e{} e{}))", e, fs, o, a, b)
            }
            Ext::Neg(a) => {
                Self::define_ext(p, c, *a);
                format!("(define-fun e{} () {} (fp.neg e{}))", e, fs, a)
            }
            Ext::Abs(a) => {
                Self::define_ext(p, c, *a);
                format!("(define-fun e{} () {} (fp.abs e{}))", e, fs, a)
            }
            Ext::Round(m, a) => {
                Self::define_ext(p, c, *a);
                format!("(define-fun e{} () {} (fp.roundToIntegral {} e{}))", e, fs, m, a)
            }
            Ext::Ite(l, a, b) => {
                Self::define(p, c, *l);
                Self::define_ext(p, c, *a);
                Self::define_ext(p, c, *b);
                format!("(define-fun e{} () {} (ite {} e{} e{}))", e, fs, Self::name(*l), a, b)
            }
            Ext::ToBv(a, w, s) => {
                Self::define_ext(p, c, *a);
                if *s {
                    format!("(define-fun e{} () (_ BitVec {}) ((_ fp.to_sbv {}) RTZ e{}))", e, w, w, a)
                } else {
                    // saturating: NaN and negative -> 0, too large -> max
                    let lim = (2f64).powi(*w as i32).to_bits();
                    format!(
                        "(define-fun e{} () (_ BitVec {w}) (ite (or (fp.isNaN e{a}) (fp.lt e{a} ((_ to_fp 11 53) #x0000000000000000))) (_ bv0 {w}) (ite (fp.geq e{a} ((_ to_fp 11 53) #x{lim:016x})) (bvnot (_ bv0 {w})) ((_ fp.to_ubv {w}) RTZ e{a}))))",
                        e, w = w, a = a, lim = lim
                    )
                }
            }
            Ext::Cmp(pr, a, b) => {
                Self::define_ext(p, c, *a);
                Self::define_ext(p, c, *b);
                let un = format!("(or (fp.isNaN e{}) (fp.isNaN e{}))", a, b);
                let core = match &pr[1..] {
                    "eq" => format!("(fp.eq e{} e{})", a, b),
                    "gt" => format!("(fp.gt e{} e{})", a, b),
                    "ge" => format!("(fp.geq e{} e{})", a, b),
                    "lt" => format!("(fp.lt e{} e{})", a, b),
                    "le" => format!("(fp.leq e{} e{})", a, b),
                    "ne" => format!("(not (or (fp.eq e{} e{}) {}))", a, b, un),
                    "rd" => format!("(not {})", un),
                    _ => un.clone(),
                };
                if pr.starts_with('u') && pr != "uno" {
                    format!("(define-fun e{} () Bool (or {} {}))", e, un, core)
                } else {
                    format!("(define-fun e{} () Bool {})", e, core)
                }
            }
        };
        p.buf.push_str(&line);
        p.buf.push('\n');
    }
    fn flush(p: &mut Proc) -> Result<(), String> {
        if std::env::var("IRSYM_DUMP").is_ok() {
            eprint!("{}", p.buf);
        }
        p.inp.write_all(p.buf.as_bytes()).map_err(|e| e.to_string())?;
        p.inp.flush().map_err(|e| e.to_string())?;
        p.buf.clear();
        Ok(())
    }
    fn line(p: &mut Proc) -> Result<String, String> {
        let mut s = String::new();
        let n = p.out.read_line(&mut s).map_err(|e| e.to_string())?;
        if n == 0 {
            return Err("solver closed".into());
        }
        if s.contains("(error") {
            return Err(s);
        }
        Ok(s)
    }

    /// Is (conjunction of the relevant part of pc) && goals satisfiable? The model extends `base`.
    pub fn check(&mut self, c: &mut Ctx, pc: &[Pc], goals: &[Lit], base: &Rc<Model>) -> Sat {
        if goals.iter().any(|l| *l == F) {
            return Sat::Unsat;
        }
        // a fresh input on its own can take either value
        if let [l] = goals {
            let n = node(*l);
            if let Kind::Input = c.g.kind[n as usize] {
                if matches!(c.g.inputs.get(&n), Some(Input::Var(..))) {
                    let mut cone = Cone::default();
                    cone.lit(c, *l);
                    let keys = cone.keys(c);
                    if !pc.iter().any(|e| e.keys.iter().any(|k| keys.contains(k))) {
                        let mut m = (**base).clone();
                        m.inputs.insert(n, l & 1 == 0);
                        self.fresh += 1;
                        return Sat::Sat(Rc::new(m));
                    }
                }
            }
        }
        let t0 = Instant::now();
        let k = Canon::of(c, goals);
        if let Some(true) = k.and_then(|k| self.alone.get(&k)) {
            self.repeated += 1;
            return Sat::Unsat;
        }
        self.queries += 1;
        let r = match self.check2(c, pc, goals, base) {
            Ok(r) => r,
            Err(e) => {
                self.p = None;
                self.pf = None;
                Sat::Unknown(e)
            }
        };
        match &r {
            Sat::Sat(_) => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown(_) => self.unknown += 1,
        }
        // does it need the path condition at all?
        if let (Sat::Unsat, Some(k), true) = (&r, k, t0.elapsed().as_millis() > 300) {
            if !self.alone.contains_key(&k) {
                self.queries += 1;
                let u = if pc.is_empty() { Ok(Sat::Unsat) } else { self.check2(c, &[], goals, base) };
                match u {
                    Ok(Sat::Unsat) => {
                        self.unsat += 1;
                        self.alone.insert(k, true);
                    }
                    Ok(Sat::Sat(_)) => {
                        self.sat += 1;
                        self.alone.insert(k, false);
                    }
                    _ => {
                        self.p = None;
                        self.pf = None;
                        self.alone.insert(k, false);
                    }
                }
            }
        }
        self.time += t0.elapsed();
        if t0.elapsed().as_millis() > 2000 && std::env::var("IRSYM_SLOW").is_ok() {
            eprintln!("slow query {:?} pc={} aig={} {}", t0.elapsed(), pc.len(), c.g.len(), match &r { Sat::Sat(_) => "sat", Sat::Unsat => "unsat", _ => "?" });
        }
        r
    }

    pub fn show(c: &Ctx, t: TermId) -> String {
        let p = &c.fp.terms[t as usize];
        let mut o = format!("[{} terms]", p.t.len());
        for (m, k) in p.t.iter().take(12) {
            let ms: Vec<String> = m.iter().map(|a| match &c.fp.atoms[*a as usize] { Atom::Var(_, n) => n.clone(), Atom::Bool(l) => format!("b{}", l), Atom::Uf(i) => format!("{}#{}", c.fp.ufnames[c.fp.apps[*i as usize].uf as usize], i), Atom::Inv(t) => format!("1/t{}", t), Atom::Comp(_, b) => format!("comp{}x{:?}", b.len(), b[0]) }).collect();
            o += &format!(" + {:x?}*{}", c.fp.fields[p.f].dec(k)[0], ms.join("*"));
        }
        o
    }
    fn check2(&mut self, c: &mut Ctx, pc: &[Pc], goals: &[Lit], base: &Rc<Model>) -> Result<Sat, String> {
        // relevant path constraints
        let mut cone = Cone::default();
        for l in goals {
            cone.lit(c, *l);
        }
        let mut keys: FxSet<u32> = cone.keys(c).into_iter().collect();
        let mut lits: Vec<Lit> = goals.to_vec();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if !used[i] && e.keys.iter().any(|k| keys.contains(k)) {
                    used[i] = true;
                    lits.push(e.lit);
                    for k in e.keys.iter() {
                        if keys.insert(*k) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut done_bits: HashSet<u32> = HashSet::new();
        let mut done_comp: HashSet<u32> = HashSet::new();
        let mut done_pairs: HashSet<(u32, u32)> = HashSet::new();
        let mut cone = Cone::default();
        let mut k = 0;
        loop {
            while k < lits.len() {
                cone.lit(c, lits[k]);
                k += 1;
            }
            let mut more = vec![];
            for t in cone.bits.clone() {
                if done_bits.insert(t) {
                    if let Some(b) = c.fp.bits.get(&t) {
                        more.extend(b.1.iter().copied());
                    }
                }
            }
            for a in cone.fatoms.clone() {
                if done_comp.insert(a) {
                    if let Some((l, _)) = c.fp.comp.get(&a) {
                        more.push(*l);
                    }
                    if let Some(l) = c.fp.defs.get(&a) {
                        more.push(*l);
                    }
                }
            }
            let apps: Vec<u32> = cone.apps.iter().copied().collect();
            for i in 0..apps.len() {
                for j in i + 1..apps.len() {
                    let (a, b) = (apps[i], apps[j]);
                    if c.fp.apps[a as usize].uf == c.fp.apps[b as usize].uf && done_pairs.insert((a, b)) {
                        let Ctx { g, fp, .. } = c;
                        let l = fp.ackermann(g, a, b);
                        if l != T {
                            more.push(l);
                        }
                    }
                }
            }
            if more.is_empty() {
                break;
            }
            lits.extend(more);
        }
        if lits.iter().any(|l| *l == F) {
            return Ok(Sat::Unsat);
        }
        let usefp = !cone.exts.is_empty();
        let slot = if usefp { &mut self.pf } else { &mut self.p };
        let mut pr = slot.take();
        if pr.as_ref().map(|p| p.nq > 3000 || p.defined.len() > 3_000_000).unwrap_or(true) {
            pr = Some(self.spawn(!usefp));
        }
        let mut p = pr.unwrap();
        p.nq += 1;
        for l in &lits {
            Self::define(&mut p, c, *l);
        }
        p.buf.push_str("(push 1)\n");
        for l in &lits {
            let _ = writeln!(p.buf, "(assert {})", Self::name(*l));
        }
        let mut cuts: FxSet<u32> = Default::default();
        Self::assert_cuts(&mut p, &cone, &mut cuts);
        let mut rounds = 0;
        let mut lemma_set: HashSet<Vec<Lit>> = HashSet::new();
        let res;
        loop {
            rounds += 1;
            if rounds > 4000 {
                if std::env::var("IRSYM_DEBUG").is_ok() {
                    for (n, k) in &cone.eqs {
                        eprintln!("eq {} of node {}: {}", k, n, Self::show(c, c.fp.eqs[*k as usize]));
                    }
                    for l in lemma_set.iter().take(6) {
                        eprintln!("lemma {:?}", l);
                    }
                }
                res = Sat::Unknown("theory rounds".into());
                break;
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    res = Sat::Unknown("deadline".into());
                    break;
                }
            }
            p.buf.push_str("(check-sat)\n");
            Self::flush(&mut p)?;
            let a = Self::line(&mut p)?;
            match a.trim() {
                "unsat" => {
                    res = Sat::Unsat;
                    break;
                }
                "sat" => {}
                o => {
                    res = Sat::Unknown(format!("solver: {}", o));
                    break;
                }
            }
            // model of the inputs in the cone
            let mut want: Vec<u32> = cone.inputs.clone();
            want.extend(cone.eqs.iter().map(|e| e.0));
            for a in &cone.apps {
                if let Res::Bits(b) = &c.fp.apps[*a as usize].res {
                    want.extend(b.iter().map(|l| node(*l)).filter(|n| p.defined.contains(n)));
                }
            }
            for t in &cone.bits {
                if let Some(b) = c.fp.bits.get(t) {
                    want.extend(b.0.iter().map(|l| node(*l)).filter(|n| p.defined.contains(n)));
                }
            }
            let mut vals: FxMap<u32, bool> = Default::default();
            for ch in want.chunks(400) {
                p.buf.push_str("(get-value (");
                let mut any = false;
                for n in ch {
                    if p.defined.contains(n) {
                        let _ = write!(p.buf, "n{} ", n);
                        any = true;
                    }
                }
                p.buf.push_str("))\n");
                if !any {
                    // nothing to ask for
                    let k = p.buf.rfind("(get-value").unwrap();
                    p.buf.truncate(k);
                    continue;
                }
                Self::flush(&mut p)?;
                let mut txt = String::new();
                loop {
                    let l = Self::line(&mut p)?;
                    txt.push_str(&l);
                    let o = txt.bytes().filter(|b| *b == b'(').count();
                    let cl = txt.bytes().filter(|b| *b == b')').count();
                    if o == cl {
                        break;
                    }
                }
                let toks: Vec<&str> = txt.split(|ch: char| ch == '(' || ch == ')' || ch.is_whitespace()).filter(|s| !s.is_empty()).collect();
                for w in toks.chunks(2) {
                    if let Some(n) = w[0].strip_prefix('n') {
                        vals.insert(n.parse().unwrap(), w[1] == "true");
                    }
                }
            }
            if cone.eqs.is_empty() && cone.apps.is_empty() {
                let mut m = (**base).clone();
                for n in &cone.inputs {
                    m.inputs.insert(*n, vals.get(n).copied().unwrap_or(false));
                }
                res = Sat::Sat(Rc::new(m));
                break;
            }
            // boolean valuation for theory reasoning (FpEq, bits and applications as z3 chose)
            let bm = BoolVal { vals: &vals, memo: RefCell::new(Default::default()) };
            match self.theory(c, &cone, &bm, base) {
                Th::Model(m) => {
                    // the final word: every asserted literal holds in the model
                    if let Some(bad) = lits.iter().find(|l| !m.lit(c, **l)) {
                        res = Sat::Unknown(format!("model check failed on {}", bad));
                    } else {
                        res = Sat::Sat(Rc::new(m));
                    }
                    break;
                }
                Th::Lemmas(ls) => {
                    if std::env::var("IRSYM_DEBUG").is_ok() {
                        for (n, k) in &cone.eqs {
                            eprintln!("eq {} of node {}={:?}: {}", k, n, vals.get(n), Self::show(c, c.fp.eqs[*k as usize]));
                        }
                        for l in &ls {
                            eprintln!("lemma {:?}", l);
                        }
                    }
                    let mut newl = 0;
                    for l in ls {
                        let mut k = l.clone();
                        k.sort();
                        k.dedup();
                        if !lemma_set.insert(k.clone()) {
                            continue;
                        }
                        newl += 1;
                        self.lemmas += 1;
                        for x in &k {
                            Self::define(&mut p, c, *x);
                            cone.lit(c, *x);
                        }
                        p.buf.push_str("(assert (or false");
                        for x in &k {
                            let _ = write!(p.buf, " {}", Self::name(*x));
                        }
                        p.buf.push_str("))\n");
                    }
                    Self::assert_cuts(&mut p, &cone, &mut cuts);
                    if newl == 0 {
                        res = Sat::Unknown("no new lemma".into());
                        break;
                    }
                }
                Th::Fail(s) => {
                    if std::env::var("IRSYM_DEBUG").is_ok() {
                        for (n, k) in &cone.eqs {
                            eprintln!("eq {} of node {}={:?}: {}", k, n, vals.get(n), Self::show(c, c.fp.eqs[*k as usize]));
                        }
                    }
                    res = Sat::Unknown(s);
                    break;
                }
            }
        }
        // definitions made inside the scope vanish with it: forget everything defined after push
        // (z3 keeps define-fun declarations scoped), so restart bookkeeping conservatively.
        p.buf.push_str("(pop 1)\n");
        if rounds > 1 {
            // lemmas may have introduced definitions inside the scope
            p.nq = usize::MAX / 2;
        }
        if usefp {
            self.pf = Some(p);
        } else {
            self.p = Some(p);
        }
        Ok(res)
    }

    /// conflicts that hold whatever the values of the guards are: products of guards and field values
    /// count as unknowns of their own
    fn products(&mut self, c: &mut Ctx, cone: &Cone, bm: &BoolVal, lemmas: &mut Vec<Vec<Lit>>) {
        let mut eqs = vec![];
        let mut any = false;
        for (n, k) in &cone.eqs {
            let t = c.fp.eqs[*k as usize];
            if let Some(v) = bm.vals.get(n).copied() {
                let p = &c.fp.terms[t as usize];
                if p.t.len() > 60 {
                    continue;
                }
                let mixed = |m: &Mono| m.len() > 1 && m.iter().any(|a| c.fp.is_bool(*a)) && m.iter().any(|a| !c.fp.is_bool(*a));
                any |= p.t.iter().any(|(m, _)| mixed(m));
                let mut r = Row { f: p.f, ..Default::default() };
                for (m, k) in &p.t {
                    if m.iter().all(|a| c.fp.is_bool(*a)) {
                        r.cst.insert(m.clone(), *k);
                    } else {
                        r.lin.insert(m.clone(), *k);
                    }
                }
                r.reasons.insert((n << 1) | (!v) as u32);
                eqs.push((r, v));
            }
        }
        if !any {
            return;
        }
        eqs.sort_by_key(|(_, v)| !*v);
        let mut rows: Vec<Row> = vec![];
        for (mut r, v) in eqs {
            let f = r.f;
            let fl = c.fp.fields[f].clone();
            r.reduce(&rows, &fl, f);
            if r.lin.is_empty() {
                if (r.cst_val(c, bm, f) == big::ZERO) != v {
                    lemmas.push(r.conflict(c, bm, f, !v));
                }
                continue;
            }
            if v {
                r.normalise(&fl, c);
                rows.push(r);
            }
        }
    }
    fn theory(&mut self, c: &mut Ctx, cone: &Cone, bm: &BoolVal, base: &Rc<Model>) -> Th {
        let mut lemmas: Vec<Vec<Lit>> = vec![];
        self.products(c, cone, bm, &mut lemmas);
        if !lemmas.is_empty() {
            return Th::Lemmas(lemmas);
        }
        let mut rows: Vec<Row> = vec![]; // echelon rows, pivot monomial eliminated elsewhere lazily
        let mut pend: Vec<(Row, bool, usize)> = vec![]; // row, is_equality, field
        for (n, k) in &cone.eqs {
            let t = c.fp.eqs[*k as usize];
            let v = bm.vals.get(n).copied();
            let v = match v {
                Some(v) => v,
                None => continue,
            };
            let mut r = Row::build(c, t, bm);
            r.reasons.insert((n << 1) | (!v) as u32);
            let f = c.fp.terms[t as usize].f;
            pend.push((r, v, f));
        }
        let mut diseqs = vec![];
        for (r, eq, f) in pend {
            if !eq {
                diseqs.push((r, f));
                continue;
            }
            let mut r = r;
            let fl = c.fp.fields[f].clone();
            r.reduce(&rows, &fl, f);
            if r.lin.is_empty() {
                if r.cst_val(c, bm, f) != big::ZERO {
                    lemmas.push(r.conflict(c, bm, f, false));
                    if lemmas.len() > 20 {
                        return Th::Lemmas(lemmas);
                    }
                }
                continue;
            }
            r.f = f;
            r.normalise(&fl, c);
            rows.push(r);
        }
        // conflicts that need no values
        for (mut r, f) in diseqs.clone() {
            let fl = c.fp.fields[f].clone();
            r.reduce(&rows, &fl, f);
            if r.lin.is_empty() && r.cst_val(c, bm, f) == big::ZERO {
                lemmas.push(r.conflict(c, bm, f, true));
            }
        }
        if !lemmas.is_empty() {
            return Th::Lemmas(lemmas);
        }
        // values of atoms that follow from the linear rows, put into the products
        let mut fixed: BTreeMap<u32, (U, BTreeSet<Lit>)> = BTreeMap::new();
        loop {
            let inside: BTreeSet<u32> = rows.iter().chain(diseqs.iter().map(|(r, _)| r)).flat_map(|r| r.lin.keys()).filter(|m| m.len() > 1).flatten().copied().collect();
            let mut new: Option<(u32, (U, BTreeSet<Lit>))> = None;
            for r in &rows {
                if r.piv.len() != 1 || !inside.contains(&r.piv[0]) || fixed.contains_key(&r.piv[0]) {
                    continue;
                }
                let fl = c.fp.fields[r.f].clone();
                let mut t = r.clone();
                t.lin.remove(&r.piv);
                t.reduce(&rows, &fl, r.f);
                if !t.lin.is_empty() {
                    continue;
                }
                let v = fl.neg(&t.cst_val(c, bm, r.f));
                let mut why = t.reasons.clone();
                for a in t.cst.keys().flatten() {
                    if let Atom::Bool(b) = c.fp.atoms[*a as usize] {
                        why.insert(if bm.lit(c, b) { b } else { neg(b) });
                    }
                }
                new = Some((r.piv[0], (v, why)));
                break;
            }
            let (a, w) = match new {
                Some(x) => x,
                None => break,
            };
            fixed.insert(a, w);
            let mut old = vec![];
            let mut keep = vec![];
            for r in rows.drain(..) {
                if r.lin.keys().any(|m| m.len() > 1 && m.contains(&a)) {
                    old.push(r);
                } else {
                    keep.push(r);
                }
            }
            rows = keep;
            for mut r in old {
                let f = r.f;
                let fl = c.fp.fields[f].clone();
                loop {
                    r.put(&fixed, &fl);
                    r.reduce(&rows, &fl, f);
                    if !r.lin.keys().any(|m| m.len() > 1 && m.iter().any(|a| fixed.contains_key(a))) {
                        break;
                    }
                }
                if r.lin.is_empty() {
                    if r.cst_val(c, bm, f) != big::ZERO {
                        lemmas.push(r.conflict(c, bm, f, false));
                        if lemmas.len() > 20 {
                            return Th::Lemmas(lemmas);
                        }
                    }
                    continue;
                }
                r.normalise(&fl, c);
                rows.push(r);
            }
        }
        for (mut r, f) in diseqs.clone() {
            let fl = c.fp.fields[f].clone();
            r.reduce(&rows, &fl, f);
            while r.lin.keys().any(|m| m.len() > 1 && m.iter().any(|a| fixed.contains_key(a))) {
                r.put(&fixed, &fl);
                r.reduce(&rows, &fl, f);
            }
            if r.lin.is_empty() && r.cst_val(c, bm, f) == big::ZERO {
                lemmas.push(r.conflict(c, bm, f, true));
                if lemmas.len() > 20 {
                    return Th::Lemmas(lemmas);
                }
            }
        }
        if !lemmas.is_empty() {
            return Th::Lemmas(lemmas);
        }
        // zero products
        let prods: Vec<(TermId, (TermId, TermId))> = c.fp.products.iter().map(|(a, b)| (*a, *b)).collect();
        for (t, (a, b)) in prods {
            let p = &c.fp.terms[t as usize];
            let f = p.f;
            // only products all of whose field atoms are in the cone
            if p.t.iter().any(|(m, _)| m.iter().any(|x| !c.fp.is_bool(*x) && !cone.fatoms.contains(x))) {
                continue;
            }
            if p.t.iter().any(|(m, _)| {
                m.iter().any(|x| match c.fp.atoms[*x as usize] {
                    Atom::Bool(l) => !bm.known(c, l),
                    _ => false,
                })
            }) {
                continue;
            }
            let fl = c.fp.fields[f].clone();
            let mut r = Row::build(c, t, bm);
            if r.lin.is_empty() {
                continue;
            }
            r.reduce(&rows, &fl, f);
            if r.lin.is_empty() && r.cst_val(c, bm, f) == big::ZERO {
                let ct = r.cst_term(c, f);
                let Ctx { g, fp, .. } = c;
                let l = match fp.as_const(ct) {
                    Some(_) => T,
                    None => fp.is_zero(g, ct),
                };
                let x = fp.is_zero(g, a);
                let y = fp.is_zero(g, b);
                let mut cl: Vec<Lit> = r.reasons.iter().map(|x| neg(*x)).collect();
                cl.push(neg(l));
                cl.push(x);
                cl.push(y);
                let bv = |l: Lit| bm.known(c, l) && bm.lit(c, l);
                if !bv(x) && !bv(y) {
                    lemmas.push(cl);
                }
            }
        }
        if !lemmas.is_empty() {
            return Th::Lemmas(lemmas);
        }
        // build field values
        for attempt in 0..24 {
            if let Some(vals) = self.assign(c, &rows, bm, attempt) {
                // assemble a model: boolean inputs, field variables, function tables (in creation order)
                let mut m = (**base).clone();
                for n in &cone.inputs {
                    m.inputs.insert(*n, bm.vals.get(n).copied().unwrap_or(false));
                }
                for a in &cone.fatoms {
                    if let Atom::Var(f, _) = &c.fp.atoms[*a as usize] {
                        let f = *f;
                        let v = match vals.get(a) {
                            Some(v) => *v,
                            None => {
                                if attempt == 0 && m.fvars.contains_key(a) {
                                    m.fvars[a]
                                } else {
                                    c.fp.fields[f].random(&mut self.rng)
                                }
                            }
                        };
                        m.fvars.insert(*a, v);
                    }
                }
                for ap in &cone.apps {
                    let key = m.key(c, *ap);
                    let a = &c.fp.apps[*ap as usize];
                    match &a.res {
                        Res::Bits(b) => {
                            let v: Vec<bool> = b
                                .iter()
                                .enumerate()
                                .map(|(_, l)| bm.vals.get(&node(*l)).copied().unwrap_or(false))
                                .collect();
                            // bits outside the cone keep an earlier value if there is one
                            let old = m.ufb.get(&(a.uf, (*key).clone(), b.len())).cloned();
                            let v = v
                                .into_iter()
                                .enumerate()
                                .map(|(i, x)| if bm.vals.contains_key(&node(b[i])) { x } else { old.as_ref().map(|o| o[i]).unwrap_or(x) })
                                .collect();
                            m.ufb.insert((a.uf, (*key).clone(), b.len()), v);
                        }
                        Res::Field(at, _) => {
                            if let Some(v) = vals.get(at) {
                                m.uff.insert((a.uf, (*key).clone()), *v);
                            }
                        }
                    }
                    // evaluation caches are keyed by terms that may contain this application
                    m.memo.borrow_mut().clear();
                    m.tmemo.borrow_mut().clear();
                }
                m.akey.borrow_mut().clear();
                // verify the equalities
                let ok = cone.eqs.iter().all(|(n, k)| match bm.vals.get(n) {
                    Some(v) => (m.term(c, c.fp.eqs[*k as usize]) == big::ZERO) == *v,
                    None => true,
                });
                if ok {
                    return Th::Model(m);
                }
                if std::env::var("IRSYM_DEBUG").is_ok() {
                    for (n, k) in &cone.eqs {
                        eprintln!("attempt {}: eq {} wanted {:?}, value {:?}", attempt, k, bm.vals.get(n), m.term(c, c.fp.eqs[*k as usize]));
                    }
                }
            }
        }
        Th::Fail("no field assignment found".into())
    }

    /// replace an atom by a value
    fn fix(c: &Ctx, sys: &mut [(usize, BTreeMap<Mono, U>, U)], f: usize, pick: u32, v: &U) {
        let fl = &c.fp.fields[f];
        for r in sys.iter_mut() {
            if r.0 != f {
                continue;
            }
            let mut nl: BTreeMap<Mono, U> = BTreeMap::new();
            for (m, k) in &r.1 {
                let e = m.iter().filter(|a| **a == pick).count();
                let mut k = *k;
                for _ in 0..e {
                    k = fl.mul(&k, v);
                }
                let mm: Mono = m.iter().copied().filter(|a| *a != pick).collect();
                if mm.is_empty() {
                    r.2 = fl.add(&r.2, &k);
                } else {
                    let en = nl.entry(mm).or_insert(big::ZERO);
                    *en = fl.add(en, &k);
                }
            }
            nl.retain(|_, v| *v != big::ZERO);
            r.1 = nl;
        }
    }
    /// Solve the rows for the field atoms: random values for free atoms, making the rest linear.
    fn assign(&mut self, c: &Ctx, rows: &[Row], bm: &BoolVal, attempt: usize) -> Option<HashMap<u32, U>> {
        let mut val: HashMap<u32, U> = HashMap::new();
        let mut sys: Vec<(usize, BTreeMap<Mono, U>, U)> = rows.iter().map(|r| (r.f, r.lin.clone(), r.cst_val(c, bm, r.f))).collect();
        let field_of = |a: u32| -> usize {
            match &c.fp.atoms[a as usize] {
                Atom::Var(f, _) => *f,
                Atom::Uf(ap) => match c.fp.apps[*ap as usize].res {
                    Res::Field(_, f) => f,
                    _ => 0,
                },
                Atom::Inv(t) => c.fp.terms[*t as usize].f,
                Atom::Comp(f, _) => *f,
                _ => 0,
            }
        };
        // composed atoms have the value of their bits
        let mut comps: BTreeSet<u32> = BTreeSet::new();
        for r in &sys {
            for m in r.1.keys() {
                comps.extend(m.iter().copied().filter(|a| matches!(c.fp.atoms[*a as usize], Atom::Comp(..))));
            }
        }
        for a in comps {
            if let Atom::Comp(f, bits) = &c.fp.atoms[a as usize] {
                let fl = &c.fp.fields[*f];
                let (mut s, mut w) = (big::ZERO, fl.one);
                for l in bits.iter() {
                    if bm.lit(c, *l) {
                        s = fl.add(&s, &w);
                    }
                    w = fl.add(&w, &w);
                }
                val.insert(a, s);
                Self::fix(c, &mut sys, *f, a, &s);
            }
        }
        if sys.iter().any(|r| r.1.is_empty() && r.2 != big::ZERO) {
            return None;
        }
        sys.retain(|r| !r.1.is_empty());
        loop {
            // eliminate
            let mut piv: Vec<(usize, Mono)> = vec![];
            let n = sys.len();
            for i in 0..n {
                let f = sys[i].0;
                let fl = &c.fp.fields[f];
                // reduce row i by earlier pivots
                for (j, m) in piv.clone() {
                    if sys[j].0 != f {
                        continue;
                    }
                    if let Some(k) = sys[i].1.get(&m).copied() {
                        let (l2, c2) = (sys[j].1.clone(), sys[j].2);
                        for (mm, kk) in l2 {
                            let e = sys[i].1.entry(mm.clone()).or_insert(big::ZERO);
                            *e = fl.sub(e, &fl.mul(&k, &kk));
                            if *e == big::ZERO {
                                sys[i].1.remove(&mm);
                            }
                        }
                        sys[i].2 = fl.sub(&sys[i].2, &fl.mul(&k, &c2));
                    }
                }
                if sys[i].1.is_empty() {
                    if sys[i].2 != big::ZERO {
                        return None;
                    }
                    continue;
                }
                // prefer a nonlinear monomial as pivot so that linear rows surface; otherwise any
                let m = sys[i].1.keys().max_by_key(|m| m.len()).unwrap().clone();
                let iv = fl.inverse(&sys[i].1[&m]);
                for v in sys[i].1.values_mut() {
                    *v = fl.mul(v, &iv);
                }
                sys[i].2 = fl.mul(&sys[i].2, &iv);
                // eliminate m from the earlier rows
                let (li, ci) = (sys[i].1.clone(), sys[i].2);
                for j in 0..i {
                    if sys[j].0 != f {
                        continue;
                    }
                    if let Some(k) = sys[j].1.get(&m).copied() {
                        for (mm, kk) in &li {
                            let e = sys[j].1.entry(mm.clone()).or_insert(big::ZERO);
                            *e = fl.sub(e, &fl.mul(&k, kk));
                            if *e == big::ZERO {
                                sys[j].1.remove(mm);
                            }
                        }
                        sys[j].2 = fl.sub(&sys[j].2, &fl.mul(&k, &ci));
                    }
                }
                piv.push((i, m));
            }
            sys.retain(|r| !r.1.is_empty());
            // any nonlinear monomials left?
            let mut count: BTreeMap<u32, usize> = BTreeMap::new();
            for r in &sys {
                for m in r.1.keys() {
                    if m.len() > 1 {
                        for a in m {
                            *count.entry(*a).or_default() += 1;
                        }
                    }
                }
            }
            if count.is_empty() {
                // fix free atoms, then pivots
                let pivs: HashSet<u32> = sys.iter().map(|r| *r.1.keys().max_by_key(|m| m.len()).unwrap().first().unwrap()).collect();
                // choose as pivot the last key for determinism; recompute consistently
                let mut ok_rows: Vec<(u32, usize)> = vec![];
                let mut taken: HashSet<u32> = HashSet::new();
                for (i, r) in sys.iter().enumerate() {
                    let p = r.1.keys().map(|m| m[0]).find(|a| {
                        !taken.contains(a) && sys.iter().enumerate().all(|(j, q)| j == i || !q.1.contains_key(&vec![*a]))
                    });
                    match p {
                        Some(a) => {
                            taken.insert(a);
                            ok_rows.push((a, i));
                        }
                        None => return None,
                    }
                }
                let _ = pivs;
                for r in &sys {
                    for m in r.1.keys() {
                        let a = m[0];
                        if !taken.contains(&a) && !val.contains_key(&a) {
                            let v = c.fp.fields[field_of(a)].random(&mut self.rng);
                            val.insert(a, v);
                        }
                    }
                }
                for (a, i) in ok_rows {
                    let (f, l, k) = &sys[i];
                    let fl = &c.fp.fields[*f];
                    let mut s = *k;
                    let mut co = fl.one;
                    for (m, kk) in l {
                        if m[0] == a {
                            co = *kk;
                        } else {
                            s = fl.add(&s, &fl.mul(kk, &val[&m[0]]));
                        }
                    }
                    let v = fl.mul(&fl.neg(&s), &fl.inverse(&co));
                    val.insert(a, v);
                }
                return Some(val);
            }
            // fix one atom of the nonlinear monomials
            let mut cands: Vec<(usize, u32)> = count.iter().map(|(a, n)| (*n, *a)).collect();
            cands.sort_by(|x, y| y.cmp(x));
            let pick = match attempt % 4 {
                0 => cands[0].1,
                1 => cands[cands.len() - 1].1,
                _ => cands[(self.rng.next() % cands.len() as u64) as usize].1,
            };
            let f = field_of(pick);
            let fl = &c.fp.fields[f];
            let v = if attempt >= 4 && self.rng.next() % 3 == 0 {
                big::ZERO
            } else if attempt >= 4 && self.rng.next() % 3 == 0 {
                fl.one
            } else {
                fl.random(&mut self.rng)
            };
            val.insert(pick, v);
            Self::fix(c, &mut sys, f, pick, &v);
            if sys.iter().any(|r| r.1.is_empty() && r.2 != big::ZERO) {
                return None;
            }
            sys.retain(|r| !r.1.is_empty());
        }
    }
}

enum Th {
    Model(Model),
    Lemmas(Vec<Vec<Lit>>),
    Fail(String),
}

struct BoolVal<'a> {
    vals: &'a FxMap<u32, bool>,
    memo: RefCell<FxMap<u32, bool>>,
}
impl<'a> BoolVal<'a> {
    /// all inputs below the literal were given a value by the solver
    fn known(&self, c: &Ctx, l: Lit) -> bool {
        let mut st = vec![node(l)];
        let mut seen: FxSet<u32> = Default::default();
        while let Some(n) = st.pop() {
            if n == 0 || !seen.insert(n) {
                continue;
            }
            match c.g.kind[n as usize] {
                Kind::Const => {}
                Kind::Input => {
                    if !self.vals.contains_key(&n) {
                        return false;
                    }
                }
                _ => {
                    st.push(node(c.g.a[n as usize]));
                    st.push(node(c.g.b[n as usize]));
                }
            }
        }
        true
    }
    fn lit(&self, c: &Ctx, l: Lit) -> bool {
        self.node(c, node(l)) ^ (l & 1 == 1)
    }
    fn node(&self, c: &Ctx, n: u32) -> bool {
        let mut st = vec![n];
        while let Some(&m) = st.last() {
            if m == 0 || self.memo.borrow().contains_key(&m) {
                st.pop();
                continue;
            }
            match c.g.kind[m as usize] {
                Kind::Const => {
                    st.pop();
                }
                Kind::Input => {
                    let v = self.vals.get(&m).copied().unwrap_or(false);
                    self.memo.borrow_mut().insert(m, v);
                    st.pop();
                }
                k => {
                    let (a, b) = (c.g.a[m as usize], c.g.b[m as usize]);
                    let get = |l: Lit| -> Option<bool> {
                        if node(l) == 0 {
                            return Some(l == T);
                        }
                        self.memo.borrow().get(&node(l)).map(|v| *v ^ (l & 1 == 1))
                    };
                    match (get(a), get(b)) {
                        (Some(x), Some(y)) => {
                            let v = if k == Kind::And { x && y } else { x ^ y };
                            self.memo.borrow_mut().insert(m, v);
                            st.pop();
                        }
                        (x, y) => {
                            if x.is_none() {
                                st.push(node(a));
                            }
                            if y.is_none() {
                                st.push(node(b));
                            }
                        }
                    }
                }
            }
        }
        if n == 0 { false } else { *self.memo.borrow().get(&n).unwrap() }
    }
}

#[derive(Clone, Default)]
struct Row {
    f: usize,
    piv: Mono,
    lin: BTreeMap<Mono, U>,
    cst: BTreeMap<Mono, U>,
    reasons: BTreeSet<Lit>,
}
impl Row {
    fn build(c: &Ctx, t: TermId, bm: &BoolVal) -> Row {
        let p = &c.fp.terms[t as usize];
        let fl = &c.fp.fields[p.f];
        let mut r = Row { f: p.f, ..Default::default() };
        for (m, k) in &p.t {
            let fm: Mono = m.iter().copied().filter(|a| !c.fp.is_bool(*a)).collect();
            if fm.is_empty() {
                let e = r.cst.entry(m.clone()).or_insert(big::ZERO);
                *e = fl.add(e, k);
                continue;
            }
            let bl: Vec<Lit> = m
                .iter()
                .filter_map(|a| match c.fp.atoms[*a as usize] {
                    Atom::Bool(l) => Some(l),
                    _ => None,
                })
                .collect();
            if let Some(l) = bl.iter().find(|l| !bm.lit(c, **l)) {
                r.reasons.insert(neg(*l));
                continue;
            }
            // composed atoms that are zero
            let z = fm.iter().find_map(|a| c.fp.comp.get(a).filter(|(_, z)| bm.lit(c, *z)));
            if let (Some((_, z)), true) = (z, fm.len() > 1) {
                r.reasons.insert(*z);
                continue;
            }
            r.reasons.extend(bl);
            let e = r.lin.entry(fm).or_insert(big::ZERO);
            *e = fl.add(e, k);
        }
        r.lin.retain(|_, v| *v != big::ZERO);
        r.cst.retain(|_, v| *v != big::ZERO);
        r
    }
    fn reduce(&mut self, rows: &[Row], fl: &big::Field, f: usize) {
        // rows are kept mutually unreduced: repeat until no pivot occurs
        let mut again = true;
        while again {
            again = false;
            for r in rows.iter().filter(|r| r.f == f) {
                if let Some(k) = self.lin.get(&r.piv).copied() {
                    again = true;
                    for (m, v) in &r.lin {
                        let e = self.lin.entry(m.clone()).or_insert(big::ZERO);
                        *e = fl.sub(e, &fl.mul(&k, v));
                        if *e == big::ZERO {
                            self.lin.remove(m);
                        }
                    }
                    for (m, v) in &r.cst {
                        let e = self.cst.entry(m.clone()).or_insert(big::ZERO);
                        *e = fl.sub(e, &fl.mul(&k, v));
                        if *e == big::ZERO {
                            self.cst.remove(m);
                        }
                    }
                    self.reasons.extend(r.reasons.iter().copied());
                }
            }
        }
    }
    fn normalise(&mut self, fl: &big::Field, _c: &Ctx) {
        // the pivot is the largest monomial in a degree-first order; because later rows are reduced
        // by earlier ones and earlier rows never contain later pivots' ... they may, so reduction
        // iterates (it terminates: each step removes the pivot of a row whose remaining monomials
        // are smaller in the order)
        let m = self.lin.keys().max_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b))).unwrap().clone();
        let iv = fl.inverse(&self.lin[&m]);
        for v in self.lin.values_mut() {
            *v = fl.mul(v, &iv);
        }
        for v in self.cst.values_mut() {
            *v = fl.mul(v, &iv);
        }
        self.piv = m;
    }
    fn cst_val(&self, c: &Ctx, bm: &BoolVal, f: usize) -> U {
        let fl = &c.fp.fields[f];
        let mut s = big::ZERO;
        for (m, k) in &self.cst {
            let on = m.iter().all(|a| match c.fp.atoms[*a as usize] {
                Atom::Bool(l) => bm.lit(c, l),
                _ => unreachable!(),
            });
            if on {
                s = fl.add(&s, k);
            }
        }
        s
    }
    /// atoms with known values replaced in the products
    fn put(&mut self, fixed: &BTreeMap<u32, (U, BTreeSet<Lit>)>, fl: &big::Field) {
        let hit: Vec<Mono> = self.lin.keys().filter(|m| m.len() > 1 && m.iter().any(|a| fixed.contains_key(a))).cloned().collect();
        for m in hit {
            let mut k = self.lin.remove(&m).unwrap();
            let mut rest = vec![];
            for a in &m {
                match fixed.get(a) {
                    Some((v, why)) => {
                        k = fl.mul(&k, v);
                        self.reasons.extend(why.iter().copied());
                    }
                    None => rest.push(*a),
                }
            }
            let map = if rest.is_empty() { &mut self.cst } else { &mut self.lin };
            let e = map.entry(rest.clone()).or_insert(big::ZERO);
            *e = fl.add(e, &k);
            if *e == big::ZERO {
                map.remove(&rest);
            }
        }
    }
    /// the clause that excludes this row: its reasons make the constant part zero (an equality that
    /// does not hold) or nonzero (a disequality)
    fn conflict(&self, c: &mut Ctx, bm: &BoolVal, f: usize, diseq: bool) -> Vec<Lit> {
        let ct = self.cst_term(c, f);
        let Ctx { g, fp, .. } = c;
        let l = match fp.as_const(ct) {
            Some(k) => {
                if k == big::ZERO {
                    T
                } else {
                    F
                }
            }
            None => fp.is_zero(g, ct),
        };
        let mut cl: Vec<Lit> = self.reasons.iter().map(|x| neg(*x)).collect();
        cl.push(if diseq { neg(l) } else { l });
        let raw = match c.g.inputs.get(&node(l)) {
            Some(Input::FpEq(k)) => c.fp.terms[c.fp.eqs[*k as usize] as usize].t.iter().all(|(m, _)| m.iter().all(|a| c.fp.is_bool(*a))),
            _ => false,
        };
        if raw {
            // no exact boolean form: block the guards as well
            if std::env::var("IRSYM_DEBUG").is_ok() { eprintln!("blocking {}", Solver::show(c, ct)); }
            cl.pop();
            for a in self.cst.keys().flatten() {
                if let Atom::Bool(b) = c.fp.atoms[*a as usize] {
                    cl.push(if bm.lit(c, b) { neg(b) } else { b });
                }
            }
        }
        cl
    }
    fn cst_term(&self, c: &mut Ctx, f: usize) -> TermId {
        let p = c.fp.norm(f, self.cst.clone());
        c.fp.intern(p)
    }
}

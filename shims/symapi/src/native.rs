//! Concrete runtime behind the same calls.
use crate::big::{self, Field, U};
use crate::defaults;
use std::cell::RefCell;
use std::collections::HashMap;

/// memory must be given back as what it was taken as; the system's allocator would not notice
struct Checked;
fn mismatch(was: usize, l: &std::alloc::Layout) -> ! {
    eprintln!("memory: allocation of {} bytes released as {} bytes", was, l.size());
    std::process::exit(99)
}
unsafe impl std::alloc::GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let a = l.align().max(16);
        let p = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(l.size() + a, a));
        if p.is_null() {
            return p;
        }
        let p = p.add(a);
        *(p as *mut usize).sub(1) = l.size();
        *(p as *mut usize).sub(2) = l.align();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let (n, was) = (*(p as *mut usize).sub(1), *(p as *mut usize).sub(2));
        if n != l.size() || was != l.align() {
            mismatch(n, &l);
        }
        let a = l.align().max(16);
        std::alloc::System.dealloc(p.sub(a), std::alloc::Layout::from_size_align_unchecked(l.size() + a, a));
    }
}
#[global_allocator]
static ALLOC: Checked = Checked;

enum A {
    Bits(Vec<bool>),
    Fe(usize),
}
struct Rt {
    fields: Vec<Field>,
    vals: Vec<(usize, U)>, // field, Montgomery residue
    b: HashMap<String, Vec<u8>>,
    f: HashMap<String, U>,
    ub: HashMap<(String, Vec<u8>, usize), Vec<u8>>,
    uf: HashMap<(String, Vec<u8>), U>,
    occ: HashMap<String, u32>,
    args: Vec<A>,
    allow: bool,
}
thread_local! { static RT: RefCell<Option<Rt>> = RefCell::new(None); }

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn to_u(b: &[u8]) -> U {
    let mut u = big::ZERO;
    for (i, x) in b.iter().enumerate() {
        if i < 48 {
            u[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
    }
    u
}
fn with<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_none() {
            let mut rt = Rt {
                fields: big::fields(),
                vals: vec![],
                b: HashMap::new(),
                f: HashMap::new(),
                ub: HashMap::new(),
                uf: HashMap::new(),
                occ: HashMap::new(),
                args: vec![],
                allow: false,
            };
            if let Ok(p) = std::env::var("SYM_MODEL") {
                let t = std::fs::read_to_string(&p).expect("model file");
                for l in t.lines() {
                    // input names may contain blanks: the last columns are fixed
                    let w: Vec<&str> = l.split(' ').collect();
                    match w[0] {
                        "b" => {
                            rt.b.insert(w[1..w.len() - 1].join(" "), unhex(w[w.len() - 1]));
                        }
                        "f" => {
                            rt.f.insert(w[1..w.len() - 1].join(" "), to_u(&unhex(w[w.len() - 1])));
                        }
                        "u" => {
                            let n = w.len();
                            rt.ub.insert((w[1..n - 3].join(" "), unhex(w[n - 3]), w[n - 2].parse().unwrap()), unhex(w[n - 1]));
                        }
                        "v" => {
                            let n = w.len();
                            rt.uf.insert((w[1..n - 2].join(" "), unhex(w[n - 2])), to_u(&unhex(w[n - 1])));
                        }
                        _ => {}
                    }
                }
            }
            *r = Some(rt);
        }
        f(r.as_mut().unwrap())
    })
}
impl Rt {
    fn name(&mut self, p: *const u8, l: usize) -> String {
        let s = str_of(p, l);
        let k = self.occ.entry(s.clone()).or_insert(0);
        let r = if *k == 0 { s } else { format!("{}#{}", s, k) };
        *k += 1;
        r
    }
    fn push(&mut self, f: usize, v: U) -> u32 {
        self.vals.push((f, v));
        self.vals.len() as u32 - 1
    }
    fn key(&mut self) -> Vec<u8> {
        let mut k = vec![];
        for a in std::mem::take(&mut self.args) {
            match a {
                A::Bits(b) => defaults::key_bits(&mut k, &b),
                A::Fe(i) => {
                    let (f, v) = self.vals[i];
                    defaults::key_field(&mut k, &self.fields[f].dec(&v));
                }
            }
        }
        k
    }
}
fn str_of(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, l) }).into_owned()
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    (0..8 * b.len()).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect()
}

pub unsafe fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize) {
    with(|r| {
        let s = r.name(name, l);
        let v = r.b.get(&s).cloned().unwrap_or_default();
        for i in 0..n {
            *p.add(i) = v.get(i).copied().unwrap_or(0);
        }
    })
}
pub unsafe fn sym_u64(name: *const u8, l: usize, bits: u32) -> u64 {
    with(|r| {
        let s = r.name(name, l);
        let v = r.b.get(&s).cloned().unwrap_or_default();
        let u = to_u(&v)[0];
        if bits >= 64 { u } else { u & ((1 << bits) - 1) }
    })
}
pub unsafe fn sym_bool(name: *const u8, l: usize) -> bool {
    sym_u64(name, l, 1) == 1
}
pub unsafe fn sym_assume(b: bool) {
    if !b {
        println!("assume_failed");
        std::process::exit(11);
    }
}
pub unsafe fn sym_check(b: bool, label: *const u8, l: usize) {
    println!("check {} {}", str_of(label, l), b as u8);
    if !b {
        std::process::exit(10);
    }
}
pub unsafe fn sym_reach(label: *const u8, l: usize) {
    println!("reach {} 1", str_of(label, l));
}
pub unsafe fn sym_note(label: *const u8, l: usize, v: u64) {
    println!("note {} {}", str_of(label, l), v);
}
pub unsafe fn sym_allow_panic(b: bool) {
    with(|r| r.allow = b)
}
pub unsafe fn sym_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c { a } else { b }
}
pub unsafe fn sym_and(a: bool, b: bool) -> bool {
    a & b
}
pub unsafe fn sym_under(a: bool) -> bool {
    a
}
pub unsafe fn sym_is_concrete(_a: bool) -> bool {
    true
}
pub unsafe fn sym_settle(a: bool) -> bool {
    a
}
pub unsafe fn sym_or(a: bool, b: bool) -> bool {
    a | b
}
pub unsafe fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}
pub unsafe fn sym_native() -> bool {
    true
}
pub unsafe fn fp_const(f: u32, limbs: *const u64) -> u32 {
    with(|r| {
        let mut u = big::ZERO;
        for i in 0..6 {
            u[i] = *limbs.add(i);
        }
        let v = r.fields[f as usize].enc(&u);
        r.push(f as usize, v)
    })
}
pub unsafe fn fp_var(f: u32, name: *const u8, l: usize) -> u32 {
    with(|r| {
        let s = r.name(name, l);
        let fl = &r.fields[f as usize];
        let v = match r.f.get(&s) {
            Some(u) => fl.enc(u),
            None => defaults::field(fl, s.as_bytes()),
        };
        r.push(f as usize, v)
    })
}
fn bin(a: u32, b: u32, g: impl FnOnce(&Field, &U, &U) -> U) -> u32 {
    with(|r| {
        let (f, x) = r.vals[a as usize];
        let (h, y) = r.vals[b as usize];
        assert_eq!(f, h);
        let v = g(&r.fields[f], &x, &y);
        r.push(f, v)
    })
}
pub unsafe fn fp_add(a: u32, b: u32) -> u32 {
    bin(a, b, |f, x, y| f.add(x, y))
}
pub unsafe fn fp_sub(a: u32, b: u32) -> u32 {
    bin(a, b, |f, x, y| f.sub(x, y))
}
pub unsafe fn fp_mul(a: u32, b: u32) -> u32 {
    bin(a, b, |f, x, y| f.mul(x, y))
}
pub unsafe fn fp_neg(a: u32) -> u32 {
    bin(a, a, |f, x, _| f.neg(x))
}
pub unsafe fn fp_inv(a: u32) -> u32 {
    bin(a, a, |f, x, _| f.inverse(x))
}
pub unsafe fn fp_eq(a: u32, b: u32) -> bool {
    with(|r| {
        assert_eq!(r.vals[a as usize].0, r.vals[b as usize].0);
        r.vals[a as usize].1 == r.vals[b as usize].1
    })
}
pub unsafe fn fp_ite(c: bool, a: u32, b: u32) -> u32 {
    if c { a } else { b }
}
pub unsafe fn fp_from_bool(f: u32, b: bool) -> u32 {
    let l = [b as u64, 0, 0, 0, 0, 0];
    fp_const(f, l.as_ptr())
}
pub unsafe fn fp_to_bytes(a: u32, out: *mut u8, n: usize) {
    with(|r| {
        let (f, v) = r.vals[a as usize];
        let u = r.fields[f].dec(&v);
        for i in 0..n {
            *out.add(i) = if i < 48 { (u[i / 8] >> (8 * (i % 8))) as u8 } else { 0 };
        }
    })
}
pub unsafe fn fp_from_bytes(f: u32, p: *const u8, n: usize) -> u32 {
    with(|r| {
        let fl = r.fields[f as usize].clone();
        let b = std::slice::from_raw_parts(p, n);
        let mut v = big::ZERO;
        for bit in bits_of(b).iter().rev() {
            v = fl.add(&v, &v);
            if *bit {
                v = fl.add(&v, &fl.one);
            }
        }
        r.push(f as usize, v)
    })
}
pub unsafe fn uf_begin() {
    with(|r| r.args.clear())
}
pub unsafe fn uf_arg_bytes(p: *const u8, n: usize) {
    let b = if n == 0 { vec![] } else { bits_of(std::slice::from_raw_parts(p, n)) };
    with(|r| r.args.push(A::Bits(b)))
}
pub unsafe fn uf_arg_u64(v: u64) {
    with(|r| r.args.push(A::Bits(bits_of(&v.to_le_bytes()))))
}
pub unsafe fn uf_arg_fp(a: u32) {
    with(|r| r.args.push(A::Fe(a as usize)))
}
fn ufb(name: String, n: usize) -> Vec<bool> {
    with(|r| {
        let k = r.key();
        let mut dk = name.clone().into_bytes();
        dk.extend_from_slice(&k);
        match r.ub.get(&(name, k, n)) {
            Some(v) => bits_of(v)[..n].to_vec(),
            None => defaults::bits(n, &dk),
        }
    })
}
pub unsafe fn uf_bytes(name: *const u8, l: usize, out: *mut u8, n: usize) {
    let v = ufb(str_of(name, l), 8 * n);
    for i in 0..n {
        *out.add(i) = (0..8).fold(0, |a, k| a | ((v[8 * i + k] as u8) << k));
    }
}
pub unsafe fn uf_bool(name: *const u8, l: usize) -> bool {
    ufb(str_of(name, l), 1)[0]
}
pub unsafe fn uf_fp(name: *const u8, l: usize, f: u32) -> u32 {
    let s = str_of(name, l);
    with(|r| {
        let k = r.key();
        let mut dk = s.clone().into_bytes();
        dk.extend_from_slice(&k);
        // the table holds residues
        let v = match r.uf.get(&(s, k)) {
            Some(v) => *v,
            None => defaults::field(&r.fields[f as usize], &dk),
        };
        r.push(f as usize, v)
    })
}

/// Runs one harness of a table: argv[1] is its name.
pub fn main(table: &[(&str, extern "C" fn())]) {
    let n = std::env::args().nth(1).expect("harness name");
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        println!("panic");
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(12);
    }));
    for (k, f) in table {
        if *k == n {
            f();
            println!("end");
            return;
        }
    }
    eprintln!("no harness {}", n);
    std::process::exit(13);
}

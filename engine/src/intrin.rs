//! Built-in functions: LLVM intrinsics, the allocator, a few libc functions, and the harness API.
use crate::aig::*;
use crate::exec::*;
use crate::fp::{Arg, Res};
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum B {
    None,
    Llvm(String),
    Api(String),
    Panic,
    Nop,
    Zero,
    Alloc(bool),
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    PosixMemalign,
    RandomKeys,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
}

pub fn classify(name: &str, defined: bool) -> B {
    if let Some(r) = name.strip_prefix("llvm.") {
        return B::Llvm(r.to_string());
    }
    if name.starts_with("sym_") || name.starts_with("fp_") || name.starts_with("uf_") {
        return B::Api(name.to_string());
    }
    let has = |s: &str| name.contains(s);
    if has("__rust_no_alloc_shim") {
        return B::Nop;
    }
    if has("__rust_alloc_zeroed") {
        return B::Alloc(true);
    }
    if has("__rust_alloc_error_handler") || has("handle_alloc_error") {
        return B::Panic;
    }
    if has("__rust_alloc") {
        return B::Alloc(false);
    }
    if has("__rust_dealloc") {
        return B::Dealloc;
    }
    if has("__rust_realloc") {
        return B::Realloc;
    }
    if has("hashmap_random_keys") {
        return B::RandomKeys;
    }
    if has("panic_count") || has("6thread9panicking") || has("catch_unwind") || has("panicking3try") {
        return if defined { B::None } else { B::Zero };
    }
    if has("4core9panicking") || has("3std9panicking") || has("9panicking") || has("rust_begin_unwind") || has("rust_panic") || name == "abort" || name == "exit" || has("7process5abort") {
        return B::Panic;
    }
    if has("2io5stdio6_print") || has("2io5stdio7_eprint") {
        return B::Nop;
    }
    match name {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::CRealloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "memcmp" | "bcmp" => B::Memcmp,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "strlen" => B::Strlen,
        "getenv" | "__cxa_thread_atexit_impl" | "__errno_location" => B::Zero,
        _ if name.starts_with("pthread_") => B::Zero,
        _ => B::None,
    }
}

fn c(v: &Val) -> u64 {
    match v {
        Val::C(x) => *x,
        _ => u64::MAX,
    }
}

impl Exec {
    pub fn builtin(&mut self, st: &mut State, name: &str, av: &[Val], args: &[(TyId, Opd)], rty: TyId) -> R<Option<Val>> {
        let b = match self.bcache.get(name) {
            Some(b) => b.clone(),
            None => {
                let b = Rc::new(classify(name, self.m.funcs.contains_key(name)));
                self.bcache.insert(name.to_string(), b.clone());
                b
            }
        };
        let unit = Some(Val::C(0));
        Ok(match &*b {
            B::None => None,
            B::Nop => unit,
            B::Zero => Some(self.zero(rty)),
            B::Panic => return Err(self.panic_path(st, name)),
            B::RandomKeys => Some(Val::A(Rc::new(vec![Val::C(1), Val::C(2)]))),
            B::Alloc(_) => {
                let n = self.conc(st, &av[0], 64)?;
                let al = self.conc(st, &av[1], 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Abort(format!("allocation of {} bytes", n)));
                }
                Some(Val::C(st.mem.alloc(n, al, OKind::Heap)))
            }
            B::Malloc | B::Calloc => {
                let mut n = self.conc(st, &av[0], 64)?;
                if *b == B::Calloc {
                    n *= self.conc(st, &av[1], 64)?;
                }
                if n > 1 << 26 {
                    return Err(Stop::Abort(format!("allocation of {} bytes", n)));
                }
                Some(Val::C(st.mem.alloc(n, 16, OKind::Heap)))
            }
            B::PosixMemalign => {
                let n = self.conc(st, &av[2], 64)?;
                let p = self.conc(st, &av[0], 64)?;
                let a = st.mem.alloc(n, 16, OKind::Heap);
                let t = self.m.int(64);
                self.store(st, p, t, &Val::C(a))?;
                unit
            }
            B::Dealloc => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                self.dealloc(st, p, Some(n))?;
                unit
            }
            B::Free => {
                let p = self.conc(st, &av[0], 64)?;
                if p != 0 {
                    self.dealloc(st, p, None)?;
                }
                unit
            }
            B::Realloc | B::CRealloc => {
                let p = self.conc(st, &av[0], 64)?;
                let (old, new) = if *b == B::Realloc {
                    (Some(self.conc(st, &av[1], 64)?), self.conc(st, &av[3], 64)?)
                } else {
                    (None, self.conc(st, &av[1], 64)?)
                };
                if new > 1 << 26 {
                    return Err(Stop::Abort(format!("allocation of {} bytes", new)));
                }
                let a = st.mem.alloc(new, 16, OKind::Heap);
                if p != 0 {
                    let sz = match self.obj(st, p) {
                        Some((o, 0)) => o.size,
                        _ => return Err(self.viol(st, "memory: reallocation of an invalid pointer")),
                    };
                    let d = self.read(st, p, sz.min(new))?;
                    self.write(st, a, &d)?;
                    self.dealloc(st, p, old)?;
                }
                Some(Val::C(a))
            }
            B::Memcmp => {
                let p = self.conc(st, &av[0], 64)?;
                let q = self.conc(st, &av[1], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                let x = self.read_lits(st, p, n)?;
                let y = self.read_lits(st, q, n)?;
                let w = self.width(rty);
                if name == "bcmp" {
                    let e = self.c.g.eq(&x, &y);
                    let mut r = vec![F; w as usize];
                    r[0] = neg(e);
                    Some(self.mk(r))
                } else {
                    // sign of the first difference: big-endian comparison
                    let rev = |v: &[Lit]| -> Vec<Lit> { v.chunks(8).rev().flatten().copied().collect() };
                    let (a, b) = (rev(&x), rev(&y));
                    let e = self.c.g.eq(&a, &b);
                    let lt = self.c.g.ult(&a, &b);
                    let mut r = vec![lt; w as usize];
                    r[0] = neg(e);
                    Some(self.mk(r))
                }
            }
            B::Memcpy => {
                let p = self.conc(st, &av[0], 64)?;
                let q = self.conc(st, &av[1], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                let d = self.read(st, q, n)?;
                self.write(st, p, &d)?;
                Some(Val::C(p))
            }
            B::Memset => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                let l: Vec<Lit> = self.bits(&av[1], 32)[..8].to_vec();
                let mut v = vec![];
                for _ in 0..n {
                    v.extend_from_slice(&l);
                }
                self.write_lits(st, p, &v)?;
                Some(Val::C(p))
            }
            B::Strlen => {
                let p = self.conc(st, &av[0], 64)?;
                let mut n = 0;
                loop {
                    let b = self.read(st, p + n, 1)?[0];
                    if b.1 != 0 {
                        return Err(Stop::Abort("strlen of symbolic bytes".into()));
                    }
                    if b.0 == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            B::Llvm(n) => Some(self.llvm(st, n, av, args, rty)?),
            B::Api(n) => {
                let n = n.clone();
                Some(self.api(st, &n, av)?)
            }
        })
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: Option<u64>) -> R<()> {
        match self.obj(st, p) {
            Some((o, 0)) if o.kind == OKind::Heap => {
                if let Some(n) = size {
                    if n != o.size {
                        let l = format!("memory: allocation of {} bytes released as {} bytes", o.size, n);
                        return Err(self.viol(st, &l));
                    }
                }
                *st.mem.slot(p >> 32) = None;
                Ok(())
            }
            _ => Err(self.viol(st, "memory: release of a pointer that is not a live allocation")),
        }
    }
    fn map1(&mut self, ty: TyId, a: &Val, f: &mut dyn FnMut(&mut Exec, &Val, u32) -> Val) -> Val {
        match self.m.types[ty as usize] {
            Ty::Vec(_, e) => {
                let w = self.width(e);
                match a {
                    Val::A(v) => Val::A(Rc::new(v.iter().map(|x| f(self, x, w)).collect())),
                    _ => panic!("vector operand"),
                }
            }
            _ => {
                let w = self.width(ty);
                f(self, a, w)
            }
        }
    }
    fn map2(&mut self, ty: TyId, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, &Val, &Val, u32) -> Val) -> Val {
        match self.m.types[ty as usize] {
            Ty::Vec(_, e) => {
                let w = self.width(e);
                match (a, b) {
                    (Val::A(v), Val::A(u)) => Val::A(Rc::new((0..v.len()).map(|i| f(self, &v[i], &u[i], w)).collect())),
                    _ => panic!("vector operand"),
                }
            }
            _ => {
                let w = self.width(ty);
                f(self, a, b, w)
            }
        }
    }
    fn llvm(&mut self, st: &mut State, n: &str, av: &[Val], args: &[(TyId, Opd)], rty: TyId) -> R<Val> {
        let unit = Val::C(0);
        let key: String = {
            // drop the type suffixes
            let mut parts: Vec<&str> = n.split('.').collect();
            while parts.len() > 1 {
                let l = parts[parts.len() - 1];
                let ty = l.starts_with('p') && l[1..].bytes().all(|c| c.is_ascii_digit())
                    || l.starts_with('i') && l.len() > 1 && l[1..].bytes().all(|c| c.is_ascii_digit())
                    || l.starts_with('v') && l.contains('i')
                    || l == "f64"
                    || l == "f32"
                    || l.starts_with("sl_") || l.starts_with("s_");
                if ty { parts.pop(); } else { break; }
            }
            parts.join(".")
        };
        Ok(match key.as_str() {
            "assume" => {
                let l = self.val_lit(&av[0]);
                if l == F {
                    return Err(self.viol(st, "undefined behaviour: false llvm.assume"));
                }
                unit
            }
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "prefetch" | "dbg.value" | "dbg.declare" | "invariant.end" | "donothing" | "sideeffect" | "va_start" | "va_end" => unit,
            "invariant.start" => unit,
            "trap" | "ubsantrap" | "debugtrap" => return Err(self.panic_path(st, "trap")),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let p = self.conc(st, &av[0], 64)?;
                let q = self.conc(st, &av[1], 64)?;
                let k = self.conc(st, &av[2], 64)?;
                let d = self.read(st, q, k)?;
                self.write(st, p, &d)?;
                unit
            }
            "memset" | "memset.inline" => {
                let p = self.conc(st, &av[0], 64)?;
                let k = self.conc(st, &av[2], 64)?;
                let l: Vec<Lit> = self.bits(&av[1], 8);
                let mut v = vec![];
                for _ in 0..k {
                    v.extend_from_slice(&l);
                }
                self.write_lits(st, p, &v)?;
                unit
            }
            "expect" | "expect.with.probability" | "ssa.copy" | "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" | "ptrmask" => {
                if key == "ptrmask" {
                    return self.bin1(Op::And, &av[0], &av[1], 64);
                }
                av[0].clone()
            }
            "is.constant" => unit,
            "objectsize" => Val::C(u64::MAX),
            "umax" | "umin" | "smax" | "smin" => {
                let p = match key.as_str() {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                self.map2(rty, &av[0], &av[1], &mut |ex, a, b, w| {
                    let l = ex.cmp1(p, a, b, w);
                    ex.sel(l, a, b, w)
                })
            }
            "usub.sat" | "uadd.sat" => {
                let sub = key == "usub.sat";
                self.map2(rty, &av[0], &av[1], &mut |ex, a, b, w| {
                    if sub {
                        let l = ex.cmp1(Pred::Ugt, a, b, w);
                        let d = ex.bin1(Op::Sub, a, b, w).ok().unwrap();
                        ex.sel(l, &d, &Val::C(0), w)
                    } else {
                        let s = ex.bin1(Op::Add, a, b, w).ok().unwrap();
                        let l = ex.cmp1(Pred::Ult, &s, a, w);
                        let m = ex.ones(w);
                        ex.sel(l, &m, &s, w)
                    }
                })
            }
            "ssub.sat" | "sadd.sat" => {
                let sub = key == "ssub.sat";
                self.map2(rty, &av[0], &av[1], &mut |ex, a, b, w| {
                    let (mut x, mut y) = (ex.bits(a, w), ex.bits(b, w));
                    x.push(*x.last().unwrap());
                    y.push(*y.last().unwrap());
                    let r = if sub { ex.c.g.sub(&x, &y) } else { ex.c.g.add(&x, &y) };
                    let wn = w as usize;
                    let ov = ex.c.g.xor(r[wn], r[wn - 1]);
                    let s = r[wn];
                    let mut sat = vec![neg(s); wn];
                    sat[wn - 1] = s;
                    let v = ex.c.g.muxv(ov, &sat, &r[..wn]);
                    ex.mk(v)
                })
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let w = self.width(args[0].0);
                let (a, b) = (&av[0], &av[1]);
                let signed = key.starts_with('s');
                let op = &key[1..4];
                let wn = w as usize;
                let ext = if op == "mul" { 2 * wn } else { wn + 1 };
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    let (x, y) = (*x, *y);
                    let (xi, yi) = if signed { (sext(x, w) as i128, sext(y, w) as i128) } else { (x as i128, y as i128) };
                    let (r, o) = match op {
                        "add" => (xi + yi, false),
                        "sub" => (xi - yi, false),
                        _ => {
                            if !signed {
                                let p = x as u128 * y as u128;
                                ((p as u64) as i128, p > mask(w) as u128)
                            } else {
                                (xi * yi, false)
                            }
                        }
                    };
                    let lo = (r as u64) & mask(w);
                    let back = if signed { sext(lo, w) as i128 } else { lo as i128 };
                    let o = o || (back != r && !(op == "mul" && !signed && o)) && !(op == "mul" && !signed);
                    return Ok(Val::A(Rc::new(vec![Val::C(lo), Val::C(o as u64)])));
                }
                let fill = |v: &Vec<Lit>| -> Vec<Lit> {
                    let mut v = v.clone();
                    let f = if signed { *v.last().unwrap() } else { F };
                    v.resize(ext, f);
                    v
                };
                let (x, y) = (fill(&self.bits(a, w)), fill(&self.bits(b, w)));
                let r = match op {
                    "add" => self.c.g.add(&x, &y),
                    "sub" => self.c.g.sub(&x, &y),
                    _ => self.c.g.mul(&x, &y),
                };
                let mut ovs = vec![];
                for i in wn..ext {
                    let l = if signed { self.c.g.xor(r[i], r[wn - 1]) } else { r[i] };
                    ovs.push(l);
                }
                let o = self.c.g.or_all(&ovs);
                let lo = self.mk(r[..wn].to_vec());
                Val::A(Rc::new(vec![lo, Self::lit_val(o)]))
            }
            "ctpop" => self.map1(rty, &av[0], &mut |ex, a, w| match a {
                Val::C(x) => Val::C(x.count_ones() as u64),
                _ => {
                    let b = ex.bits(a, w);
                    let mut r = ex.c.g.popcount(&b);
                    r.resize(w as usize, F);
                    ex.mk(r)
                }
            }),
            "ctlz" | "cttz" => {
                let lead = key == "ctlz";
                self.map1(rty, &av[0], &mut |ex, a, w| match a {
                    Val::C(x) => Val::C(if lead { (x.leading_zeros() as u64) - (64 - w as u64) } else { (x.trailing_zeros() as u64).min(w as u64) }),
                    _ => {
                        let b = ex.bits(a, w);
                        let mut r = ex.c.g.count_zeros(&b, lead);
                        r.resize(w as usize, F);
                        ex.mk(r)
                    }
                })
            }
            "bswap" => self.map1(rty, &av[0], &mut |ex, a, w| {
                let b = ex.bits(a, w);
                let r = b.chunks(8).rev().flatten().copied().collect();
                ex.mk(r)
            }),
            "bitreverse" => self.map1(rty, &av[0], &mut |ex, a, w| {
                let mut b = ex.bits(a, w);
                b.reverse();
                ex.mk(b)
            }),
            "abs" => self.map1(rty, &av[0], &mut |ex, a, w| {
                let s = ex.cmp1(Pred::Slt, a, &Val::C(0), w);
                let n = ex.bin1(Op::Sub, &Val::C(0), a, w).ok().unwrap();
                ex.sel(s, &n, a, w)
            }),
            "fshl" | "fshr" => {
                let w = self.width(rty);
                if self.lanes(rty).is_some() {
                    return Err(Stop::Abort("vector funnel shift".into()));
                }
                let x = self.bits(&av[0], w);
                let y = self.bits(&av[1], w);
                let mut v = y.clone();
                v.extend(x);
                // v = x:y ; fshl = high w of (v << s mod w), fshr = low w of (v >> s mod w)
                let wn = w as usize;
                match &av[2] {
                    Val::C(s) => {
                        let s = (*s % w as u64) as usize;
                        let r = if key == "fshl" { v[wn - s..2 * wn - s].to_vec() } else { v[s..s + wn].to_vec() };
                        self.mk(r)
                    }
                    s => {
                        let sb = self.bits(s, w);
                        let k = wn.trailing_zeros() as usize;
                        let mut sb: Vec<Lit> = sb[..k].to_vec();
                        sb.resize(2 * wn, F);
                        let r = if key == "fshl" { self.c.g.shift(0, &v, &sb)[wn..].to_vec() } else { self.c.g.shift(1, &v, &sb)[..wn].to_vec() };
                        self.mk(r)
                    }
                }
            }
            "ucmp" | "scmp" => {
                let w = self.width(args[0].0);
                let (lt, gt) = if key == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp1(lt, &av[0], &av[1], w);
                let g = self.cmp1(gt, &av[0], &av[1], w);
                let rw = self.width(rty) as usize;
                let mut r = vec![l; rw];
                r[0] = self.c.g.or(l, g);
                self.mk(r)
            }
            "ceil" | "floor" | "trunc" | "round" | "fabs" | "rint" | "nearbyint" | "roundeven" => match &av[0] {
                Val::C(b) => {
                    let f = |v: f64| match key.as_str() {
                        "ceil" => v.ceil(),
                        "floor" => v.floor(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        "fabs" => v.abs(),
                        _ => v.round_ties_even(),
                    };
                    if matches!(self.m.types[rty as usize], Ty::F32) {
                        Val::C((f(f32::from_bits(*b as u32) as f64) as f32).to_bits() as u64)
                    } else {
                        Val::C(f(f64::from_bits(*b)).to_bits())
                    }
                }
                _ => {
                    if let Some(v) = self.dy_round(&key, &av[0], rty) {
                        return Ok(v);
                    }
                    if matches!(self.m.types[rty as usize], Ty::F32) {
                        return Err(Stop::Abort("symbolic f32".into()));
                    }
                    let e = self.ext_of(&av[0]);
                    let m = match key.as_str() {
                        "ceil" => "RTP",
                        "floor" => "RTN",
                        "trunc" => "RTZ",
                        "round" => "RNA",
                        "fabs" => {
                            let x = self.ext(Ext::Abs(e));
                            return Ok(Val::X(x));
                        }
                        _ => "RNE",
                    };
                    Val::X(self.ext(Ext::Round(m, e)))
                }
            },
            "log2" | "exp2" | "sqrt" | "log" => match &av[0] {
                Val::C(b) => {
                    let v = f64::from_bits(*b);
                    let r = match key.as_str() {
                        "log2" => v.log2(),
                        "exp2" => v.exp2(),
                        "sqrt" => v.sqrt(),
                        _ => v.ln(),
                    };
                    Val::C(r.to_bits())
                }
                _ => return Err(Stop::Abort(format!("symbolic {}", key))),
            },
            k if k.starts_with("fptoui.sat") || k.starts_with("fptosi.sat") => {
                let s = k.starts_with("fptosi");
                let w = self.width(rty);
                match &av[0] {
                    Val::C(b) => {
                        let v = if matches!(self.m.types[args[0].0 as usize], Ty::F32) { f32::from_bits(*b as u32) as f64 } else { f64::from_bits(*b) };
                        if s {
                            let lim = if w == 64 { v as i64 } else { (v as i64).clamp(-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
                            Val::C(lim as u64 & mask(w))
                        } else {
                            Val::C((v as u64).min(mask(w)))
                        }
                    }
                    _ => {
                        if let Some(v) = self.dy_to_int(&av[0], args[0].0, w, s) {
                            return Ok(v);
                        }
                        let e = self.ext_of(&av[0]);
                        if s {
                            return Err(Stop::Abort("symbolic fptosi.sat".into()));
                        }
                        self.ext_to_bv(e, w, s)
                    }
                }
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.xor" | "vector.reduce.add" => {
                let v = match &av[0] {
                    Val::A(v) => v.clone(),
                    _ => panic!(),
                };
                let w = self.width(rty);
                let op = match &key[14..] {
                    ".or" | "or" => Op::Or,
                    ".and" | "and" => Op::And,
                    ".xor" | "xor" => Op::Xor,
                    _ => Op::Add,
                };
                let mut a = v[0].clone();
                for x in &v[1..] {
                    a = self.bin1(op, &a, x, w)?;
                }
                a
            }
            k => return Err(Stop::Abort(format!("intrinsic llvm.{}", k))),
        })
    }
    fn ones(&self, w: u32) -> Val {
        self.mk(vec![T; w as usize])
    }
    fn sel(&mut self, l: Lit, a: &Val, b: &Val, w: u32) -> Val {
        if l == T {
            return a.clone();
        }
        if l == F {
            return b.clone();
        }
        let (x, y) = (self.bits(a, w), self.bits(b, w));
        let r = self.c.g.muxv(l, &x, &y);
        self.mk(r)
    }

    // ---------- harness API
    fn fresh_name(&mut self, st: &mut State, p: &Val, n: &Val, kind: &str, size: u32) -> R<String> {
        let s = self.str_at(st, p, n)?;
        let k = st.occ.entry(s.clone()).or_insert(0);
        let full = if *k == 0 { s } else { format!("{}#{}", s, k) };
        *k += 1;
        self.kinds.insert(full.clone(), (kind.to_string(), size));
        Ok(full)
    }
    fn var_bits(&mut self, name: &str, n: u32) -> Vec<Lit> {
        let id = match self.nameidx.get(name) {
            Some(i) => *i,
            None => {
                let i = self.c.names.len() as u32;
                self.c.names.push(name.to_string());
                self.nameidx.insert(name.to_string(), i);
                i
            }
        };
        (0..n)
            .map(|b| match self.varidx.get(&(id, b)) {
                Some(l) => *l,
                None => {
                    let l = self.c.g.input(Input::Var(id, b));
                    self.varidx.insert((id, b), l);
                    l
                }
            })
            .collect()
    }
    fn api(&mut self, st: &mut State, n: &str, av: &[Val]) -> R<Val> {
        let unit = Val::C(0);
        Ok(match n {
            "sym_bytes" => {
                // (ptr, n, name, len)
                let p = self.conc(st, &av[0], 64)?;
                let k = self.conc(st, &av[1], 64)?;
                let nm = self.fresh_name(st, &av[2], &av[3], "bytes", 8 * k as u32)?;
                let b = self.var_bits(&nm, 8 * k as u32);
                self.write_lits(st, p, &b)?;
                unit
            }
            "sym_u64" => {
                // (name, len, bits)
                let w = self.conc(st, &av[2], 32)? as u32;
                let nm = self.fresh_name(st, &av[0], &av[1], "int", w)?;
                let mut b = self.var_bits(&nm, w);
                b.resize(64, F);
                self.mk(b)
            }
            "sym_bool" => {
                let nm = self.fresh_name(st, &av[0], &av[1], "int", 1)?;
                let b = self.var_bits(&nm, 1);
                Self::lit_val(b[0])
            }
            "sym_assume" => {
                let l = self.val_lit(&av[0]);
                self.assume(st, l)?;
                unit
            }
            "sym_check" => {
                let s = self.str_at(st, &av[1], &av[2])?;
                let l = self.val_lit(&av[0]);
                self.check(st, l, &s)?;
                st.notes.push((format!("check {}", s), Val::C(1), 1));
                unit
            }
            "sym_reach" => {
                if self.spec > 0 {
                    return Err(Stop::Abort("speculative".into()));
                }
                let s = self.str_at(st, &av[0], &av[1])?;
                *self.reached.entry(s.clone()).or_default() += 1;
                st.notes.push((format!("reach {}", s), Val::C(1), 1));
                unit
            }
            "sym_note" => {
                if self.spec > 0 {
                    return Err(Stop::Abort("speculative".into()));
                }
                let s = self.str_at(st, &av[0], &av[1])?;
                if std::env::var("IRSYM_NOTES").is_ok() {
                    eprintln!("note {} {:?} {:?}", s, av[2], st.frames.iter().rev().take(5).map(|f| f.f.name.clone()).collect::<Vec<_>>());
                }
                st.notes.push((format!("note {}", s), av[2].clone(), 64));
                unit
            }
            "sym_allow_panic" => {
                if self.spec > 0 {
                    return Err(Stop::Abort("speculative".into()));
                }
                st.allow_panic = c(&av[0]) & 1 == 1;
                unit
            }
            "sym_concretize" => Val::C(self.conc(st, &av[0], 64)?),
            "sym_ite" => {
                let l = self.val_lit(&av[0]);
                self.sel(l, &av[1], &av[2], 64)
            }
            // evaluates to a fork-free conjunction / disjunction
            "sym_and" => {
                let (a, b) = (self.val_lit(&av[0]), self.val_lit(&av[1]));
                Self::lit_val(self.c.g.and(a, b))
            }
            "sym_or" => {
                let (a, b) = (self.val_lit(&av[0]), self.val_lit(&av[1]));
                Self::lit_val(self.c.g.or(a, b))
            }
            // the constant a truth value is bound to be on this path, if it is
            "sym_settle" => {
                let l = self.val_lit(&av[0]);
                if l == T || l == F {
                    return Ok(Self::lit_val(l));
                }
                if self.spec > 0 {
                    return Err(Stop::Abort("speculative".into()));
                }
                let l = self.under(st, l);
                if l == T || l == F {
                    return Ok(Self::lit_val(l));
                }
                let v = st.model.lit(&self.c, l);
                let other = if v { l ^ 1 } else { l };
                let r = self.solve(st, other)?;
                if r.is_none() {
                    self.implied(st, other ^ 1);
                }
                match r {
                    None => Val::C(v as u64),
                    Some(_) => Self::lit_val(l),
                }
            }
            "sym_under" => {
                let l = self.val_lit(&av[0]);
                let l0 = l;
                let l = self.under(st, l);
                if std::env::var("IRSYM_NOTES").is_ok() && l > 1 {
                    eprintln!("was {} {:?}", self.c.g.show(l0, 5), st.frames.iter().rev().skip(2).take(3).map(|f| f.f.name.clone()).collect::<Vec<_>>());
                }
                if std::env::var("IRSYM_NOTES").is_ok() && l > 1 {
                    eprintln!("left {} {:?}", self.c.g.show(l, 4), self.c.g.inputs.get(&crate::aig::node(self.c.g.a[crate::aig::node(l) as usize].max(l))));
                    let n = crate::aig::node(l) as usize;
                    for k in [self.c.g.a[n], self.c.g.b[n], l] {
                        if let Some(crate::aig::Input::FpBit(t, i)) = self.c.g.inputs.get(&crate::aig::node(k)) {
                            eprintln!("   bit {} of {}", i, crate::solver::Solver::show(&self.c, *t));
                        }
                    }
                }
                Self::lit_val(l)
            }
            "sym_is_concrete" => Val::C(matches!(av[0], Val::C(_)) as u64),
            "sym_native" => Val::C(0),
            "sym_eq_bytes" => {
                let p = self.conc(st, &av[0], 64)?;
                let q = self.conc(st, &av[1], 64)?;
                let k = self.conc(st, &av[2], 64)?;
                let x = self.read_lits(st, p, k)?;
                let y = self.read_lits(st, q, k)?;
                Self::lit_val(self.c.g.eq(&x, &y))
            }
            // ---- fields
            "fp_const" => {
                let f = self.conc(st, &av[0], 32)? as usize;
                let p = self.conc(st, &av[1], 64)?;
                let b = self.read(st, p, 48)?;
                if b.iter().any(|x| x.1 != 0) {
                    return Err(Stop::Abort("fp_const of symbolic limbs".into()));
                }
                let mut u = crate::big::ZERO;
                for (i, x) in b.iter().enumerate() {
                    u[i / 8] |= (x.0 as u64) << (8 * (i % 8));
                }
                Val::C(self.c.fp.cst(f, &u) as u64)
            }
            "fp_var" => {
                let f = self.conc(st, &av[0], 32)? as usize;
                let nm = self.fresh_name(st, &av[1], &av[2], "field", f as u32)?;
                Val::C(self.c.fp.var(f, &nm) as u64)
            }
            "fp_add" | "fp_sub" | "fp_mul" => {
                let a = self.term(st, &av[0])?;
                let b = self.term(st, &av[1])?;
                Val::C(match n {
                    "fp_add" => self.c.fp.add(a, b),
                    "fp_sub" => self.c.fp.sub(a, b),
                    _ => self.c.fp.mul(a, b),
                } as u64)
            }
            "fp_neg" => {
                let a = self.term(st, &av[0])?;
                let f = self.c.fp.terms[a as usize].f;
                let z = self.c.fp.zero(f);
                Val::C(self.c.fp.sub(z, a) as u64)
            }
            "fp_inv" => {
                // inverse of a non-zero element (0 for zero)
                let a = self.term(st, &av[0])?;
                Val::C(self.fp_inverse(st, a)? as u64)
            }
            "fp_eq" => {
                let a = self.term(st, &av[0])?;
                let b = self.term(st, &av[1])?;
                let Ctx { g, fp, .. } = &mut self.c;
                let l = fp.eq(g, a, b);
                Self::lit_val(l)
            }
            "fp_ite" => {
                let l = self.val_lit(&av[0]);
                let a = self.term(st, &av[1])?;
                let b = self.term(st, &av[2])?;
                let Ctx { g, fp, .. } = &mut self.c;
                Val::C(fp.ite(g, l, a, b) as u64)
            }
            "fp_from_bool" => {
                let f = self.conc(st, &av[0], 32)? as usize;
                let l = self.val_lit(&av[1]);
                Val::C(self.c.fp.from_lit(f, l) as u64)
            }
            "fp_to_bytes" => {
                let a = self.term(st, &av[0])?;
                let p = self.conc(st, &av[1], 64)?;
                let k = self.conc(st, &av[2], 64)? as usize;
                let Ctx { g, fp, .. } = &mut self.c;
                let b = fp.to_bits(g, a);
                let mut v = b.0.clone();
                v.resize(8 * k, F);
                self.write_lits(st, p, &v)?;
                unit
            }
            "fp_from_bytes" => {
                let f = self.conc(st, &av[0], 32)? as usize;
                let p = self.conc(st, &av[1], 64)?;
                let k = self.conc(st, &av[2], 64)?;
                let b = self.read_lits(st, p, k)?;
                let Ctx { g, fp, .. } = &mut self.c;
                Val::C(fp.compose(g, f, &b) as u64)
            }
            // ---- uninterpreted functions
            "uf_begin" => {
                st.ufargs.clear();
                unit
            }
            "uf_arg_bytes" => {
                let p = self.conc(st, &av[0], 64)?;
                let k = self.conc(st, &av[1], 64)?;
                let b = self.read_lits(st, p, k)?;
                st.ufargs.push(Arg::Bits(b));
                unit
            }
            "uf_arg_u64" => {
                let b = self.bits(&av[0], 64);
                st.ufargs.push(Arg::Bits(b));
                unit
            }
            "uf_arg_fp" => {
                let a = self.term(st, &av[0])?;
                st.ufargs.push(Arg::Term(a));
                unit
            }
            "uf_bytes" => {
                // (name, len, out, n)
                let s = self.str_at(st, &av[0], &av[1])?;
                let p = self.conc(st, &av[2], 64)?;
                let k = self.conc(st, &av[3], 64)? as usize;
                let args = std::mem::take(&mut st.ufargs);
                let Ctx { g, fp, .. } = &mut self.c;
                let a = fp.apply(g, &s, args, None, 8 * k);
                let b = match &self.c.fp.apps[a as usize].res {
                    Res::Bits(b) => b.clone(),
                    _ => unreachable!(),
                };
                self.write_lits(st, p, &b)?;
                unit
            }
            "uf_bool" => {
                let s = self.str_at(st, &av[0], &av[1])?;
                let args = std::mem::take(&mut st.ufargs);
                let Ctx { g, fp, .. } = &mut self.c;
                let a = fp.apply(g, &s, args, None, 1);
                match &self.c.fp.apps[a as usize].res {
                    Res::Bits(b) => Self::lit_val(b[0]),
                    _ => unreachable!(),
                }
            }
            "uf_fp" => {
                let s = self.str_at(st, &av[0], &av[1])?;
                let f = self.conc(st, &av[2], 32)? as usize;
                let args = std::mem::take(&mut st.ufargs);
                let Ctx { g, fp, .. } = &mut self.c;
                let a = fp.apply(g, &s, args, Some(f), 0);
                let at = match &self.c.fp.apps[a as usize].res {
                    Res::Field(a, _) => *a,
                    _ => unreachable!(),
                };
                Val::C(self.c.fp.from_atom(f, at) as u64)
            }
            o => return Err(Stop::Abort(format!("unknown harness call {}", o))),
        })
    }
    /// the term of a handle; one that differs between merged paths becomes a choice of terms
    fn term(&mut self, st: &mut State, v: &Val) -> R<u32> {
        let b = match v {
            Val::S(b) if !self.concrete => b.clone(),
            _ => return Ok(self.conc(st, v, 32)? as u32),
        };
        let mut found: Vec<(Lit, u32)> = vec![];
        let mut x = self.val_under(&st.model, v, 32);
        let mut rest = T;
        loop {
            let k: Vec<Lit> = (0..b.len()).map(|i| ((x >> i) & 1) as u32).collect();
            let e = self.c.g.eq(&b, &k);
            if x as usize >= self.c.fp.terms.len() || found.len() == 8 || found.first().map_or(false, |f| self.c.fp.terms[f.1 as usize].f != self.c.fp.terms[x as usize].f) {
                return Ok(self.conc(st, v, 32)? as u32);
            }
            found.push((e, x as u32));
            rest = self.c.g.and(rest, neg(e));
            if rest == F {
                break;
            }
            match self.solve(st, rest)? {
                Some(m) => x = self.val_under(&m, v, 32),
                None => break,
            }
        }
        let mut r = found[found.len() - 1].1;
        for (e, t) in found.iter().rev().skip(1) {
            let Ctx { g, fp, .. } = &mut self.c;
            r = fp.ite(g, *e, *t, r);
        }
        Ok(r)
    }
    /// the inverse as an atom i with a*i == 1 or a == 0 == i
    fn fp_inverse(&mut self, st: &mut State, a: u32) -> R<u32> {
        let f = self.c.fp.terms[a as usize].f;
        if let Some(k) = self.c.fp.as_const(a) {
            let fl = self.c.fp.fields[f].clone();
            let v = fl.dec(&fl.inverse(&fl.enc(&k)));
            return Ok(self.c.fp.cst(f, &v));
        }
        let at = self.c.fp.atom(crate::fp::Atom::Inv(a));
        let i = self.c.fp.from_atom(f, at);
        let p = self.c.fp.mul(a, i);
        let one = self.c.fp.from_lit(f, T);
        let Ctx { g, fp, .. } = &mut self.c;
        let z = fp.is_zero(g, a);
        let e = fp.eq(g, p, one);
        let iz = fp.raw_eq(g, i);
        let both = g.and(z, iz);
        let l = g.or(e, both);
        // a definition, true in every model and on every path
        self.c.fp.defs.insert(at, l);
        let _ = st;
        Ok(i)
    }
}

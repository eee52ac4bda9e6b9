//! Exact floating-point arithmetic on non-negative numbers of a known scale (integers, and what
//! products, sums, quotients by powers of two and roundings make of them): their bits, rounded as
//! the type's precision demands, instead of floating-point terms for the solver.
use crate::aig::{neg, Lit, F, T};
use crate::exec::{Exec, Val};
use crate::ir::{Ty, TyId};
use crate::solver::Ext;

type Dy = (Vec<Lit>, i32);

impl Exec {
    fn precision(&self, ty: TyId) -> (usize, i32) {
        if matches!(self.m.types[ty as usize], Ty::F32) { (24, 120) } else { (53, 1000) }
    }
    /// the number as an integer divided by a power of two
    pub fn dyadic(&self, v: &Val, ty: TyId) -> Option<Dy> {
        match v {
            Val::X(e) => match &self.c.ext[*e as usize] {
                Ext::Dy(b, s) => Some((b.clone(), *s)),
                _ => None,
            },
            Val::C(x) => {
                let v = if matches!(self.m.types[ty as usize], Ty::F32) { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                let b = v.to_bits();
                if v == 0.0 && b == 0 {
                    return Some((vec![], 0));
                }
                if !v.is_normal() || v < 0.0 {
                    return None;
                }
                let (m, s) = ((b & ((1 << 52) - 1)) | 1 << 52, 1075 - ((b >> 52) as i32));
                let t = m.trailing_zeros();
                let m = m >> t;
                Some(((0..64 - m.leading_zeros()).map(|i| if m >> i & 1 == 1 { T } else { F }).collect(), s - t as i32))
            }
            _ => None,
        }
    }
    /// rounds to nearest, ties to even
    fn rounded(&mut self, b: Vec<Lit>, p: usize) -> Vec<Lit> {
        let n = b.len();
        if n <= p {
            return b;
        }
        let mut r = b.clone();
        r.push(F);
        let mut above = F;
        for i in (p..n).rev() {
            let lead = self.c.g.and(b[i], neg(above));
            above = self.c.g.or(above, b[i]);
            let k = i - p + 1;
            let sticky = self.c.g.or_all(&b[..k - 1]);
            let odd = self.c.g.or(sticky, b[k]);
            let up = self.c.g.and(b[k - 1], odd);
            let mut kept = b[k..].to_vec();
            kept.push(F);
            let mut one = vec![F; kept.len()];
            one[0] = up;
            let kept = self.c.g.add(&kept, &one);
            let mut t = vec![F; k];
            t.extend(kept);
            r = self.c.g.muxv(lead, &t, &r);
        }
        r
    }
    /// the value of the floating-point type, unless it may be out of its range
    pub fn of_dyadic(&mut self, b: Vec<Lit>, s: i32, ty: TyId) -> Option<Val> {
        let (p, range) = self.precision(ty);
        if b.len() > 256 {
            return None;
        }
        // low zeros do not count
        let low = b.iter().take_while(|l| **l == F).count();
        let (b, mut s) = (b[low..].to_vec(), s - low as i32);
        let mut b = self.rounded(b, p);
        while b.last() == Some(&F) {
            b.pop();
        }
        let low = b.iter().take_while(|l| **l == F).count();
        b.drain(..low);
        s -= low as i32;
        if b.is_empty() {
            return Some(Val::C(0));
        }
        if s > range || b.len() as i32 - s > range {
            return None;
        }
        if b.iter().all(|l| *l <= 1) {
            let mut v = 0.0f64;
            for (i, l) in b.iter().enumerate() {
                if *l == T {
                    v += 2f64.powi(i as i32 - s);
                }
            }
            let f32_ = matches!(self.m.types[ty as usize], Ty::F32);
            return Some(Val::C(if f32_ { (v as f32).to_bits() as u64 } else { v.to_bits() }));
        }
        Some(Val::X(self.ext(Ext::Dy(b, s))))
    }
    /// both over the same power of two, and equally long
    fn aligned(&self, x: &Dy, y: &Dy) -> Option<(Vec<Lit>, Vec<Lit>, i32)> {
        let s = if x.0.is_empty() { y.1 } else if y.0.is_empty() { x.1 } else { x.1.max(y.1) };
        let up = |d: &Dy| {
            let k = (s - d.1) as usize;
            let mut r = if d.0.is_empty() { vec![] } else { vec![F; k] };
            r.extend_from_slice(&d.0);
            r
        };
        if !x.0.is_empty() && s - x.1 > 200 || !y.0.is_empty() && s - y.1 > 200 {
            return None;
        }
        let (mut a, mut b) = (up(x), up(y));
        let n = a.len().max(b.len());
        a.resize(n, F);
        b.resize(n, F);
        Some((a, b, s))
    }
    pub fn dy_bin(&mut self, op: char, a: &Val, b: &Val, ty: TyId) -> Option<Val> {
        let (x, y) = (self.dyadic(a, ty)?, self.dyadic(b, ty)?);
        match op {
            '+' => {
                let (mut p, mut q, s) = self.aligned(&x, &y)?;
                p.push(F);
                q.push(F);
                let r = self.c.g.add(&p, &q);
                self.of_dyadic(r, s, ty)
            }
            '*' => {
                if x.0.is_empty() || y.0.is_empty() {
                    return Some(Val::C(0));
                }
                let n = x.0.len() + y.0.len();
                if n > 160 {
                    return None;
                }
                let (mut p, mut q) = (x.0, y.0);
                p.resize(n, F);
                q.resize(n, F);
                let r = self.c.g.mul(&p, &q);
                self.of_dyadic(r, x.1 + y.1, ty)
            }
            // by powers of two
            '/' if y.0.len() == 1 && y.0[0] == T => self.of_dyadic(x.0, x.1 - y.1, ty),
            _ => None,
        }
    }
    pub fn dy_cmp(&mut self, p: &str, a: &Val, b: &Val, ty: TyId) -> Option<Lit> {
        let (x, y) = (self.dyadic(a, ty)?, self.dyadic(b, ty)?);
        let (x, y, _) = self.aligned(&x, &y)?;
        let g = &mut self.c.g;
        Some(match p {
            "oeq" | "ueq" => g.eq(&x, &y),
            "one" | "une" => neg(g.eq(&x, &y)),
            "olt" | "ult" => g.ult(&x, &y),
            "ogt" | "ugt" => g.ult(&y, &x),
            "ole" | "ule" => neg(g.ult(&y, &x)),
            "oge" | "uge" => neg(g.ult(&x, &y)),
            "ord" => T,
            "uno" => F,
            _ => return None,
        })
    }
    pub fn dy_select(&mut self, c: Lit, a: &Val, b: &Val, ty: TyId) -> Option<Val> {
        let (x, y) = (self.dyadic(a, ty)?, self.dyadic(b, ty)?);
        let (x, y, s) = self.aligned(&x, &y)?;
        let r = self.c.g.muxv(c, &x, &y);
        self.of_dyadic(r, s, ty)
    }
    /// rounding to an integer
    pub fn dy_round(&mut self, how: &str, a: &Val, ty: TyId) -> Option<Val> {
        let (b, s) = self.dyadic(a, ty)?;
        if s <= 0 || how == "fabs" {
            return Some(a.clone());
        }
        let s = s as usize;
        let n = b.len().max(s + 1);
        let mut b = b;
        b.resize(n, F);
        let (frac, mut int) = (b[..s].to_vec(), b[s..].to_vec());
        int.push(F);
        let rest = self.c.g.or_all(&frac[..s - 1]);
        let half = frac[s - 1];
        let up = match how {
            "ceil" => self.c.g.or(rest, half),
            "floor" | "trunc" => F,
            "round" => half,
            "rint" | "nearbyint" | "roundeven" => {
                let t = self.c.g.or(rest, int[0]);
                self.c.g.and(half, t)
            }
            _ => return None,
        };
        let mut one = vec![F; int.len()];
        one[0] = up;
        let r = self.c.g.add(&int, &one);
        self.of_dyadic(r, 0, ty)
    }
    /// saturating conversion to an integer
    pub fn dy_to_int(&mut self, a: &Val, ty: TyId, w: u32, signed: bool) -> Option<Val> {
        let (b, s) = self.dyadic(a, ty)?;
        let mut int = if s >= 0 {
            b.get(s as usize..).unwrap_or(&[]).to_vec()
        } else {
            let mut v = vec![F; (-s).min(2000) as usize];
            v.extend(b);
            v
        };
        let m = w as usize - signed as usize;
        if int.len() > m {
            let over = self.c.g.or_all(&int[m..].to_vec());
            int.truncate(m);
            for l in int.iter_mut() {
                *l = self.c.g.or(*l, over);
            }
        }
        int.resize(w as usize, F);
        Some(self.mk(int))
    }
    /// as a term of the solver
    pub fn dy_term(&mut self, b: Vec<Lit>, s: i32) -> u32 {
        let mut r = None;
        for (i, part) in b.chunks(48).enumerate().rev() {
            let p = self.ext(Ext::FromBv(part.to_vec(), false));
            let k = self.ext(Ext::Const(2f64.powi(48 * i as i32 - s)));
            let p = self.ext(Ext::Bin('*', p, k));
            r = Some(match r {
                None => p,
                Some(r) => self.ext(Ext::Bin('+', r, p)),
            });
        }
        r.unwrap_or_else(|| self.ext(Ext::Const(0.0)))
    }
}

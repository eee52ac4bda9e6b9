//! Symbolic interpreter of the decoded IR.
use crate::aig::*;
use crate::fp::Arg;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(Rc<[Lit]>),
    A(Rc<Vec<Val>>),
    X(u32), // symbolic double
}

pub const BASE: u64 = 0x4000_0000;
pub const FUNC_ID: u64 = 0x7000_0000;

fn same(x: &Val, y: &Val) -> bool {
    match (x, y) {
        (Val::C(p), Val::C(q)) => p == q,
        (Val::S(p), Val::S(q)) => Rc::ptr_eq(p, q) || p == q,
        (Val::A(p), Val::A(q)) => Rc::ptr_eq(p, q) || (p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| same(x, y))),
        (Val::X(p), Val::X(q)) => p == q,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OKind {
    Heap,
    Stack,
    Global,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>,
    pub kind: OKind,
    pub align: u64,
}
const CH: usize = 128;
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    first: u64,
    pub next: u64,
    gover: HashMap<u64, Rc<Obj>, FxB>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub b: u32,
    pub ip: u32,
    pub prev: u32,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

/// where a function's registers are defined (and as what) and used
struct Flow {
    succ: Vec<Vec<u32>>,
    def: Vec<(u32, TyId)>,
    uses: Vec<Vec<u32>>, // blocks that use a register of another block
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Pc>,
    /// literals that are conjuncts of pc
    pub known: Rc<FxSet<Lit>>,
    pub model: Rc<Model>,
    pub allow_panic: bool,
    pub occ: HashMap<String, u32>,
    pub ufargs: Vec<Arg>,
    pub steps: u64,
    pub notes: Vec<(String, Val, u32)>,
    pub depth: u32,
    pub dead: bool,
    pub panicked: bool,
    /// addresses of word stores of a speculative arm
    pub wlog: Vec<u64>,
}

pub struct Violation {
    pub label: String,
    pub model: Rc<Model>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub enum Stop {
    /// path over
    End,
    /// the engine cannot continue this run
    Abort(String),
    /// violation recorded, path over
    Viol,
}
pub type R<T> = Result<T, Stop>;

pub struct Limits {
    pub steps: u64,
    pub paths: u64,
    pub deadline: Instant,
    pub forks_per_value: u32,
}

pub struct Exec {
    pub m: Module,
    pub c: Ctx,
    pub s: Solver,
    /// recent models, any of which may answer a query
    pool: std::collections::VecDeque<Rc<Model>>,
    pub pooled: u64,
    pub funcs: HashMap<String, Rc<Func>>,
    pub gids: FxMap<String, u64>,
    pub gnames: Vec<String>,
    globals: Vec<Option<Rc<Obj>>>,
    bytes: Vec<[Lit; 8]>,
    byteidx: FxMap<[Lit; 8], u32>,
    pub varidx: FxMap<(u32, u32), Lit>,
    pub nameidx: FxMap<String, u32>,
    pub kinds: HashMap<String, (String, u32)>, // input name -> (kind, size)
    pub work: Vec<State>,
    pub viols: Vec<Violation>,
    pub reached: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub trivially: u64,
    pub decided: u64,
    pub paths: u64,
    pub panics_allowed: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub visited: FxSet<u32>,
    pub fn_seen: BTreeSet<String>,
    pub lim: Limits,
    pub concrete: bool,
    pub trace: Vec<String>,
    pub samples: Vec<String>,
    pub incomplete: Option<String>,
    pub stop_first: bool,
    pub bcache: FxMap<String, Rc<crate::intrin::B>>,
    pub dump: Option<String>,
    pub dump_max: usize,
    pub dumped: usize,
    /// depth of speculative execution (merging of the two arms of a branch)
    pub spec: u32,
    spec_end: u64,
    pub merges: u64,
    pub no_merge: bool,
    merge_stat: HashMap<(u32, u32), (u32, u32)>,
    pdoms: HashMap<u32, Rc<Vec<i32>>>,
    flows: HashMap<u32, Rc<Flow>>,
    live: HashMap<(u32, u32, u32), bool>,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sext(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

impl Mem {
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id < self.first {
            return self.gover.get(&id);
        }
        let i = (id - self.first) as usize;
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    pub fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let i = (id - self.first) as usize;
        let ch = Rc::make_mut(&mut self.chunks[i / CH]);
        &mut ch[i % CH]
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: OKind) -> u64 {
        let id = self.next;
        self.next += 1;
        let i = (id - self.first) as usize;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let ch = Rc::make_mut(&mut self.chunks[i / CH]);
        ch.push(Some(Rc::new(Obj { size, data: vec![0; size as usize], sym: None, kind, align })));
        (id << 32) + BASE
    }
}

impl Exec {
    pub fn new(m: Module, s: Solver, lim: Limits) -> Exec {
        let mut gids: FxMap<String, u64> = Default::default();
        let mut names: Vec<String> = m.globals.keys().cloned().collect();
        names.sort();
        for (i, n) in names.iter().enumerate() {
            gids.insert(n.clone(), i as u64 + 1);
        }
        let n = names.len();
        Exec {
            m,
            c: Ctx { g: Aig::new(), fp: crate::fp::Fp::new(), names: vec![], ext: vec![] },
            s,
            pool: Default::default(),
            pooled: 0,
            funcs: Default::default(),
            gids,
            gnames: names,
            globals: vec![None; n + 1],
            bytes: vec![[F; 8]],
            byteidx: Default::default(),
            varidx: Default::default(),
            nameidx: Default::default(),
            kinds: Default::default(),
            work: vec![],
            viols: vec![],
            reached: Default::default(),
            checks: Default::default(),
            trivially: 0,
            decided: 0,
            paths: 0,
            panics_allowed: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            visited: Default::default(),
            fn_seen: Default::default(),
            lim,
            concrete: false,
            trace: vec![],
            samples: vec![],
            incomplete: None,
            stop_first: false,
            bcache: Default::default(),
            dump: None,
            dump_max: 0,
            dumped: 0,
            spec: 0,
            spec_end: 0,
            merges: 0,
            no_merge: std::env::var("IRSYM_NOMERGE").is_ok(),
            merge_stat: Default::default(),
            pdoms: Default::default(),
            flows: Default::default(),
            live: Default::default(),
        }
    }

    // ---------- constants and globals
    fn gaddr(&mut self, name: &str) -> u64 {
        let mut name = name.to_string();
        while let Some(a) = self.m.aliases.get(&name) {
            name = a.clone();
        }
        if let Some((_, _, _, id)) = self.m.funcs.get(&name) {
            return (FUNC_ID << 32) + BASE + (*id as u64) * 16;
        }
        if let Some(id) = self.gids.get(&name) {
            return (*id << 32) + BASE;
        }
        if self.m.decls.contains_key(&name) {
            // external function: weak symbols resolve to null, but for the registration of
            // destructors of thread-local variables (which does nothing here)
            return if name == "__cxa_thread_atexit_impl" { (FUNC_ID << 32) + BASE + 8 } else { 0 };
        }
        panic!("unknown global {}", name)
    }
    fn gobj(&mut self, id: u64) -> Rc<Obj> {
        if let Some(o) = &self.globals[id as usize] {
            return o.clone();
        }
        let name = self.gnames[id as usize - 1].clone();
        let (ty, init) = self.m.global(&name).unwrap_or_else(|| panic!("global {}", name));
        let size = self.m.size(ty);
        let mut data = vec![0u8; size as usize];
        if let Some(c) = init {
            self.init(&mut data, 0, ty, &c);
        }
        let o = Rc::new(Obj { size, data, sym: None, kind: OKind::Global, align: 16 });
        self.globals[id as usize] = Some(o.clone());
        o
    }
    fn init(&mut self, d: &mut [u8], off: usize, ty: TyId, c: &Const) {
        match c {
            Const::Str(b) => d[off..off + b.len()].copy_from_slice(b),
            Const::Zero | Const::Undef | Const::Null => {}
            Const::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (o, _) = self.m.field_off(ty, i);
                    self.init(d, off + o as usize, *t, x);
                }
            }
            _ => {
                let n = self.m.size(ty) as usize;
                let v = self.cval(ty, c);
                match v {
                    Val::C(x) => {
                        for i in 0..n.min(8) {
                            d[off + i] = (x >> (8 * i)) as u8;
                        }
                    }
                    Val::S(b) => {
                        for (i, l) in b.iter().enumerate() {
                            if *l == T {
                                d[off + i / 8] |= 1 << (i % 8);
                            }
                        }
                    }
                    _ => panic!("initializer"),
                }
            }
        }
    }
    fn cval(&mut self, ty: TyId, c: &Const) -> Val {
        let t = self.m.types[ty as usize].clone();
        match c {
            Const::Int(v, n) => {
                let w = match t {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                if w <= 64 {
                    let x = if *n { v[0].wrapping_neg() } else { v[0] };
                    Val::C(x & mask(w))
                } else {
                    let mut l = v.clone();
                    if *n {
                        let mut carry = true;
                        for x in l.iter_mut() {
                            let (y, o) = (!*x).overflowing_add(carry as u64);
                            *x = y;
                            carry = o;
                        }
                    }
                    let b: Vec<Lit> = (0..w as usize).map(|i| ((l[i / 64] >> (i % 64)) & 1) as u32).collect();
                    Val::S(b.into())
                }
            }
            Const::Bool(b) => Val::C(*b as u64),
            Const::Null => Val::C(0),
            Const::Float(b) => {
                if t == Ty::F32 {
                    Val::C((f64::from_bits(*b) as f32).to_bits() as u64)
                } else {
                    Val::C(*b)
                }
            }
            Const::Zero | Const::Undef => self.zero(ty),
            Const::Global(g) => Val::C(self.gaddr(g)),
            Const::Str(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.cval(*t, c)).collect())),
            Const::Splat(et, c) => {
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => 1,
                };
                let v = self.cval(*et, c);
                Val::A(Rc::new(vec![v; n as usize]))
            }
            Const::Gep(t, b, idx) => {
                let p64 = self.m.int(64);
                let base = match self.cval(p64, b) {
                    Val::C(x) => x,
                    _ => panic!(),
                };
                let mut off = 0i64;
                let mut cur = *t;
                for (i, c) in idx.iter().enumerate() {
                    let k = match c {
                        Const::Int(v, n) => {
                            if *n { -(v[0] as i64) } else { v[0] as i64 }
                        }
                        _ => 0,
                    };
                    if i == 0 {
                        off += k * self.m.size(cur) as i64;
                    } else {
                        let (o, nt) = match self.m.types[cur as usize] {
                            Ty::Struct(..) => self.m.field_off(cur, k as usize),
                            _ => {
                                let (_, e) = self.m.field_off(cur, 0);
                                ((k * self.m.size(e) as i64) as u64, e)
                            }
                        };
                        off += o as i64;
                        cur = nt;
                    }
                }
                Val::C(base.wrapping_add(off as u64))
            }
            Const::Cast(_, t1, c, t2) => {
                let v = self.cval(*t1, c);
                match (v, &self.m.types[*t2 as usize]) {
                    (Val::C(x), Ty::Int(w)) => Val::C(x & mask(*w)),
                    (v, _) => v,
                }
            }
            Const::Bin(op, t, a, b) => {
                let (x, y) = match (self.cval(*t, a), self.cval(*t, b)) {
                    (Val::C(x), Val::C(y)) => (x, y),
                    _ => panic!(),
                };
                let w = match self.m.types[*t as usize] {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    "mul" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    _ => x >> y,
                };
                Val::C(r & mask(w))
            }
        }
    }
    pub fn zero(&mut self, ty: TyId) -> Val {
        match self.m.types[ty as usize].clone() {
            Ty::Int(w) if w > 64 => Val::S(vec![F; w as usize].into()),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(v, _) => {
                let x = v.iter().map(|t| self.zero(*t)).collect();
                Val::A(Rc::new(x))
            }
            _ => Val::C(0),
        }
    }
    #[inline]
    fn opd(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::Cst(c) => match &c.1 {
                Const::Int(v, n) if matches!(self.m.types[c.0 as usize], Ty::Int(w) if w <= 64) => {
                    let w = match self.m.types[c.0 as usize] {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    Val::C((if *n { v[0].wrapping_neg() } else { v[0] }) & mask(w))
                }
                _ => self.cval(c.0, &c.1),
            },
        }
    }
    pub fn width(&self, ty: TyId) -> u32 {
        match self.m.types[ty as usize] {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            _ => 64,
        }
    }
    pub fn bits(&self, v: &Val, w: u32) -> Vec<Lit> {
        match v {
            Val::C(x) => (0..w as usize).map(|i| if i < 64 { ((x >> i) & 1) as u32 } else { 0 }).collect(),
            Val::S(b) => b.to_vec(),
            Val::A(_) | Val::X(_) => panic!("bits of aggregate/float"),
        }
    }
    pub fn mk(&self, b: Vec<Lit>) -> Val {
        if b.len() <= 64 && b.iter().all(|l| *l <= 1) {
            let mut x = 0u64;
            for (i, l) in b.iter().enumerate() {
                x |= (*l as u64) << i;
            }
            Val::C(x)
        } else {
            Val::S(b.into())
        }
    }

    // ---------- memory
    fn byte(&mut self, b: [Lit; 8]) -> u32 {
        if let Some(i) = self.byteidx.get(&b) {
            return *i;
        }
        let i = self.bytes.len() as u32;
        self.bytes.push(b);
        self.byteidx.insert(b, i);
        i
    }
    pub fn obj(&mut self, st: &State, addr: u64) -> Option<(Rc<Obj>, i64)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as i64 - BASE as i64;
        if let Some(o) = st.mem.get(id) {
            return Some((o.clone(), off));
        }
        if id >= 1 && (id as usize) < self.globals.len() {
            return Some((self.gobj(id), off));
        }
        None
    }
    pub fn viol(&mut self, st: &State, label: &str) -> Stop {
        if self.spec > 0 {
            return Stop::Abort("speculative".into());
        }
        let stack: Vec<String> = st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect();
        let mut notes = vec![];
        for (n, v, w) in &st.notes {
            let x = self.val_under(&st.model, v, *w);
            notes.push(format!("{}={}", n, x));
        }
        self.viols.push(Violation { label: label.to_string(), model: st.model.clone(), stack, notes });
        Stop::Viol
    }
    pub fn val_under(&self, m: &Model, v: &Val, w: u32) -> u64 {
        match v {
            Val::C(x) => *x,
            Val::S(b) => {
                let mut x = 0;
                for (i, l) in b.iter().enumerate().take(64.min(w as usize)) {
                    if m.lit(&self.c, *l) {
                        x |= 1 << i;
                    }
                }
                x
            }
            _ => 0,
        }
    }
    fn chk(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, usize)> {
        if n == 0 {
            return Ok((Rc::new(Obj { size: 0, data: vec![], sym: None, kind: OKind::Heap, align: 1 }), 0));
        }
        match self.obj(st, addr) {
            Some((o, off)) if off >= 0 && off as u64 + n <= o.size => Ok((o, off as usize)),
            Some((o, off)) => {
                let l = format!("memory: {} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.size);
                Err(self.viol(st, &l))
            }
            None => {
                let l = format!("memory: {} through an invalid pointer", what);
                Err(self.viol(st, &l))
            }
        }
    }
    /// the bytes at addr: (concrete, symbolic index or 0)
    pub fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, u32)>> {
        let (o, off) = self.chk(st, addr, n, "read")?;
        Ok((0..n as usize)
            .map(|i| {
                let s = o.sym.as_ref().map(|s| s[off + i]).unwrap_or(0);
                (o.data.get(off + i).copied().unwrap_or(0), s)
            })
            .collect())
    }
    pub fn read_lits(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Lit>> {
        let v = self.read(st, addr, n)?;
        let mut r = Vec::with_capacity(8 * n as usize);
        for (c, s) in v {
            if s == 0 {
                for i in 0..8 {
                    r.push(((c >> i) & 1) as u32);
                }
            } else {
                r.extend_from_slice(&self.bytes[s as usize]);
            }
        }
        Ok(r)
    }
    pub fn write(&mut self, st: &mut State, addr: u64, b: &[(u8, u32)]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (_, off) = self.chk(st, addr, b.len() as u64, "write")?;
        let id = addr >> 32;
        if st.mem.get(id).is_none() {
            let g = self.gobj(id);
            st.mem.gover.insert(id, g);
        }
        let o = if id < st.mem.first { st.mem.gover.get_mut(&id).unwrap() } else { st.mem.slot(id).as_mut().unwrap() };
        let o = Rc::make_mut(o);
        if o.sym.is_none() && b.iter().any(|x| x.1 != 0) {
            o.sym = Some(vec![0; o.size as usize]);
        }
        for (i, (c, s)) in b.iter().enumerate() {
            o.data[off + i] = *c;
            if let Some(v) = o.sym.as_mut() {
                v[off + i] = *s;
            }
        }
        Ok(())
    }
    pub fn write_lits(&mut self, st: &mut State, addr: u64, l: &[Lit]) -> R<()> {
        let mut v = Vec::with_capacity(l.len() / 8 + 1);
        for ch in l.chunks(8) {
            let mut a = [F; 8];
            a[..ch.len()].copy_from_slice(ch);
            if a.iter().all(|x| *x <= 1) {
                v.push((a.iter().enumerate().fold(0u8, |s, (i, x)| s | ((*x as u8) << i)), 0));
            } else {
                let k = self.byte(a);
                v.push((0, k));
            }
        }
        self.write(st, addr, &v)
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: TyId) -> R<Val> {
        match self.m.types[ty as usize].clone() {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.m.types[e as usize] {
                    if w % 8 != 0 && matches!(self.m.types[ty as usize], Ty::Vec(..)) {
                        let sz = self.m.size(ty);
                        let l = self.read_lits(st, addr, sz)?;
                        let v = (0..n as usize).map(|i| self.mk(l[i * w as usize..(i + 1) * w as usize].to_vec())).collect();
                        return Ok(Val::A(Rc::new(v)));
                    }
                }
                let es = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, addr + i * es, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = self.m.field_off(ty, i);
                    v.push(self.load(st, addr + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = self.width(ty);
                let n = (w as u64 + 7) / 8;
                let (o, off) = self.chk(st, addr, n, "read")?;
                if w <= 64 && o.sym.as_ref().map(|s| s[off..off + n as usize].iter().all(|x| *x == 0)).unwrap_or(true) {
                    let mut x = 0u64;
                    for i in 0..n as usize {
                        x |= (o.data[off + i] as u64) << (8 * i);
                    }
                    return Ok(Val::C(x & mask(w)));
                }
                let mut l = self.read_lits(st, addr, n)?;
                l.truncate(w as usize);
                Ok(self.mk(l))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        if self.spec > 0 && matches!(self.m.types[ty as usize], Ty::Int(64) | Ty::Ptr) {
            st.wlog.push(addr);
        }
        match self.m.types[ty as usize].clone() {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let a = match v {
                    Val::A(a) => a.clone(),
                    _ => panic!("store agg"),
                };
                if let Ty::Int(w) = self.m.types[e as usize] {
                    if w % 8 != 0 && matches!(self.m.types[ty as usize], Ty::Vec(..)) {
                        let mut l = vec![];
                        for x in a.iter() {
                            l.extend(self.bits(x, w));
                        }
                        while l.len() % 8 != 0 {
                            l.push(F);
                        }
                        return self.write_lits(st, addr, &l);
                    }
                }
                let es = self.m.size(e);
                for i in 0..n {
                    self.store(st, addr + i * es, e, &a[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let a = match v {
                    Val::A(a) => a.clone(),
                    _ => panic!("store agg"),
                };
                for i in 0..f.len() {
                    let (o, t) = self.m.field_off(ty, i);
                    self.store(st, addr + o, t, &a[i])?;
                }
                Ok(())
            }
            _ => {
                let w = self.width(ty);
                let n = ((w + 7) / 8) as usize;
                match v {
                    Val::C(x) => {
                        let mut b = [(0u8, 0u32); 8];
                        for i in 0..n.min(8) {
                            b[i].0 = (x >> (8 * i)) as u8;
                        }
                        self.write(st, addr, &b[..n.min(8)])
                    }
                    Val::S(l) => {
                        let mut l = l.to_vec();
                        while l.len() < n * 8 {
                            l.push(F);
                        }
                        self.write_lits(st, addr, &l)
                    }
                    _ => Err(Stop::Abort("store of symbolic float".into())),
                }
            }
        }
    }

    // ---------- path condition, forking
    pub fn push_pc(&mut self, st: &mut State, l: Lit) {
        if l == T {
            return;
        }
        let mut cone = Cone::default();
        cone.lit(&self.c, l);
        let keys = cone.keys(&self.c);
        st.pc.push(Pc { lit: l, keys: Rc::new(keys) });
        let known = Rc::make_mut(&mut st.known);
        for x in self.c.g.conjuncts(l) {
            known.insert(x);
        }
    }
    /// l follows from pc
    pub fn implied(&mut self, st: &mut State, l: Lit) {
        let known = Rc::make_mut(&mut st.known);
        for x in self.c.g.conjuncts(l) {
            known.insert(x);
        }
    }
    /// l under the conjuncts of pc
    pub fn under(&mut self, st: &State, l: Lit) -> Lit {
        let mut memo = FxMap::default();
        let r = self.c.g.under(&st.known, l, &mut memo);
        if std::env::var("IRSYM_DEBUG").is_ok() {
            let bad = st.known.iter().filter(|k| !st.model.lit(&self.c, **k)).count();
            let (x, y) = (st.model.lit(&self.c, l), st.model.lit(&self.c, r));
            if bad > 0 || x != y {
                eprintln!("MISMATCH bad {} {} {} {} {}", bad, l, r, x, y);
            }
        }
        r
    }
    pub fn solve(&mut self, st: &State, l: Lit) -> R<Option<Rc<Model>>> {
        if Instant::now() > self.lim.deadline {
            return Err(Stop::Abort("time budget exhausted".into()));
        }
        let l = self.under(st, l);
        if l == F {
            return Ok(None);
        }
        if l == T {
            return Ok(Some(st.model.clone()));
        }
        if std::env::var("IRSYM_SLOW").is_ok() {
            let s: Vec<String> = st.frames.iter().rev().take(3).map(|f| f.f.name.clone()).collect();
            eprintln!("query {} conjuncts {} {} {:?}", l, self.c.g.conjuncts(l).len(), self.c.g.conjuncts(neg(l)).len(), s);
            if std::env::var("IRSYM_DEBUG").is_ok() {
                eprintln!("{}", self.c.g.show(l, 6));
            }
        }
        if let Some(k) = self.pool.iter().position(|m| m.lit(&self.c, l) && st.pc.iter().all(|p| m.lit(&self.c, p.lit))) {
            let m = self.pool.remove(k).unwrap();
            self.pool.push_front(m.clone());
            self.pooled += 1;
            return Ok(Some(m));
        }
        match self.s.check(&mut self.c, &st.pc, &[l], &st.model) {
            Sat::Sat(m) => {
                self.pool.push_front(m.clone());
                self.pool.truncate(24);
                if !m.lit(&self.c, l) {
                    return Err(Stop::Abort("solver model does not satisfy the query".into()));
                }
                if cfg!(debug_assertions) || std::env::var("IRSYM_CHECK").is_ok() {
                    for p in &st.pc {
                        if !m.lit(&self.c, p.lit) {
                            return Err(Stop::Abort("solver model does not satisfy the path condition".into()));
                        }
                    }
                }
                Ok(Some(m))
            }
            Sat::Unsat => Ok(None),
            Sat::Unknown(e) => Err(Stop::Abort(format!("solver gave no answer: {}", e))),
        }
    }
    /// Decide a branch: returns the direction this state continues in; the other one is queued with
    /// `other` applied to it.
    fn branch(&mut self, st: &mut State, c: Lit, other: impl FnOnce(&mut Exec, &mut State, bool)) -> R<bool> {
        if c == T || c == F {
            return Ok(c == T);
        }
        let v = st.model.lit(&self.c, c);
        let take = if v { c } else { neg(c) };
        if self.concrete {
            return Ok(v);
        }
        if let Some(m) = self.solve(st, neg(take))? {
            if self.spec > 0 {
                return Err(Stop::Abort("speculative".into()));
            }
            self.forks += 1;
            if std::env::var("IRSYM_FORKS").is_ok() {
                let s: Vec<String> = st.frames.iter().rev().take(4).map(|f| f.f.name.clone()).collect();
                eprintln!("fork {:?}", s);
            }
            let mut o = st.clone();
            o.depth += 1;
            o.model = m;
            self.push_pc(&mut o, neg(take));
            other(self, &mut o, !v);
            self.work.push(o);
            self.push_pc(st, take);
            st.depth += 1;
        } else {
            self.implied(st, take);
        }
        Ok(v)
    }
    /// concretise: all other values are explored in queued copies that re-execute the instruction
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(b) => {
                let x = self.val_under(&st.model, v, w);
                let k: Vec<Lit> = (0..b.len()).map(|i| if i < 64 { ((x >> i) & 1) as u32 } else { 0 }).collect();
                let e = self.c.g.eq(b, &k);
                let r = self.branch(st, e, |_, _, _| {})?;
                if !r {
                    return Err(Stop::Abort("concretisation".into()));
                }
                Ok(x)
            }
            _ => Err(Stop::Abort("symbolic float/aggregate where an integer is needed".into())),
        }
    }

    // ---------- merging the arms of a branch
    /// immediate post-dominators of a function's blocks (-1: the return); paths that do not return
    /// are ignored
    fn pdom(&mut self, f: &Rc<Func>) -> Rc<Vec<i32>> {
        if let Some(r) = self.pdoms.get(&f.id) {
            return r.clone();
        }
        let n = f.blocks.len();
        let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for (i, b) in f.blocks.iter().enumerate() {
            match b.ins.last() {
                Some(Ins::Br(t)) => succ[i].push(*t as usize),
                Some(Ins::CBr(_, t, e)) => succ[i].extend([*t as usize, *e as usize]),
                Some(Ins::Switch { def, cases, .. }) => {
                    succ[i].push(*def as usize);
                    succ[i].extend(cases.iter().map(|c| c.1 as usize));
                }
                Some(Ins::Call { normal: Some(t), .. }) => succ[i].push(*t as usize),
                Some(Ins::Ret(_)) => succ[i].push(n),
                _ => {}
            }
        }
        // reverse post order from the exit over the reversed graph
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for i in 0..n {
            for s in &succ[i] {
                pred[*s].push(i);
            }
        }
        let mut order = vec![];
        let mut seen = vec![false; n + 1];
        let mut stack = vec![(n, 0usize)];
        seen[n] = true;
        while let Some((x, k)) = stack.pop() {
            if k < pred[x].len() {
                stack.push((x, k + 1));
                let y = pred[x][k];
                if !seen[y] {
                    seen[y] = true;
                    stack.push((y, 0));
                }
            } else {
                order.push(x);
            }
        }
        order.reverse();
        let mut num = vec![usize::MAX; n + 1];
        for (i, x) in order.iter().enumerate() {
            num[*x] = i;
        }
        let mut id = vec![usize::MAX; n + 1];
        id[n] = n;
        let mut changed = true;
        while changed {
            changed = false;
            for x in order.iter().skip(1) {
                let mut new = usize::MAX;
                for s in &succ[*x] {
                    if num[*s] == usize::MAX || id[*s] == usize::MAX {
                        continue;
                    }
                    if new == usize::MAX {
                        new = *s;
                    } else {
                        let (mut a, mut b) = (*s, new);
                        while a != b {
                            while num[a] > num[b] {
                                a = id[a];
                            }
                            while num[b] > num[a] {
                                b = id[b];
                            }
                        }
                        new = a;
                    }
                }
                if new != id[*x] {
                    id[*x] = new;
                    changed = true;
                }
            }
        }
        let r: Vec<i32> = (0..n)
            .map(|i| if id[i] == usize::MAX { -2 } else if id[i] == n { -1 } else { id[i] as i32 })
            .collect();
        let r = Rc::new(r);
        self.pdoms.insert(f.id, r.clone());
        r
    }
    fn flow(&mut self, f: &Rc<Func>) -> Rc<Flow> {
        if let Some(r) = self.flows.get(&f.id) {
            return r.clone();
        }
        let n = f.blocks.len();
        let mut r = Flow { succ: vec![vec![]; n], def: vec![(u32::MAX, 0); f.nregs], uses: vec![vec![]; f.nregs] };
        for (i, b) in f.blocks.iter().enumerate() {
            for p in &b.phis {
                r.def[p.d as usize] = (i as u32, p.ty);
            }
            for k in &b.ins {
                if let Some((d, ty)) = k.defines() {
                    r.def[d as usize] = (i as u32, ty);
                }
            }
            match b.ins.last() {
                Some(Ins::Br(t)) => r.succ[i].push(*t),
                Some(Ins::CBr(_, t, e)) => r.succ[i].extend([*t, *e]),
                Some(Ins::Switch { def, cases, .. }) => {
                    r.succ[i].push(*def);
                    r.succ[i].extend(cases.iter().map(|c| c.1));
                }
                Some(Ins::Call { normal: Some(t), .. }) => r.succ[i].push(*t),
                _ => {}
            }
        }
        for (i, b) in f.blocks.iter().enumerate() {
            for p in &b.phis {
                // a phi uses its operand at the end of the predecessor
                for (l, o) in &p.inc {
                    if let Opd::Reg(x) = o {
                        if r.def[*x as usize].0 != *l {
                            r.uses[*x as usize].push(*l);
                        }
                    }
                }
            }
            for k in &b.ins {
                for o in k.operands() {
                    if let Opd::Reg(x) = o {
                        if r.def[*x as usize].0 != i as u32 && r.uses[*x as usize].last() != Some(&(i as u32)) {
                            r.uses[*x as usize].push(i as u32);
                        }
                    }
                }
            }
        }
        let r = Rc::new(r);
        self.flows.insert(f.id, r.clone());
        r
    }
    /// may the value register d has at the start of block j be used?
    fn live_in(&mut self, f: &Rc<Func>, j: u32, d: u32) -> bool {
        if let Some(r) = self.live.get(&(f.id, j, d)) {
            return *r;
        }
        let w = self.flow(f);
        let (def, uses) = (w.def[d as usize].0, &w.uses[d as usize]);
        let mut seen = vec![false; f.blocks.len()];
        let mut todo = vec![j];
        let mut r = false;
        while let Some(b) = todo.pop() {
            if b == def || std::mem::replace(&mut seen[b as usize], true) {
                continue;
            }
            if uses.contains(&b) {
                r = true;
                break;
            }
            todo.extend(&w.succ[b as usize]);
        }
        self.live.insert((f.id, j, d), r);
        r
    }
    /// At a branch on a symbolic condition: run both arms up to where they meet again and continue
    /// with one state. None or Some(false): not possible, the caller forks as usual.
    fn try_merge(&mut self, st: &mut State, l: Lit, t: u32, e: u32) -> R<Option<bool>> {
        if self.spec >= 4 {
            return Ok(None);
        }
        let fr = st.frames.last().unwrap();
        let (f, blk) = (fr.f.clone(), fr.b);
        let depth = st.frames.len();
        let key = (f.id, blk);
        let stat = self.merge_stat.get(&key).copied().unwrap_or((0, 0));
        if stat.0 >= 3 + 2 * stat.1 {
            return Ok(None);
        }
        let j = self.pdom(&f)[blk as usize];
        if j == -2 || (j == -1 && depth <= 1) {
            return Ok(None);
        }
        let v = st.model.lit(&self.c, l);
        let take = if v { l } else { neg(l) };
        let m = match self.solve(st, neg(take))? {
            Some(m) => m,
            None => {
                self.implied(st, take);
                self.goto(st, if v { t } else { e });
                return Ok(Some(true));
            }
        };
        let (outer_end, outer_log) = (self.spec_end, std::mem::take(&mut st.wlog));
        self.spec += 1;
        let end = self.steps + 4000;
        if self.spec == 1 || end < self.spec_end {
            self.spec_end = end;
        }
        let mut arms = vec![];
        for k in 0..2 {
            let mut s = st.clone();
            let dir = v == (k == 0);
            if k == 1 {
                s.model = m.clone();
            }
            self.push_pc(&mut s, if dir { l } else { neg(l) });
            self.goto(&mut s, if dir { t } else { e });
            loop {
                if s.frames.len() < depth {
                    if j == -1 && s.frames.len() == depth - 1 {
                        arms.push(s);
                    }
                    break;
                }
                if s.frames.len() == depth {
                    let fr = s.frames.last().unwrap();
                    if j >= 0 && fr.b == j as u32 && fr.ip == 0 {
                        arms.push(s);
                        break;
                    }
                }
                if self.block(&mut s).is_err() {
                    break;
                }
            }
            if arms.len() != k + 1 {
                break;
            }
        }
        self.spec -= 1;
        self.spec_end = outer_end;
        let mut ok = false;
        if arms.len() == 2 {
            let b = arms.pop().unwrap();
            let a = arms.pop().unwrap();
            if let Some(mut s) = self.merge(take, a, b, j) {
                s.pc.truncate(st.pc.len());
                s.known = st.known.clone();
                s.model = st.model.clone();
                s.depth = st.depth;
                let mut log = outer_log.clone();
                if self.spec > 0 {
                    log.extend(s.wlog.iter().copied());
                }
                s.wlog = log;
                *st = s;
                ok = true;
            }
        }
        let ent = self.merge_stat.entry(key).or_default();
        if ok {
            ent.1 += 1;
            self.merges += 1;
            Ok(Some(true))
        } else {
            ent.0 += 1;
            st.wlog = outer_log;
            Ok(Some(false))
        }
    }
    fn merge(&mut self, c: Lit, mut a: State, b: State, j: i32) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.occ != b.occ || a.notes.len() != b.notes.len() || a.allow_panic != b.allow_panic {
            return None;
        }
        if !a.ufargs.is_empty() || !b.ufargs.is_empty() {
            return None;
        }
        // registers: values of the arms live on through the phis of the meeting block (or the returned
        // value), and through the registers of a loop's blocks when an arm ran those again
        let n = a.frames.len();
        {
            let (fa, fb) = (&a.frames[n - 1], &b.frames[n - 1]);
            if fa.b != fb.b || fa.ip != fb.ip || fa.f.id != fb.f.id {
                return None;
            }
        }
        let f = a.frames[n - 1].f.clone();
        let bb = a.frames[n - 1].b as usize;
        let mut regs: Vec<(u32, TyId)> = vec![];
        if j >= 0 {
            regs.extend(f.blocks[bb].phis.iter().map(|p| (p.d, p.ty)));
            let w = self.flow(&f);
            for d in 0..f.nregs {
                if w.def[d].0 != bb as u32 && w.def[d].0 != u32::MAX && !same(&a.frames[n - 1].regs[d], &b.frames[n - 1].regs[d]) && self.live_in(&f, bb as u32, d as u32) {
                    regs.push((d as u32, w.def[d].1));
                }
            }
        } else {
            // back in the caller: after the call, or in the block an invoke continues in
            let ip = a.frames[n - 1].ip as usize;
            if ip == 0 {
                regs.extend(f.blocks[bb].phis.iter().map(|p| (p.d, p.ty)));
                // the result of the invoke itself
                for k in &[a.frames[n - 1].prev] {
                    if let Some(Ins::Call { rty, d: Some(d), .. }) = f.blocks[*k as usize].ins.last() {
                        regs.push((*d, *rty));
                    }
                }
            } else if let Ins::Call { rty, d, .. } = &f.blocks[bb].ins[ip - 1] {
                if let Some(d) = d {
                    regs.push((*d, *rty));
                }
            } else {
                return None;
            }
        }
        for (d, ty) in regs {
            let x = a.frames[n - 1].regs[d as usize].clone();
            let y = b.frames[n - 1].regs[d as usize].clone();
            let v = match (ty, &x, &y) {
                (TY_NONE, ..) | (TY_CMP, Val::A(_), _) => return None,
                (TY_CMP, ..) => {
                    let (x, y) = (self.bits(&x, 1), self.bits(&y, 1));
                    let r = self.c.g.muxv(c, &x, &y);
                    self.mk(r)
                }
                _ => self.merge_val(c, &x, &y, ty)?,
            };
            a.frames[n - 1].regs[d as usize] = v;
        }
        // allocas of dead frames are gone; those of the live frames must agree
        for (x, y) in a.frames.iter_mut().zip(&b.frames) {
            if x.allocas != y.allocas {
                return None;
            }
        }
        // memory
        let mut logged: Vec<u64> = a.wlog.iter().chain(&b.wlog).copied().collect();
        logged.sort();
        logged.dedup();
        let first = a.mem.first;
        let nc = a.mem.chunks.len().max(b.mem.chunks.len());
        let mut repl: Vec<(u64, Option<Rc<Obj>>)> = vec![];
        for k in 0..nc {
            let (x, y) = (a.mem.chunks.get(k), b.mem.chunks.get(k));
            if let (Some(x), Some(y)) = (x, y) {
                if Rc::ptr_eq(x, y) {
                    continue;
                }
            }
            for i in 0..CH {
                let id = first + (k * CH + i) as u64;
                let ox = x.and_then(|x| x.get(i)).and_then(|o| o.clone());
                let oy = y.and_then(|y| y.get(i)).and_then(|o| o.clone());
                match (ox, oy) {
                    (None, None) => {}
                    (Some(_), None) => {
                        // allocated in one arm only, or freed in the other
                    }
                    (None, Some(o)) => repl.push((id, Some(o))),
                    (Some(p), Some(q)) => {
                        if !Rc::ptr_eq(&p, &q) {
                            repl.push((id, Some(self.merge_obj(c, &p, &q, id, &logged)?)));
                        }
                    }
                }
            }
        }
        let ids: BTreeSet<u64> = a.mem.gover.keys().chain(b.mem.gover.keys()).copied().collect();
        let mut grepl = vec![];
        for id in ids {
            let p = a.mem.gover.get(&id).cloned();
            let q = b.mem.gover.get(&id).cloned();
            let p = match p {
                Some(p) => p,
                None => self.gobj(id),
            };
            let q = match q {
                Some(q) => q,
                None => self.gobj(id),
            };
            if !Rc::ptr_eq(&p, &q) {
                grepl.push((id, self.merge_obj(c, &p, &q, id, &logged)?));
            }
        }
        while a.mem.next < b.mem.next {
            // placeholders for the other arm's objects
            a.mem.alloc(0, 1, OKind::Heap);
            let id = a.mem.next - 1;
            *a.mem.slot(id) = None;
        }
        for (id, o) in repl {
            *a.mem.slot(id) = o;
        }
        for (id, o) in grepl {
            a.mem.gover.insert(id, o);
        }
        a.wlog.extend(b.wlog.iter().copied());
        a.steps = a.steps.max(b.steps);
        Some(a)
    }
    fn merge_val(&mut self, c: Lit, x: &Val, y: &Val, ty: TyId) -> Option<Val> {
        match (x, y) {
            (Val::C(p), Val::C(q)) if p == q => Some(x.clone()),
            (Val::A(p), Val::A(q)) => {
                if p.len() != q.len() {
                    return None;
                }
                let ets: Vec<TyId> = match self.m.types[ty as usize].clone() {
                    Ty::Struct(v, _) => v,
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![e; p.len()],
                    _ => return None,
                };
                let mut r = vec![];
                for i in 0..p.len() {
                    r.push(self.merge_val(c, &p[i], &q[i], ets[i])?);
                }
                Some(Val::A(Rc::new(r)))
            }
            _ => match self.m.types[ty as usize] {
                Ty::Ptr => None,
                Ty::Int(_) | Ty::F32 | Ty::F64 => self.select1(c, x, y, ty).ok(),
                _ => None,
            },
        }
    }
    fn merge_obj(&mut self, c: Lit, p: &Rc<Obj>, q: &Rc<Obj>, id: u64, logged: &[u64]) -> Option<Rc<Obj>> {
        if p.size != q.size || p.kind != q.kind {
            return None;
        }
        let n = p.size as usize;
        let sx = |o: &Obj, i: usize| o.sym.as_ref().map(|s| s[i]).unwrap_or(0);
        // words (lengths, pointers, discriminants) that would become symbolic: rather fork
        let lo = logged.partition_point(|a| *a < (id << 32));
        // (a number of its own on the stack, such as a count, may)
        let small = |o: &Obj| o.data.len() == 8 && o.data[2..].iter().all(|x| *x == 0);
        let count = p.kind == OKind::Stack && n == 8 && small(p) && small(q);
        for a in &logged[lo..] {
            if count || a >> 32 != id {
                break;
            }
            let off = ((a & 0xffff_ffff) as i64 - BASE as i64) as usize;
            if off + 8 > n {
                continue;
            }
            let conc = |o: &Obj| (off..off + 8).all(|i| sx(o, i) == 0);
            if conc(p) && conc(q) && p.data[off..off + 8] != q.data[off..off + 8] {
                return None;
            }
        }
        let mut r = (**p).clone();
        for i in 0..n {
            let (a, b) = ((p.data[i], sx(p, i)), (q.data[i], sx(q, i)));
            if a == b {
                continue;
            }
            let la = self.byte_lits(a);
            let lb = self.byte_lits(b);
            let m = self.c.g.muxv(c, &la, &lb);
            let mut k = [F; 8];
            k.copy_from_slice(&m);
            if r.sym.is_none() {
                r.sym = Some(vec![0; n]);
            }
            if k.iter().all(|x| *x <= 1) {
                r.data[i] = k.iter().enumerate().fold(0u8, |s, (i, x)| s | ((*x as u8) << i));
                r.sym.as_mut().unwrap()[i] = 0;
            } else {
                let z = self.byte(k);
                r.data[i] = 0;
                r.sym.as_mut().unwrap()[i] = z;
            }
        }
        Some(Rc::new(r))
    }
    fn byte_lits(&self, b: (u8, u32)) -> [Lit; 8] {
        if b.1 != 0 {
            return self.bytes[b.1 as usize];
        }
        let mut r = [F; 8];
        for i in 0..8 {
            r[i] = ((b.0 >> i) & 1) as u32;
        }
        r
    }

    // ---------- arithmetic
    pub fn bin1(&mut self, op: Op, a: &Val, b: &Val, w: u32) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::UDiv => if y == 0 { return Err(Stop::Abort("division by zero".into())) } else { x / y },
                Op::URem => if y == 0 { return Err(Stop::Abort("division by zero".into())) } else { x % y },
                Op::SDiv => if y == 0 { return Err(Stop::Abort("division by zero".into())) } else { sext(x, w).wrapping_div(sext(y, w)) as u64 },
                Op::SRem => if y == 0 { return Err(Stop::Abort("division by zero".into())) } else { sext(x, w).wrapping_rem(sext(y, w)) as u64 },
                Op::Shl => if y >= w as u64 { 0 } else { x << y },
                Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                Op::AShr => (sext(x, w) >> y.min(w as u64 - 1)) as u64,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
            };
            return Ok(Val::C(r & mask(w)));
        }
        if matches!(a, Val::X(_)) || matches!(b, Val::X(_)) {
            return Err(Stop::Abort("integer operation on a symbolic float".into()));
        }
        let x = self.bits(a, w);
        let y = self.bits(b, w);
        let g = &mut self.c.g;
        let r = match op {
            Op::Add => g.add(&x, &y),
            Op::Sub => g.sub(&x, &y),
            Op::Mul => g.mul(&x, &y),
            Op::UDiv => g.udivrem(&x, &y).0,
            Op::URem => g.udivrem(&x, &y).1,
            Op::SDiv => g.sdivrem(&x, &y).0,
            Op::SRem => g.sdivrem(&x, &y).1,
            Op::Shl => g.shift(0, &x, &y),
            Op::LShr => g.shift(1, &x, &y),
            Op::AShr => g.shift(2, &x, &y),
            Op::And => (0..x.len()).map(|i| g.and(x[i], y[i])).collect(),
            Op::Or => (0..x.len()).map(|i| g.or(x[i], y[i])).collect(),
            Op::Xor => (0..x.len()).map(|i| g.xor(x[i], y[i])).collect(),
        };
        Ok(self.mk(r))
    }
    pub fn cmp1(&mut self, p: Pred, a: &Val, b: &Val, w: u32) -> Lit {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as Lit;
        }
        let x = self.bits(a, w);
        let y = self.bits(b, w);
        let g = &mut self.c.g;
        match p {
            Pred::Eq => g.eq(&x, &y),
            Pred::Ne => neg(g.eq(&x, &y)),
            Pred::Ugt => g.ult(&y, &x),
            Pred::Uge => neg(g.ult(&x, &y)),
            Pred::Ult => g.ult(&x, &y),
            Pred::Ule => neg(g.ult(&y, &x)),
            Pred::Sgt => g.slt(&y, &x),
            Pred::Sge => neg(g.slt(&x, &y)),
            Pred::Slt => g.slt(&x, &y),
            Pred::Sle => neg(g.slt(&y, &x)),
        }
    }
    pub fn lanes(&self, ty: TyId) -> Option<(usize, TyId)> {
        match self.m.types[ty as usize] {
            Ty::Vec(n, e) => Some((n as usize, e)),
            _ => None,
        }
    }
    pub fn lit_val(l: Lit) -> Val {
        if l <= 1 { Val::C(l as u64) } else { Val::S(vec![l].into()) }
    }
    pub fn val_lit(&self, v: &Val) -> Lit {
        match v {
            Val::C(x) => (*x & 1) as u32,
            Val::S(b) => b[0],
            _ => panic!("i1"),
        }
    }
    fn select1(&mut self, c: Lit, a: &Val, b: &Val, ty: TyId) -> R<Val> {
        if c == T {
            return Ok(a.clone());
        }
        if c == F {
            return Ok(b.clone());
        }
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let ets: Vec<TyId> = match self.m.types[ty as usize].clone() {
                    Ty::Struct(v, _) => v,
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![e; x.len()],
                    _ => panic!(),
                };
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(self.select1(c, &x[i], &y[i], ets[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            (Val::C(x), Val::C(y)) if x == y => Ok(a.clone()),
            _ => {
                if matches!(self.m.types[ty as usize], Ty::F32 | Ty::F64) {
                    if let Some(v) = self.dy_select(c, a, b, ty) {
                        return Ok(v);
                    }
                    if matches!(self.m.types[ty as usize], Ty::F32) {
                        return Err(Stop::Abort("symbolic f32".into()));
                    }
                    let (x, y) = (self.ext_of(a), self.ext_of(b));
                    return Ok(Val::X(self.ext(Ext::Ite(c, x, y))));
                }
                let w = self.width(ty);
                let x = self.bits(a, w);
                let y = self.bits(b, w);
                let r = self.c.g.muxv(c, &x, &y);
                Ok(self.mk(r))
            }
        }
    }
    pub fn ext(&mut self, e: Ext) -> u32 {
        self.c.ext.push(e);
        self.c.ext.len() as u32 - 1
    }
    pub fn ext_of(&mut self, v: &Val) -> u32 {
        match v {
            Val::X(e) => match self.c.ext[*e as usize].clone() {
                Ext::Dy(b, s) => self.dy_term(b, s),
                _ => *e,
            },
            Val::C(b) => self.ext(Ext::Const(f64::from_bits(*b))),
            _ => panic!("float operand"),
        }
    }
    fn cast1(&mut self, op: CastOp, a: &Val, from: TyId, to: TyId) -> R<Val> {
        let (fw, tw) = (self.width(from), self.width(to));
        Ok(match op {
            CastOp::Trunc | CastOp::Zext | CastOp::Sext | CastOp::PtrInt => match a {
                Val::C(x) if tw <= 64 => {
                    let y = if op == CastOp::Sext { sext(*x, fw) as u64 } else { *x };
                    Val::C(y & mask(tw))
                }
                _ => {
                    let mut b = self.bits(a, fw);
                    let fill = if op == CastOp::Sext { *b.last().unwrap() } else { F };
                    b.resize(tw as usize, fill);
                    self.mk(b)
                }
            },
            CastOp::Bitcast => a.clone(),
            CastOp::UiToFp | CastOp::SiToFp => match a {
                Val::C(x) => {
                    let v = if op == CastOp::UiToFp { *x as f64 } else { sext(*x, fw) as f64 };
                    if matches!(self.m.types[to as usize], Ty::F32) { Val::C((v as f32).to_bits() as u64) } else { Val::C(v.to_bits()) }
                }
                Val::S(b) => {
                    if op == CastOp::UiToFp || b.last() == Some(&F) {
                        if let Some(v) = self.of_dyadic(b.to_vec(), 0, to) {
                            return Ok(v);
                        }
                    }
                    if !matches!(self.m.types[to as usize], Ty::F64) {
                        return Err(Stop::Abort("symbolic f32".into()));
                    }
                    let b = b.to_vec();
                    Val::X(self.ext(Ext::FromBv(b, op == CastOp::SiToFp)))
                }
                _ => return Err(Stop::Abort("uitofp".into())),
            },
            CastOp::FpToUi | CastOp::FpToSi => match a {
                Val::C(x) => {
                    let v = if matches!(self.m.types[from as usize], Ty::F32) { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                    Val::C(if op == CastOp::FpToUi { v as u64 } else { v as i64 as u64 } & mask(tw))
                }
                Val::X(e) => match self.dy_to_int(a, from, tw, op == CastOp::FpToSi) {
                    Some(v) => v,
                    None => self.ext_to_bv(*e, tw, op == CastOp::FpToSi),
                },
                _ => return Err(Stop::Abort("fptoui".into())),
            },
            CastOp::FpExt => match a {
                Val::C(x) => Val::C((f32::from_bits(*x as u32) as f64).to_bits()),
                _ => match self.dyadic(a, from).and_then(|(b, s)| self.of_dyadic(b, s, to)) {
                    Some(v) => v,
                    None => return Err(Stop::Abort("fpext".into())),
                },
            },
            CastOp::FpTrunc => match a {
                Val::C(x) => Val::C((f64::from_bits(*x) as f32).to_bits() as u64),
                _ => match self.dyadic(a, from).and_then(|(b, s)| self.of_dyadic(b, s, to)) {
                    Some(v) => v,
                    None => return Err(Stop::Abort("fptrunc".into())),
                },
            },
        })
    }
    pub fn ext_to_bv(&mut self, e: u32, w: u32, s: bool) -> Val {
        let t = self.ext(Ext::ToBv(e, w, s));
        let b: Vec<Lit> = (0..w).map(|i| self.c.g.input(Input::Ext(t, i))).collect();
        Val::S(b.into())
    }

    // ---------- running
    pub fn start(&mut self, name: &str) -> State {
        let f = self.get_func(name);
        let ng = self.gnames.len() as u64 + 1;
        State {
            frames: vec![Frame { regs: vec![Val::C(0); f.nregs], f, b: 0, ip: 0, prev: 0, allocas: vec![], dst: None, normal: None }],
            mem: Mem { chunks: vec![], first: ng, next: ng, gover: Default::default() },
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Model::default()),
            allow_panic: false,
            occ: Default::default(),
            ufargs: vec![],
            steps: 0,
            notes: vec![],
            depth: 0,
            dead: false,
            panicked: false,
            wlog: vec![],
        }
    }
    pub fn get_func(&mut self, name: &str) -> Rc<Func> {
        if let Some(f) = self.funcs.get(name) {
            return f.clone();
        }
        let f = self.m.func(name);
        self.funcs.insert(name.to_string(), f.clone());
        self.fn_seen.insert(name.to_string());
        f
    }
    pub fn run(&mut self, st: State) {
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.paths >= self.lim.paths {
                self.incomplete = Some(format!("path limit {} reached", self.lim.paths));
                return;
            }
            if Instant::now() > self.lim.deadline {
                self.incomplete = Some("time budget exhausted".into());
                return;
            }
            let r = self.path(&mut s);
            match r {
                Ok(()) | Err(Stop::End) => {
                    self.paths += 1;
                    if self.samples.len() < 3 {
                        let d = self.describe(&s.model.clone());
                        self.samples.push(d);
                    }
                    let assumed_away = s.dead;
                    if !assumed_away && self.dumped < self.dump_max {
                        if let Some(d) = self.dump.clone() {
                            let t = self.trace_text(&s, &s.model.clone(), s.panicked);
                            let m = self.model_text(&s.model.clone());
                            let _ = std::fs::write(format!("{}/{}.model", d, self.dumped), m);
                            let _ = std::fs::write(format!("{}/{}.trace", d, self.dumped), t);
                            self.dumped += 1;
                        }
                    }
                }
                Err(Stop::Viol) => {
                    self.paths += 1;
                    if self.stop_first || self.viols.len() >= 8 {
                        return;
                    }
                }
                Err(Stop::Abort(e)) => {
                    let stack: Vec<String> = s.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect();
                    self.incomplete = Some(format!("{} in {:?}", e, stack));
                    return;
                }
            }
        }
    }
    fn path(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.frames.is_empty() {
                return Ok(());
            }
            self.block(st)?;
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.b;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = p.inc.iter().find(|(l, _)| *l == from).unwrap_or_else(|| panic!("phi in {} block {}", f.name, blk.name));
                let v = self.opd(st, &o.1);
                vals.push((p.d, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.prev = from;
        fr.b = b;
        fr.ip = 0;
    }
    /// run instructions of the current frame until control leaves the block
    fn block(&mut self, st: &mut State) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        let b = st.frames.last().unwrap().b;
        let blk = &f.blocks[b as usize];
        loop {
            let ip = st.frames.last().unwrap().ip as usize;
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.steps {
                return Err(Stop::Abort("step limit of a path reached".into()));
            }
            if self.spec > 0 && self.steps > self.spec_end {
                return Err(Stop::Abort("speculative".into()));
            }
            if self.steps & 0xffff == 0 && Instant::now() > self.lim.deadline {
                return Err(Stop::Abort("time budget exhausted".into()));
            }
            let d = blk.dbg[ip];
            if d != 0 {
                self.visited.insert(d);
            }
            let ins = &blk.ins[ip];
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.frames.last_mut().unwrap().regs[$d as usize] = v;
                }};
            }
            match ins {
                Ins::Nop => {}
                Ins::Bin { op, ty, a, b, d } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    if let Some((n, e)) = self.lanes(*ty) {
                        let w = self.width(e);
                        let (x, y) = match (&x, &y) {
                            (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                            _ => panic!(),
                        };
                        let mut r = Vec::with_capacity(n);
                        for i in 0..n {
                            r.push(self.bin1(*op, &x[i], &y[i], w)?);
                        }
                        set!(*d, Val::A(Rc::new(r)));
                    } else {
                        let w = self.width(*ty);
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            if let Val::S(yb) = &y {
                                // the code must rule out a zero divisor itself
                                let z = vec![F; yb.len()];
                                let e = self.c.g.eq(yb, &z);
                                if self.branch(st, e, |_, _, _| {})? {
                                    return Err(self.viol(st, "division by zero"));
                                }
                            }
                        }
                        set!(*d, self.bin1(*op, &x, &y, w)?);
                    }
                }
                Ins::Icmp { p, ty, a, b, d } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    if let Some((n, e)) = self.lanes(*ty) {
                        let w = self.width(e);
                        let (x, y) = match (&x, &y) {
                            (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                            _ => panic!(),
                        };
                        let mut r = Vec::with_capacity(n);
                        for i in 0..n {
                            let l = self.cmp1(*p, &x[i], &y[i], w);
                            r.push(Self::lit_val(l));
                        }
                        set!(*d, Val::A(Rc::new(r)));
                    } else {
                        let w = self.width(*ty);
                        let l = self.cmp1(*p, &x, &y, w);
                        set!(*d, Self::lit_val(l));
                    }
                }
                Ins::Fcmp { p, a, b, d, ty } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    if let (Val::C(u), Val::C(v)) = (&x, &y) {
                        let (u, v) = if matches!(self.m.types[*ty as usize], Ty::F32) {
                            (f32::from_bits(*u as u32) as f64, f32::from_bits(*v as u32) as f64)
                        } else {
                            (f64::from_bits(*u), f64::from_bits(*v))
                        };
                        set!(*d, Val::C(fcmp(p, u, v) as u64));
                    } else if let Some(l) = self.dy_cmp(p, &x, &y, *ty) {
                        set!(*d, Self::lit_val(l));
                    } else if matches!(self.m.types[*ty as usize], Ty::F32) {
                        return Err(Stop::Abort("symbolic f32".into()));
                    } else {
                        let (u, v) = (self.ext_of(&x), self.ext_of(&y));
                        let e = self.ext(Ext::Cmp(p.clone(), u, v));
                        let l = self.c.g.input(Input::Ext(e, 0));
                        set!(*d, Self::lit_val(l));
                    }
                }
                Ins::FBin { op, a, b, d, ty } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    if let (Val::C(u), Val::C(v)) = (&x, &y) {
                        let f32_ = matches!(self.m.types[*ty as usize], Ty::F32);
                        let ap = |u: f64, v: f64| match op {
                            '+' => u + v,
                            '-' => u - v,
                            '*' => u * v,
                            '/' => u / v,
                            _ => u % v,
                        };
                        let r = if f32_ {
                            (ap(f32::from_bits(*u as u32) as f64, f32::from_bits(*v as u32) as f64) as f32).to_bits() as u64
                        } else {
                            ap(f64::from_bits(*u), f64::from_bits(*v)).to_bits()
                        };
                        set!(*d, Val::C(r));
                    } else if let Some(v) = self.dy_bin(*op, &x, &y, *ty) {
                        set!(*d, v);
                    } else {
                        if matches!(self.m.types[*ty as usize], Ty::F32) {
                            return Err(Stop::Abort("symbolic f32".into()));
                        }
                        let (u, v) = (self.ext_of(&x), self.ext_of(&y));
                        let e = self.ext(Ext::Bin(*op, u, v));
                        set!(*d, Val::X(e));
                    }
                }
                Ins::FNeg { a, d, .. } => {
                    let x = self.opd(st, a);
                    let r = match &x {
                        Val::C(u) => Val::C((-f64::from_bits(*u)).to_bits()),
                        _ => {
                            let u = self.ext_of(&x);
                            Val::X(self.ext(Ext::Neg(u)))
                        }
                    };
                    set!(*d, r);
                }
                Ins::Select { cty, c, ty, a, b, d } => {
                    let cv = self.opd(st, c);
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    if let Some((n, _)) = self.lanes(*cty) {
                        let (cv, x, y) = match (&cv, &x, &y) {
                            (Val::A(c), Val::A(x), Val::A(y)) => (c.clone(), x.clone(), y.clone()),
                            _ => panic!(),
                        };
                        let e = self.lanes(*ty).unwrap().1;
                        let mut r = vec![];
                        for i in 0..n {
                            let l = self.val_lit(&cv[i]);
                            r.push(self.select1(l, &x[i], &y[i], e)?);
                        }
                        set!(*d, Val::A(Rc::new(r)));
                    } else {
                        let mut l = self.val_lit(&cv);
                        if l > 1 && matches!(self.m.types[*ty as usize], Ty::Ptr) {
                            let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q);
                            if !same {
                                l = self.branch(st, l, |_, _, _| {})? as u32;
                            }
                        }
                        set!(*d, self.select1(l, &x, &y, *ty)?);
                    }
                }
                Ins::Cast { op, from, a, to, d } => {
                    let x = self.opd(st, a);
                    match (self.lanes(*from), self.lanes(*to)) {
                        (None, None) => set!(*d, self.cast1(*op, &x, *from, *to)?),
                        (Some((n, e)), Some((n2, e2))) if *op != CastOp::Bitcast => {
                            let x = match &x {
                                Val::A(x) => x.clone(),
                                _ => panic!(),
                            };
                            debug_assert_eq!(n, n2);
                            let mut r = vec![];
                            for i in 0..n {
                                r.push(self.cast1(*op, &x[i], e, e2)?);
                            }
                            set!(*d, Val::A(Rc::new(r)));
                        }
                        (a, b) => {
                            // bitcast between vectors and integers
                            let mut l = vec![];
                            match (&x, a) {
                                (Val::A(v), Some((_, e))) => {
                                    let w = self.width(e);
                                    for y in v.iter() {
                                        l.extend(self.bits(y, w));
                                    }
                                }
                                (v, _) => l = self.bits(v, self.width(*from)),
                            }
                            let r = match b {
                                Some((n, e)) => {
                                    let w = self.width(e) as usize;
                                    Val::A(Rc::new((0..n).map(|i| self.mk(l[i * w..(i + 1) * w].to_vec())).collect()))
                                }
                                None => self.mk(l),
                            };
                            set!(*d, r);
                        }
                    }
                }
                Ins::Gep { src, base, idx, d } => {
                    let mut acc = self.opd(st, base);
                    let mut cur = *src;
                    for (i, (ity, o)) in idx.iter().enumerate() {
                        let iv = self.opd(st, o);
                        let (scale, nt) = if i == 0 {
                            (self.m.size(cur), cur)
                        } else {
                            match self.m.types[cur as usize] {
                                Ty::Struct(..) => {
                                    let k = match iv {
                                        Val::C(k) => k,
                                        _ => panic!(),
                                    };
                                    let (o, t) = self.m.field_off(cur, k as usize);
                                    acc = self.bin1(Op::Add, &acc, &Val::C(o), 64)?;
                                    cur = t;
                                    continue;
                                }
                                _ => {
                                    let (_, e) = self.m.field_off(cur, 0);
                                    (self.m.size(e), e)
                                }
                            }
                        };
                        let w = self.width(*ity);
                        let iv = match &iv {
                            Val::C(k) => Val::C(sext(*k, w) as u64),
                            Val::S(b) => {
                                let mut b = b.to_vec();
                                let s = *b.last().unwrap();
                                b.resize(64, s);
                                Val::S(b.into())
                            }
                            _ => panic!(),
                        };
                        let off = self.bin1(Op::Mul, &iv, &Val::C(scale), 64)?;
                        acc = self.bin1(Op::Add, &acc, &off, 64)?;
                        cur = nt;
                    }
                    set!(*d, acc);
                }
                Ins::Load { ty, p, d } => {
                    let pv = self.opd(st, p);
                    let r = if let Val::S(_) = &pv {
                        match self.mux_load(st, &pv, *ty)? {
                            Some(v) => v,
                            None => {
                                let a = self.conc(st, &pv, 64)?;
                                self.load(st, a, *ty)?
                            }
                        }
                    } else {
                        let a = self.conc(st, &pv, 64)?;
                        self.load(st, a, *ty)?
                    };
                    set!(*d, r);
                }
                Ins::Store { ty, v, p } => {
                    let pv = self.opd(st, p);
                    let x = self.opd(st, v);
                    let a = self.conc(st, &pv, 64)?;
                    self.store(st, a, *ty, &x)?;
                }
                Ins::Alloca { ty, n, d } => {
                    let k = self.opd(st, n);
                    let k = self.conc(st, &k, 64)?;
                    let sz = self.m.size(*ty) * k;
                    let a = st.mem.alloc(sz, 16, OKind::Stack);
                    let fr = st.frames.last_mut().unwrap();
                    fr.allocas.push(a >> 32);
                    fr.regs[*d as usize] = Val::C(a);
                }
                Ins::Br(t) => {
                    self.goto(st, *t);
                    return Ok(());
                }
                Ins::CBr(c, t, e) => {
                    let cv = self.opd(st, c);
                    let l = self.val_lit(&cv);
                    let (t, e) = (*t, *e);
                    if l > 1 && !self.concrete && !self.no_merge {
                        match self.try_merge(st, l, t, e)? {
                            Some(true) => return Ok(()),
                            _ => {}
                        }
                    }
                    let v = self.branch(st, l, |ex, o, dir| ex.goto(o, if dir { t } else { e }))?;
                    self.goto(st, if v { t } else { e });
                    return Ok(());
                }
                Ins::Switch { ty, v, def, cases } => {
                    let x = self.opd(st, v);
                    let w = self.width(*ty);
                    match &x {
                        Val::C(k) => {
                            let t = cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def);
                            self.goto(st, t);
                        }
                        _ => {
                            // the arm of the current model; the other arms are queued
                            let b = self.bits(&x, w);
                            let k = self.val_under(&st.model, &x, w);
                            let mut arms: BTreeMap<u32, Vec<Lit>> = BTreeMap::new();
                            let mut any = vec![];
                            for (cv, t) in cases {
                                let cb: Vec<Lit> = (0..w).map(|i| ((cv >> i) & 1) as u32).collect();
                                let e = self.c.g.eq(&b, &cb);
                                arms.entry(*t).or_default().push(e);
                                any.push(e);
                            }
                            let a = self.c.g.or_all(&any);
                            arms.entry(*def).or_default().push(neg(a));
                            let mine = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            let mut taken = T;
                            for (t, ls) in arms {
                                let l = self.c.g.or_all(&ls);
                                if t == mine {
                                    taken = l;
                                    continue;
                                }
                                if self.concrete || l == F {
                                    continue;
                                }
                                if let Some(m) = self.solve(st, l)? {
                                    if self.spec > 0 {
                                        return Err(Stop::Abort("speculative".into()));
                                    }
                                    self.forks += 1;
                                    let mut o = st.clone();
                                    o.depth += 1;
                                    o.model = m;
                                    self.push_pc(&mut o, l);
                                    self.goto(&mut o, t);
                                    self.work.push(o);
                                }
                            }
                            if !self.concrete {
                                self.push_pc(st, taken);
                            }
                            self.goto(st, mine);
                        }
                    }
                    return Ok(());
                }
                Ins::Ret(v) => {
                    let r = match v {
                        Some((_, o)) => Some(self.opd(st, o)),
                        None => None,
                    };
                    let fr = st.frames.pop().unwrap();
                    for id in fr.allocas {
                        *st.mem.slot(id) = None;
                    }
                    if let Some(caller) = st.frames.last_mut() {
                        if let (Some(d), Some(v)) = (fr.dst, r) {
                            caller.regs[d as usize] = v;
                        }
                        match fr.normal {
                            Some(b) => self.goto(st, b),
                            None => caller.ip += 1,
                        }
                    }
                    return Ok(());
                }
                Ins::Call { rty, f: callee, args, d, normal } => {
                    let name = match callee {
                        Callee::Direct(n) => n.clone(),
                        Callee::Indirect(o) => {
                            let p = self.opd(st, o);
                            let a = self.conc(st, &p, 64)?;
                            let k = (a & 0xffff_ffff).wrapping_sub(BASE) / 16;
                            if a >> 32 != FUNC_ID || k as usize >= self.m.fnames.len() {
                                return Err(self.viol(st, "memory: call through an invalid function pointer"));
                            }
                            self.m.fnames[k as usize].clone()
                        }
                    };
                    let name = match self.m.aliases.get(&name) {
                        Some(a) => a.clone(),
                        None => name,
                    };
                    let mut av = Vec::with_capacity(args.len());
                    for (_, o) in args {
                        av.push(self.opd(st, o));
                    }
                    match self.builtin(st, &name, &av, args, *rty)? {
                        Some(v) => {
                            if let Some(d) = d {
                                set!(*d, v);
                            }
                            if let Some(b) = normal {
                                self.goto(st, *b);
                                return Ok(());
                            }
                        }
                        None => {
                            if !self.m.funcs.contains_key(&name) {
                                return Err(Stop::Abort(format!("call of unmodelled external function {}", name)));
                            }
                            if st.frames.len() > 2000 {
                                return Err(Stop::Abort("call depth".into()));
                            }
                            let f = self.get_func(&name);
                            let mut regs = vec![Val::C(0); f.nregs];
                            for (i, v) in av.into_iter().enumerate() {
                                if i < f.params.len() {
                                    regs[f.params[i].1 as usize] = v;
                                }
                            }
                            st.frames.push(Frame { f, regs, b: 0, ip: 0, prev: 0, allocas: vec![], dst: *d, normal: *normal });
                            return Ok(());
                        }
                    }
                }
                Ins::Extract { a, idx, d, .. } => {
                    let mut v = self.opd(st, a);
                    for i in idx {
                        v = match &v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    set!(*d, v);
                }
                Ins::Insert { a, v, idx, d, .. } => {
                    let base = self.opd(st, a);
                    let x = self.opd(st, v);
                    fn ins(b: &Val, idx: &[u32], x: Val) -> Val {
                        if idx.is_empty() {
                            return x;
                        }
                        match b {
                            Val::A(v) => {
                                let mut v = (**v).clone();
                                v[idx[0] as usize] = ins(&v[idx[0] as usize], &idx[1..], x);
                                Val::A(Rc::new(v))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    set!(*d, ins(&base, idx, x));
                }
                Ins::ExtElem { a, i, d, .. } => {
                    let v = self.opd(st, a);
                    let k = self.opd(st, i);
                    let k = self.conc(st, &k, 64)?;
                    let r = match &v {
                        Val::A(x) => x[k as usize].clone(),
                        _ => panic!(),
                    };
                    set!(*d, r);
                }
                Ins::InsElem { a, v, i, d, .. } => {
                    let b = self.opd(st, a);
                    let x = self.opd(st, v);
                    let k = self.opd(st, i);
                    let k = self.conc(st, &k, 64)?;
                    let r = match &b {
                        Val::A(y) => {
                            let mut y = (**y).clone();
                            y[k as usize] = x;
                            Val::A(Rc::new(y))
                        }
                        _ => panic!(),
                    };
                    set!(*d, r);
                }
                Ins::Shuffle { a, b, mask, d, .. } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    let mv = self.cval(mask.0, &mask.1);
                    let (x, y, mv) = match (&x, &y, &mv) {
                        (Val::A(x), Val::A(y), Val::A(m)) => (x.clone(), y.clone(), m.clone()),
                        _ => panic!(),
                    };
                    let r = mv
                        .iter()
                        .map(|k| match k {
                            Val::C(k) => {
                                let k = *k as usize & 0xffff_ffff;
                                if k < x.len() { x[k].clone() } else if k - x.len() < y.len() { y[k - x.len()].clone() } else { x[0].clone() }
                            }
                            _ => panic!(),
                        })
                        .collect();
                    set!(*d, Val::A(Rc::new(r)));
                }
                Ins::Rmw { op, ty, p, v, d } => {
                    let pv = self.opd(st, p);
                    let x = self.opd(st, v);
                    let a = self.conc(st, &pv, 64)?;
                    let old = self.load(st, a, *ty)?;
                    let w = self.width(*ty);
                    let nv = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin1(Op::Add, &old, &x, w)?,
                        "sub" => self.bin1(Op::Sub, &old, &x, w)?,
                        "and" => self.bin1(Op::And, &old, &x, w)?,
                        "or" => self.bin1(Op::Or, &old, &x, w)?,
                        "xor" => self.bin1(Op::Xor, &old, &x, w)?,
                        o => return Err(Stop::Abort(format!("atomicrmw {}", o))),
                    };
                    self.store(st, a, *ty, &nv)?;
                    set!(*d, old);
                }
                Ins::CmpXchg { ty, p, c, n, d } => {
                    let pv = self.opd(st, p);
                    let cv = self.opd(st, c);
                    let nv = self.opd(st, n);
                    let a = self.conc(st, &pv, 64)?;
                    let old = self.load(st, a, *ty)?;
                    let w = self.width(*ty);
                    let l = self.cmp1(Pred::Eq, &old, &cv, w);
                    let eq = self.branch(st, l, |_, _, _| {})?;
                    if eq {
                        self.store(st, a, *ty, &nv)?;
                    }
                    set!(*d, Val::A(Rc::new(vec![old, Val::C(eq as u64)])));
                }
                Ins::Freeze { a, d, .. } => {
                    let v = self.opd(st, a);
                    set!(*d, v);
                }
                Ins::Unreachable => return Err(self.viol(st, "undefined behaviour: unreachable code reached")),
                Ins::Bad(l) => return Err(Stop::Abort(format!("unsupported instruction: {}", l.chars().take(120).collect::<String>()))),
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    /// A load at base + symbolic offset inside one small object whose reachable addresses are few:
    /// a multiplexer instead of a fork. None: not applicable.
    fn mux_load(&mut self, st: &mut State, pv: &Val, ty: TyId) -> R<Option<Val>> {
        if self.concrete || !matches!(self.m.types[ty as usize], Ty::Int(w) if w <= 64) {
            return Ok(None);
        }
        let b = match pv {
            Val::S(b) => b.clone(),
            _ => return Ok(None),
        };
        if b[32..].iter().any(|l| *l > 1) {
            return Ok(None);
        }
        let a0 = self.val_under(&st.model, pv, 64);
        let (o, _) = match self.obj(st, a0) {
            Some(x) => x,
            None => return Ok(None),
        };
        let n = self.m.size(ty);
        if o.size > 1024 || o.size < n || o.kind == OKind::Stack {
            return Ok(None);
        }
        // in bounds for all values?
        let base = (a0 >> 32 << 32) + BASE;
        let k64 = |v: u64| -> Vec<Lit> { (0..64).map(|i| ((v >> i) & 1) as u32).collect() };
        let lo = self.c.g.ult(&b, &k64(base));
        let hi = self.c.g.ult(&k64(base + o.size - n), &b);
        let out = self.c.g.or(lo, hi);
        if out != F && self.solve(st, out)?.is_some() {
            return Ok(None);
        }
        let w = self.width(ty);
        let mut r: Option<Vec<Lit>> = None;
        for k in (0..=o.size - n).rev() {
            let e = self.c.g.eq(&b, &k64(base + k));
            if e == F {
                continue;
            }
            let v = self.load(st, base + k, ty)?;
            let v = self.bits(&v, w);
            r = Some(match r {
                None => v,
                Some(x) => self.c.g.muxv(e, &v, &x),
            });
        }
        Ok(r.map(|x| self.mk(x)))
    }

    pub fn str_at(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.conc(st, p, 64)?;
        let n = self.conc(st, n, 64)?;
        let b = self.read(st, a, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }
    pub fn panic_path(&mut self, st: &mut State, what: &str) -> Stop {
        if self.spec > 0 {
            return Stop::Abort("speculative".into());
        }
        if st.allow_panic {
            self.panics_allowed += 1;
            st.panicked = true;
            Stop::End
        } else {
            self.viol(st, &format!("panic: {}", what))
        }
    }
    pub fn assume(&mut self, st: &mut State, l: Lit) -> R<()> {
        if self.spec > 0 {
            return Err(Stop::Abort("speculative".into()));
        }
        if l == T {
            return Ok(());
        }
        if l == F {
            self.infeasible += 1;
            st.dead = true;
            return Err(Stop::End);
        }
        if st.model.lit(&self.c, l) {
            self.push_pc(st, l);
            return Ok(());
        }
        if self.concrete {
            self.infeasible += 1;
            st.notes.push(("assume_failed".into(), Val::C(1), 1));
            return Err(Stop::End);
        }
        match self.solve(st, l)? {
            Some(m) => {
                st.model = m;
                self.push_pc(st, l);
                Ok(())
            }
            None => {
                self.infeasible += 1;
                st.dead = true;
                Err(Stop::End)
            }
        }
    }
    pub fn check(&mut self, st: &mut State, l: Lit, label: &str) -> R<()> {
        if self.spec > 0 {
            return Err(Stop::Abort("speculative".into()));
        }
        *self.checks.entry(label.to_string()).or_default() += 1;
        if self.concrete {
            let v = st.model.lit(&self.c, l);
            st.notes.push((format!("check {}", label), Val::C(v as u64), 1));
            if !v {
                return Err(self.viol(st, label));
            }
            return Ok(());
        }
        if l == T {
            self.trivially += 1;
            return Ok(());
        }
        self.decided += 1;
        if !st.model.lit(&self.c, l) {
            return Err(self.viol(st, label));
        }
        match self.solve(st, neg(l))? {
            Some(m) => {
                st.model = m;
                Err(self.viol(st, label))
            }
            None => {
                self.push_pc(st, l);
                Ok(())
            }
        }
    }
}

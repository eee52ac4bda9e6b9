//! Textual LLVM IR -> decoded instructions. Function bodies are decoded on first call.
use crate::aig::FxMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u64, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(Vec<u64>, bool), // magnitude limbs, negative
    Null,
    Undef,
    Zero,
    Bool(bool),
    Str(Vec<u8>),
    Global(String),
    Agg(Vec<(TyId, Const)>),
    Splat(TyId, Box<Const>),
    Float(u64),
    Gep(TyId, Box<Const>, Vec<Const>),
    Cast(String, TyId, Box<Const>, TyId),
    Bin(String, TyId, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Cst(Rc<(TyId, Const)>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, ty: TyId, a: Opd, b: Opd, d: u32 },
    Icmp { p: Pred, ty: TyId, a: Opd, b: Opd, d: u32 },
    Fcmp { p: String, ty: TyId, a: Opd, b: Opd, d: u32 },
    FBin { op: char, ty: TyId, a: Opd, b: Opd, d: u32 },
    FNeg { ty: TyId, a: Opd, d: u32 },
    Select { cty: TyId, c: Opd, ty: TyId, a: Opd, b: Opd, d: u32 },
    Cast { op: CastOp, from: TyId, a: Opd, to: TyId, d: u32 },
    Gep { src: TyId, base: Opd, idx: Vec<(TyId, Opd)>, d: u32 },
    Load { ty: TyId, p: Opd, d: u32 },
    Store { ty: TyId, v: Opd, p: Opd },
    Alloca { ty: TyId, n: Opd, d: u32 },
    Br(u32),
    CBr(Opd, u32, u32),
    Switch { ty: TyId, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<(TyId, Opd)>),
    Call { rty: TyId, f: Callee, args: Vec<(TyId, Opd)>, d: Option<u32>, normal: Option<u32> },
    Extract { ty: TyId, a: Opd, idx: Vec<u32>, d: u32 },
    Insert { ty: TyId, a: Opd, vty: TyId, v: Opd, idx: Vec<u32>, d: u32 },
    ExtElem { ty: TyId, a: Opd, i: Opd, d: u32 },
    InsElem { ty: TyId, a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { ty: TyId, a: Opd, b: Opd, mask: Rc<(TyId, Const)>, d: u32 },
    Rmw { op: String, ty: TyId, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: TyId, p: Opd, c: Opd, n: Opd, d: u32 },
    Freeze { ty: TyId, a: Opd, d: u32 },
    Nop,
    Unreachable,
    Bad(String),
}
impl Ins {
    /// the register it sets, with the type of the result where that can be merged (an i1 for comparisons
    /// is type BOOL; addresses and the like: PTR)
    pub fn defines(&self) -> Option<(u32, TyId)> {
        use Ins::*;
        match self {
            Bin { d, ty, .. } | FBin { d, ty, .. } | FNeg { d, ty, .. } | Select { d, ty, .. } | Load { d, ty, .. } | Freeze { d, ty, .. } | Insert { d, ty, .. } | InsElem { d, ty, .. } | Rmw { d, ty, .. } => Some((*d, *ty)),
            Cast { d, to, .. } => Some((*d, *to)),
            Call { d: Some(d), rty, .. } => Some((*d, *rty)),
            Icmp { d, .. } | Fcmp { d, .. } => Some((*d, TY_CMP)),
            Gep { d, .. } | Alloca { d, .. } | Extract { d, .. } | ExtElem { d, .. } | Shuffle { d, .. } | CmpXchg { d, .. } => Some((*d, TY_NONE)),
            _ => None,
        }
    }
    pub fn operands(&self) -> Vec<&Opd> {
        use Ins::*;
        match self {
            Bin { a, b, .. } | Icmp { a, b, .. } | Fcmp { a, b, .. } | FBin { a, b, .. } | Shuffle { a, b, .. } => vec![a, b],
            FNeg { a, .. } | Cast { a, .. } | Extract { a, .. } | Freeze { a, .. } => vec![a],
            Select { c, a, b, .. } => vec![c, a, b],
            Gep { base, idx, .. } => std::iter::once(base).chain(idx.iter().map(|x| &x.1)).collect(),
            Load { p, .. } => vec![p],
            Store { v, p, .. } => vec![v, p],
            Alloca { n, .. } => vec![n],
            CBr(c, ..) => vec![c],
            Switch { v, .. } => vec![v],
            Ret(Some((_, v))) => vec![v],
            Call { f, args, .. } => {
                let mut r: Vec<&Opd> = args.iter().map(|x| &x.1).collect();
                if let Callee::Indirect(o) = f {
                    r.push(o);
                }
                r
            }
            Insert { a, v, .. } => vec![a, v],
            ExtElem { a, i, .. } => vec![a, i],
            InsElem { a, v, i, .. } => vec![a, v, i],
            Rmw { p, v, .. } => vec![p, v],
            CmpXchg { p, c, n, .. } => vec![p, c, n],
            Br(_) | Ret(None) | Nop | Unreachable | Bad(_) => vec![],
        }
    }
}
/// results of comparisons; results that are not merged unless equal
pub const TY_CMP: TyId = TyId::MAX;
pub const TY_NONE: TyId = TyId::MAX - 1;
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc, Zext, Sext, Bitcast, PtrInt, UiToFp, SiToFp, FpToUi, FpToSi, FpTrunc, FpExt,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub ty: TyId,
    pub d: u32,
    pub inc: Vec<(u32, Opd)>, // predecessor block, value
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub ret: TyId,
    pub params: Vec<(TyId, u32)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub src: String,
    pub types: Vec<Ty>,
    tyidx: FxMap<Ty, TyId>,
    named: FxMap<String, TyId>,
    /// function name -> (header start, body start, body end) byte offsets, index
    pub funcs: FxMap<String, (usize, usize, usize, u32)>,
    pub fnames: Vec<String>,
    pub decls: FxMap<String, ()>,
    /// global name -> byte range of the text after '='
    pub globals: FxMap<String, (usize, usize)>,
    pub aliases: FxMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Loc(String),       // %x
    Glo(String),       // @x
    Num(&'a str),      // 123 -5 0x..
    Str(Vec<u8>),      // c"..."
    Quoted(&'a str),   // "..."
    Word(&'a str),
    Meta(&'a str),     // !foo #12
    P(char),
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, ni) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&unescape(&s[i + 2..j])).into_owned(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glo(name) });
                i = ni;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unescape(&s[i + 2..j])));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Quoted(&s[i + 1..j]));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-' && b[j - 1] == b'e')) {
                    j += 1;
                }
                v.push(Tok::Num(&s[i..j]));
                i = j;
            }
            b'!' | b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Meta(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Word(&s[i..j]));
                i = j;
            }
            b'.' => {
                // "..."
                i += 3;
                v.push(Tok::Word("..."));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct Ps<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
}
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok<'a> {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or(Tok::P('\0'))
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?}, got {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]);
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if *x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::P('\0') => return,
                _ => {}
            }
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => parse_num(s).0[0],
            t => panic!("number expected, got {:?}", t),
        }
    }
}
fn parse_num(s: &str) -> (Vec<u64>, bool) {
    let (neg, s) = if let Some(r) = s.strip_prefix('-') { (true, r) } else { (false, s) };
    let mut r = vec![0u64; 8];
    for ch in s.bytes() {
        let mut c = (ch - b'0') as u128;
        for l in r.iter_mut() {
            let t = *l as u128 * 10 + c;
            *l = t as u64;
            c = t >> 64;
        }
    }
    (r, neg)
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr",
    "bitcast", "sub", "add", "trunc", "xor", "splat", "mul", "shl", "and", "or", "lshr", "zext", "sext", "asm", "select", "icmp",
];

impl Module {
    pub fn parse(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            types: vec![],
            tyidx: Default::default(),
            named: Default::default(),
            funcs: Default::default(),
            fnames: vec![],
            decls: Default::default(),
            globals: Default::default(),
            aliases: Default::default(),
        };
        m.intern(Ty::Other);
        let mut off = 0usize;
        let bytes = src.as_bytes();
        let n = bytes.len();
        let line_end = |o: usize| -> usize { bytes[o..].iter().position(|c| *c == b'\n').map(|p| o + p).unwrap_or(n) };
        let name_of = |s: &str| -> (String, usize) {
            // s starts at '@'
            let b = s.as_bytes();
            if b[1] == b'"' {
                let mut j = 2;
                while b[j] != b'"' {
                    j += 1;
                }
                (String::from_utf8_lossy(&unescape(&s[2..j])).into_owned(), j + 1)
            } else {
                let mut j = 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b"_.$-".contains(&b[j])) {
                    j += 1;
                }
                (s[1..j].to_string(), j)
            }
        };
        let mut named_types = vec![];
        while off < n {
            let e = line_end(off);
            let l = &src[off..e];
            if l.starts_with("define") {
                let at = l.find('@').unwrap();
                let (name, _) = name_of(&l[at..]);
                // find body end: a line that is exactly "}"
                let mut o = e + 1;
                let bstart = o;
                let bend;
                loop {
                    let e2 = line_end(o);
                    if &src[o..e2] == "}" {
                        bend = o;
                        o = e2 + 1;
                        break;
                    }
                    o = e2 + 1;
                }
                let id = m.fnames.len() as u32;
                m.fnames.push(name.clone());
                m.funcs.insert(name, (off, bstart, bend, id));
                off = o;
                continue;
            } else if l.starts_with("declare") {
                let at = l.find('@').unwrap();
                let (name, _) = name_of(&l[at..]);
                m.decls.insert(name, ());
            } else if l.starts_with('@') {
                let (name, k) = name_of(l);
                let rest = l[k..].trim_start();
                let rest_off = off + (l.len() - rest.len()) + 1;
                if rest[1..].contains(" alias ") && !rest.contains(" global ") && !rest.contains(" constant ") {
                    let at = rest.rfind('@').unwrap();
                    let (t, _) = name_of(&rest[at..]);
                    m.aliases.insert(name, t);
                } else {
                    m.globals.insert(name, (rest_off, e));
                }
            } else if l.starts_with('%') {
                named_types.push((off, e));
            }
            off = e + 1;
        }
        // named struct types (two passes so that forward references resolve to Other at worst)
        let texts: Vec<String> = named_types.iter().map(|(a, b)| src[*a..*b].to_string()).collect();
        for _ in 0..2 {
            for t in &texts {
                let mut p = Ps { t: lex(t), i: 0 };
                let nm = match p.next() {
                    Tok::Loc(s) => s,
                    _ => continue,
                };
                p.expect('=');
                p.eatw("type");
                let ty = m.ty(&mut p);
                m.named.insert(nm, ty);
            }
        }
        m.src = src;
        m
    }

    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tyidx.insert(t, i);
        i
    }
    pub fn int(&mut self, w: u32) -> TyId {
        self.intern(Ty::Int(w))
    }

    fn ty(&mut self, p: &mut Ps) -> TyId {
        let t = match p.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if p.eatw("addrspace") {
                        p.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                w if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P('[') => {
                let n = p.num();
                p.eatw("x");
                let e = self.ty(p);
                p.expect(']');
                Ty::Arr(n, e)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !p.eat('}') {
                    v.push(self.ty(p));
                    p.eat(',');
                }
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if p.eat('{') {
                    let mut v = vec![];
                    while !p.eat('}') {
                        v.push(self.ty(p));
                        p.eat(',');
                    }
                    p.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let n = p.num();
                    p.eatw("x");
                    let e = self.ty(p);
                    p.expect('>');
                    Ty::Vec(n, e)
                }
            }
            Tok::Loc(n) => return self.named.get(&n).copied().unwrap_or_else(|| 0),
            t => panic!("type expected, got {:?} near {:?}", t, &p.t[p.i.saturating_sub(8)..(p.i + 4).min(p.t.len())]),
        };
        self.intern(t)
    }

    fn skip_attrs(&mut self, p: &mut Ps) {
        loop {
            match p.peek() {
                Some(Tok::Word(w)) if !VALUE_WORDS.contains(w) => {
                    let w = *w;
                    p.i += 1;
                    if w == "align" && matches!(p.peek(), Some(Tok::Num(_))) {
                        p.i += 1;
                    } else if p.isp('(') {
                        p.skip_parens();
                    }
                }
                Some(Tok::Quoted(_)) => {
                    p.i += 1;
                    if p.eat('=') {
                        p.i += 1;
                    }
                }
                Some(Tok::Meta(m)) if m.starts_with('#') => {
                    p.i += 1;
                }
                _ => return,
            }
        }
    }

    fn cst(&mut self, p: &mut Ps, ty: TyId) -> Const {
        match p.next() {
            Tok::Num(s) => {
                if matches!(self.types[ty as usize], Ty::F64 | Ty::F32) {
                    if let Some(h) = s.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h, 16).unwrap();
                        return Const::Float(bits); // always the double pattern
                    }
                    return Const::Float(s.parse::<f64>().unwrap().to_bits());
                }
                let (v, n) = parse_num(s);
                Const::Int(v, n)
            }
            Tok::Glo(g) => Const::Global(g),
            Tok::Str(b) => Const::Str(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !p.eat(']') {
                    let t = self.ty(p);
                    let c = self.cst(p, t);
                    v.push((t, c));
                    p.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !p.eat('}') {
                    let t = self.ty(p);
                    let c = self.cst(p, t);
                    v.push((t, c));
                    p.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('<') => {
                let br = p.eat('{');
                let mut v = vec![];
                loop {
                    if br && p.eat('}') {
                        p.expect('>');
                        break;
                    }
                    if !br && p.eat('>') {
                        break;
                    }
                    let t = self.ty(p);
                    let c = self.cst(p, t);
                    v.push((t, c));
                    p.eat(',');
                }
                Const::Agg(v)
            }
            Tok::Word(w) => match w {
                "true" => Const::Bool(true),
                "false" => Const::Bool(false),
                "null" | "none" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    p.expect('(');
                    let t = self.ty(p);
                    let c = self.cst(p, t);
                    p.expect(')');
                    Const::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    while !p.isp('(') {
                        p.i += 1;
                        // inrange(..)
                        if matches!(p.t.get(p.i - 1), Some(Tok::Word("inrange"))) {
                            p.skip_parens();
                        }
                    }
                    p.expect('(');
                    let t = self.ty(p);
                    p.expect(',');
                    let pt = self.ty(p);
                    let b = self.cst(p, pt);
                    let mut idx = vec![];
                    while p.eat(',') {
                        let it = self.ty(p);
                        idx.push(self.cst(p, it));
                    }
                    p.expect(')');
                    Const::Gep(t, Box::new(b), idx)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                    p.expect('(');
                    let t = self.ty(p);
                    let c = self.cst(p, t);
                    p.eatw("to");
                    let t2 = self.ty(p);
                    p.expect(')');
                    Const::Cast(w.to_string(), t, Box::new(c), t2)
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while !p.isp('(') {
                        p.i += 1;
                    }
                    p.expect('(');
                    let t = self.ty(p);
                    let a = self.cst(p, t);
                    p.expect(',');
                    let t2 = self.ty(p);
                    let b = self.cst(p, t2);
                    p.expect(')');
                    Const::Bin(w.to_string(), t, Box::new(a), Box::new(b))
                }
                _ => panic!("constant word {:?}", w),
            },
            t => panic!("constant expected, got {:?} near {:?}", t, &p.t[p.i.saturating_sub(8)..(p.i + 4).min(p.t.len())]),
        }
    }

    /// type and initializer of a global (None if external)
    pub fn global(&mut self, name: &str) -> Option<(TyId, Option<Const>)> {
        let (a, b) = *self.globals.get(name)?;
        let text = self.src[a..b].to_string();
        let mut p = Ps { t: lex(&text), i: 0 };
        // skip linkage etc. up to 'global' / 'constant'
        let mut ext = false;
        loop {
            match p.next() {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                Tok::P('\0') => return None,
                _ => {}
            }
        }
        let t = self.ty(&mut p);
        if ext {
            return Some((t, None));
        }
        let c = self.cst(&mut p, t);
        Some((t, Some(c)))
    }

    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let mut s = 1;
                while s < b && s < 16 {
                    s *= 2;
                }
                if b > 16 { (b + 15) / 16 * 16 } else { s }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.types[*e as usize] {
                    let bits = n * w as u64;
                    return ((bits + 7) / 8).next_power_of_two();
                }
                (n * self.size(*e)).next_power_of_two()
            }
            Ty::Struct(v, packed) => {
                let mut o = 0;
                let mut al = 1;
                for e in v {
                    let a = if *packed { 1 } else { self.align(*e) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(*e);
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size(t).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(_, _) => self.size(t),
            Ty::Struct(v, packed) => {
                if *packed { 1 } else { v.iter().map(|e| self.align(*e)).max().unwrap_or(1) }
            }
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, e) in v.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align(*e) };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, *e);
                    }
                    o += self.size(*e);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i as u64 * self.size(*e), *e),
            _ => panic!("field_off on {:?}", self.types[t as usize]),
        }
    }

    pub fn func(&mut self, name: &str) -> Rc<Func> {
        let (h, bs, be, id) = self.funcs[name];
        let head = self.src[h..bs].to_string();
        let body = self.src[bs..be].to_string();
        // ---- header: return type is right before '@'
        let mut p = Ps { t: lex(&head), i: 0 };
        p.i += 1; // define
        let ret;
        loop {
            // skip linkage words and return attributes until a type parses as such
            match p.peek() {
                Some(Tok::Word(w)) => {
                    let is_ty = matches!(*w, "void" | "ptr" | "float" | "double") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        ret = self.ty(&mut p);
                        break;
                    }
                    let w = *w;
                    p.i += 1;
                    if w == "align" && matches!(p.peek(), Some(Tok::Num(_))) {
                        p.i += 1;
                    } else if p.isp('(') {
                        p.skip_parens();
                    }
                }
                Some(Tok::Quoted(_)) | Some(Tok::Num(_)) => {
                    p.i += 1;
                }
                _ => {
                    ret = self.ty(&mut p);
                    break;
                }
            }
        }
        p.i += 1; // @name
        p.expect('(');
        let mut regs: FxMap<String, u32> = Default::default();
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(')') {
            if p.eatw("...") {
                continue;
            }
            let t = self.ty(&mut p);
            self.skip_attrs(&mut p);
            let nm = match p.peek().cloned() {
                Some(Tok::Loc(n)) => {
                    p.i += 1;
                    n
                }
                _ => {
                    unnamed += 1;
                    format!("{}", unnamed - 1)
                }
            };
            let r = regs.len() as u32;
            regs.insert(nm, r);
            params.push((t, r));
            p.eat(',');
        }
        // ---- body: split into logical lines
        let mut lines: Vec<String> = vec![];
        let mut depth = false;
        for l in body.lines() {
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if depth {
                let s = lines.last_mut().unwrap();
                s.push(' ');
                s.push_str(t);
                if t.starts_with(']') {
                    depth = false;
                }
                continue;
            }
            if t.starts_with("to label") || t.starts_with("catch ") || t == "cleanup" || t.starts_with("filter ") {
                let s = lines.last_mut().unwrap();
                s.push(' ');
                s.push_str(t);
                continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                depth = true;
            }
            lines.push(t.to_string());
        }
        // blocks
        let mut bidx: FxMap<String, u32> = Default::default();
        let is_label = |l: &str| -> Option<String> {
            if l.starts_with('"') {
                let e = l[1..].find('"')? + 1;
                if l[e + 1..].starts_with(':') {
                    return Some(String::from_utf8_lossy(&unescape(&l[1..e])).into_owned());
                }
                return None;
            }
            let e = l.find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c)))?;
            if e > 0 && l[e..].starts_with(':') {
                Some(l[..e].to_string())
            } else {
                None
            }
        };
        let mut nb = 0u32;
        let mut first_label = None;
        for (k, l) in lines.iter().enumerate() {
            if let Some(n) = is_label(l) {
                if k == 0 {
                    first_label = Some(n.clone());
                }
                if k == 0 || nb > 0 {
                    bidx.insert(n, nb);
                    nb += 1;
                } else {
                    // implicit entry block precedes
                    bidx.insert(n, nb);
                    nb += 1;
                }
            } else if k == 0 {
                // implicit entry block gets the next unnamed number
                let n = format!("{}", params.len());
                bidx.insert(n, 0);
                nb = 1;
            }
        }
        let _ = first_label;
        let mut blocks: Vec<Block> = vec![];
        if lines.first().map(|l| is_label(l).is_none()).unwrap_or(false) {
            blocks.push(Block { name: "entry".into(), ..Default::default() });
        }
        for l in &lines {
            if let Some(n) = is_label(l) {
                blocks.push(Block { name: n, ..Default::default() });
                continue;
            }
            let mut p = Ps { t: lex(l), i: 0 };
            let dst = match p.peek().cloned() {
                Some(Tok::Loc(n)) => {
                    p.i += 1;
                    p.expect('=');
                    let k = regs.len() as u32;
                    Some(*regs.entry(n).or_insert(k))
                }
                _ => None,
            };
            let b = blocks.last_mut().unwrap();
            let mut cx = Cx { m: self, regs: &mut regs, bidx: &bidx };
            match cx.ins(&mut p, dst, l) {
                PI::Phi(ph) => b.phis.push(ph),
                PI::Ins(i) => {
                    b.ins.push(i);
                    let d = l.rfind("!dbg !").map(|k| l[k + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32)).unwrap_or(0);
                    b.dbg.push(d);
                }
            }
        }
        Rc::new(Func { name: name.to_string(), id, ret, params, nregs: regs.len(), blocks })
    }
}

enum PI {
    Phi(Phi),
    Ins(Ins),
}
struct Cx<'m> {
    m: &'m mut Module,
    regs: &'m mut FxMap<String, u32>,
    bidx: &'m FxMap<String, u32>,
}
impl<'m> Cx<'m> {
    fn opd(&mut self, p: &mut Ps, ty: TyId) -> Opd {
        match p.peek().cloned() {
            Some(Tok::Loc(n)) => {
                p.i += 1;
                let k = self.regs.len() as u32;
                Opd::Reg(*self.regs.entry(n).or_insert(k))
            }
            _ => {
                let c = self.m.cst(p, ty);
                Opd::Cst(Rc::new((ty, c)))
            }
        }
    }
    fn tyopd(&mut self, p: &mut Ps) -> (TyId, Opd) {
        let t = self.m.ty(p);
        self.m.skip_attrs(p);
        let o = self.opd(p, t);
        (t, o)
    }
    fn label(&mut self, p: &mut Ps) -> u32 {
        p.eatw("label");
        match p.next() {
            Tok::Loc(n) => *self.bidx.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label expected {:?}", t),
        }
    }
    fn ins(&mut self, p: &mut Ps, dst: Option<u32>, line: &str) -> PI {
        let d = dst.unwrap_or(u32::MAX);
        let w = match p.next() {
            Tok::Word(w) => w,
            t => panic!("opcode expected, got {:?} in {}", t, line),
        };
        let binop = |w: &str| -> Option<Op> {
            Some(match w {
                "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "urem" => Op::URem,
                "sdiv" => Op::SDiv, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr,
                "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor,
                _ => return None,
            })
        };
        PI::Ins(if let Some(op) = binop(w) {
            while matches!(p.peek(), Some(Tok::Word("nuw" | "nsw" | "exact" | "disjoint"))) {
                p.i += 1;
            }
            let ty = self.m.ty(p);
            let a = self.opd(p, ty);
            p.expect(',');
            let b = self.opd(p, ty);
            Ins::Bin { op, ty, a, b, d }
        } else {
            match w {
                "icmp" => {
                    p.eatw("samesign");
                    let pr = match p.next() {
                        Tok::Word("eq") => Pred::Eq,
                        Tok::Word("ne") => Pred::Ne,
                        Tok::Word("ugt") => Pred::Ugt,
                        Tok::Word("uge") => Pred::Uge,
                        Tok::Word("ult") => Pred::Ult,
                        Tok::Word("ule") => Pred::Ule,
                        Tok::Word("sgt") => Pred::Sgt,
                        Tok::Word("sge") => Pred::Sge,
                        Tok::Word("slt") => Pred::Slt,
                        Tok::Word("sle") => Pred::Sle,
                        t => panic!("pred {:?}", t),
                    };
                    let ty = self.m.ty(p);
                    let a = self.opd(p, ty);
                    p.expect(',');
                    let b = self.opd(p, ty);
                    Ins::Icmp { p: pr, ty, a, b, d }
                }
                "fcmp" => {
                    let mut pr = String::new();
                    while let Some(Tok::Word(x)) = p.peek() {
                        if matches!(*x, "double" | "float") {
                            break;
                        }
                        pr = x.to_string();
                        p.i += 1;
                    }
                    let ty = self.m.ty(p);
                    let a = self.opd(p, ty);
                    p.expect(',');
                    let b = self.opd(p, ty);
                    Ins::Fcmp { p: pr, ty, a, b, d }
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    while let Some(Tok::Word(x)) = p.peek() {
                        if matches!(*x, "double" | "float") {
                            break;
                        }
                        p.i += 1;
                    }
                    let ty = self.m.ty(p);
                    let a = self.opd(p, ty);
                    p.expect(',');
                    let b = self.opd(p, ty);
                    let op = match w { "fadd" => '+', "fsub" => '-', "fmul" => '*', "fdiv" => '/', _ => '%' };
                    Ins::FBin { op, ty, a, b, d }
                }
                "fneg" => {
                    let ty = self.m.ty(p);
                    let a = self.opd(p, ty);
                    Ins::FNeg { ty, a, d }
                }
                "select" => {
                    while matches!(p.peek(), Some(Tok::Word("fast" | "nnan" | "ninf" | "nsz" | "contract"))) {
                        p.i += 1;
                    }
                    let (cty, c) = self.tyopd(p);
                    p.expect(',');
                    let (ty, a) = self.tyopd(p);
                    p.expect(',');
                    let (_, b) = self.tyopd(p);
                    Ins::Select { cty, c, ty, a, b, d }
                }
                "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                    while matches!(p.peek(), Some(Tok::Word("nuw" | "nsw" | "nneg"))) {
                        p.i += 1;
                    }
                    let (from, a) = self.tyopd(p);
                    p.eatw("to");
                    let to = self.m.ty(p);
                    let op = match w {
                        "trunc" => CastOp::Trunc,
                        "zext" => CastOp::Zext,
                        "sext" => CastOp::Sext,
                        "bitcast" => CastOp::Bitcast,
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastOp::PtrInt,
                        "uitofp" => CastOp::UiToFp,
                        "sitofp" => CastOp::SiToFp,
                        "fptoui" => CastOp::FpToUi,
                        "fptosi" => CastOp::FpToSi,
                        "fptrunc" => CastOp::FpTrunc,
                        _ => CastOp::FpExt,
                    };
                    Ins::Cast { op, from, a, to, d }
                }
                "getelementptr" => {
                    while let Some(Tok::Word(x)) = p.peek() {
                        if matches!(*x, "inbounds" | "nuw" | "nusw" | "inrange") {
                            let ir = *x == "inrange";
                            p.i += 1;
                            if ir {
                                p.skip_parens();
                            }
                        } else {
                            break;
                        }
                    }
                    let src = self.m.ty(p);
                    p.expect(',');
                    let (_, base) = self.tyopd(p);
                    let mut idx = vec![];
                    while p.eat(',') {
                        if matches!(p.peek(), Some(Tok::Meta(_))) {
                            break;
                        }
                        idx.push(self.tyopd(p));
                    }
                    Ins::Gep { src, base, idx, d }
                }
                "load" => {
                    p.eatw("atomic");
                    p.eatw("volatile");
                    let ty = self.m.ty(p);
                    p.expect(',');
                    let (_, a) = self.tyopd(p);
                    Ins::Load { ty, p: a, d }
                }
                "store" => {
                    p.eatw("atomic");
                    p.eatw("volatile");
                    let (ty, v) = self.tyopd(p);
                    p.expect(',');
                    let (_, a) = self.tyopd(p);
                    Ins::Store { ty, v, p: a }
                }
                "alloca" => {
                    p.eatw("inalloca");
                    let ty = self.m.ty(p);
                    let mut n = Opd::Cst(Rc::new((ty, Const::Int(vec![1, 0, 0, 0, 0, 0, 0, 0], false))));
                    if p.eat(',') && !p.isw("align") && !p.isw("addrspace") {
                        n = self.tyopd(p).1;
                    }
                    Ins::Alloca { ty, n, d }
                }
                "br" => {
                    if p.isw("label") {
                        Ins::Br(self.label(p))
                    } else {
                        let (_, c) = self.tyopd(p);
                        p.expect(',');
                        let a = self.label(p);
                        p.expect(',');
                        let b = self.label(p);
                        Ins::CBr(c, a, b)
                    }
                }
                "switch" => {
                    let (ty, v) = self.tyopd(p);
                    p.expect(',');
                    let def = self.label(p);
                    p.expect('[');
                    let mut cases = vec![];
                    while !p.eat(']') {
                        let t = self.m.ty(p);
                        let c = self.m.cst(p, t);
                        p.expect(',');
                        let l = self.label(p);
                        let k = match c {
                            Const::Int(v, n) => {
                                let x = if n { v[0].wrapping_neg() } else { v[0] };
                                match self.m.types[t as usize] {
                                    Ty::Int(w) if w < 64 => x & ((1u64 << w) - 1),
                                    _ => x,
                                }
                            }
                            Const::Bool(b) => b as u64,
                            c => panic!("case {:?}", c),
                        };
                        cases.push((k, l));
                    }
                    Ins::Switch { ty, v, def, cases }
                }
                "ret" => {
                    let t = self.m.ty(p);
                    if self.m.types[t as usize] == Ty::Void {
                        Ins::Ret(None)
                    } else {
                        let v = self.opd(p, t);
                        Ins::Ret(Some((t, v)))
                    }
                }
                "tail" | "musttail" | "notail" | "call" | "invoke" => {
                    let inv = w == "invoke";
                    if matches!(w, "tail" | "musttail" | "notail") {
                        p.eatw("call");
                    }
                    // skip cc / attrs until a type
                    let rty;
                    loop {
                        match p.peek() {
                            Some(Tok::Word(w)) => {
                                let is_ty = matches!(*w, "void" | "ptr" | "float" | "double" | "token" | "metadata")
                                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                                if is_ty {
                                    rty = self.m.ty(p);
                                    break;
                                }
                                let w = *w;
                                p.i += 1;
                                if w == "align" && matches!(p.peek(), Some(Tok::Num(_))) {
                                    p.i += 1;
                                } else if p.isp('(') {
                                    p.skip_parens();
                                }
                            }
                            _ => {
                                rty = self.m.ty(p);
                                break;
                            }
                        }
                    }
                    if p.isp('(') {
                        p.skip_parens(); // function type of a varargs callee
                    }
                    let f = match p.next() {
                        Tok::Glo(g) => Callee::Direct(g),
                        Tok::Loc(n) => {
                            let k = self.regs.len() as u32;
                            Callee::Indirect(Opd::Reg(*self.regs.entry(n).or_insert(k)))
                        }
                        Tok::Word("asm") => return PI::Ins(if dst.is_some() { Ins::Bad(line.to_string()) } else { Ins::Nop }),
                        Tok::Word(_) => return PI::Ins(Ins::Bad(line.to_string())),
                        t => panic!("callee {:?} in {}", t, line),
                    };
                    p.expect('(');
                    let mut args = vec![];
                    while !p.eat(')') {
                        if p.isw("metadata") {
                            // metadata argument: skip to , or )
                            let mut dep = 0;
                            loop {
                                match p.peek() {
                                    Some(Tok::P('(')) => dep += 1,
                                    Some(Tok::P(')')) if dep == 0 => break,
                                    Some(Tok::P(')')) => dep -= 1,
                                    Some(Tok::P(',')) if dep == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                        } else {
                            args.push(self.tyopd(p));
                        }
                        p.eat(',');
                    }
                    let mut normal = None;
                    if inv {
                        while !p.isw("to") {
                            p.i += 1;
                            if p.peek().is_none() {
                                panic!("invoke without to: {}", line);
                            }
                        }
                        p.eatw("to");
                        normal = Some(self.label(p));
                    }
                    Ins::Call { rty, f, args, d: dst, normal }
                }
                "extractvalue" => {
                    let (ty, a) = self.tyopd(p);
                    let mut idx = vec![];
                    while p.eat(',') {
                        if let Some(Tok::Num(_)) = p.peek() {
                            idx.push(p.num() as u32);
                        } else {
                            break;
                        }
                    }
                    Ins::Extract { ty, a, idx, d }
                }
                "insertvalue" => {
                    let (ty, a) = self.tyopd(p);
                    p.expect(',');
                    let (vty, v) = self.tyopd(p);
                    let mut idx = vec![];
                    while p.eat(',') {
                        if let Some(Tok::Num(_)) = p.peek() {
                            idx.push(p.num() as u32);
                        } else {
                            break;
                        }
                    }
                    Ins::Insert { ty, a, vty, v, idx, d }
                }
                "extractelement" => {
                    let (ty, a) = self.tyopd(p);
                    p.expect(',');
                    let (_, i) = self.tyopd(p);
                    Ins::ExtElem { ty, a, i, d }
                }
                "insertelement" => {
                    let (ty, a) = self.tyopd(p);
                    p.expect(',');
                    let (_, v) = self.tyopd(p);
                    p.expect(',');
                    let (_, i) = self.tyopd(p);
                    Ins::InsElem { ty, a, v, i, d }
                }
                "shufflevector" => {
                    let (ty, a) = self.tyopd(p);
                    p.expect(',');
                    let (_, b) = self.tyopd(p);
                    p.expect(',');
                    let mt = self.m.ty(p);
                    let mc = self.m.cst(p, mt);
                    Ins::Shuffle { ty, a, b, mask: Rc::new((mt, mc)), d }
                }
                "atomicrmw" => {
                    p.eatw("volatile");
                    let op = match p.next() {
                        Tok::Word(w) => w.to_string(),
                        t => panic!("rmw {:?}", t),
                    };
                    let (_, a) = self.tyopd(p);
                    p.expect(',');
                    let (ty, v) = self.tyopd(p);
                    Ins::Rmw { op, ty, p: a, v, d }
                }
                "cmpxchg" => {
                    p.eatw("weak");
                    p.eatw("volatile");
                    let (_, a) = self.tyopd(p);
                    p.expect(',');
                    let (ty, c) = self.tyopd(p);
                    p.expect(',');
                    let (_, n) = self.tyopd(p);
                    Ins::CmpXchg { ty, p: a, c, n, d }
                }
                "freeze" => {
                    let (ty, a) = self.tyopd(p);
                    Ins::Freeze { ty, a, d }
                }
                "fence" => Ins::Nop,
                "unreachable" => Ins::Unreachable,
                "phi" => {
                    let ty = self.m.ty(p);
                    let mut inc = vec![];
                    while p.eat('[') {
                        let v = self.opd(p, ty);
                        p.expect(',');
                        let l = self.label(p);
                        p.expect(']');
                        inc.push((l, v));
                        p.eat(',');
                    }
                    return PI::Phi(Phi { ty, d, inc });
                }
                _ => Ins::Bad(line.to_string()),
            }
        })
    }
}

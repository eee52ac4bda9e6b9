#![allow(dead_code)]
mod aig;
mod big;
mod defaults;
mod dyadic;
mod exec;
mod fp;
mod intrin;
mod ir;
mod solver;

use aig::*;
use exec::*;
use solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn uhex(u: &big::U) -> String {
    let mut b = vec![];
    for l in u {
        b.extend_from_slice(&l.to_le_bytes());
    }
    hex(&b)
}

impl Exec {
    /// the model as text, read back by the native runtime
    pub fn model_text(&self, m: &Model) -> String {
        let mut s = String::new();
        let mut vars: BTreeMap<String, BTreeMap<u32, bool>> = BTreeMap::new();
        for ((id, b), l) in &self.varidx {
            if let Some(v) = m.inputs.get(&node(*l)) {
                vars.entry(self.c.names[*id as usize].clone()).or_default().insert(*b, *v);
            }
        }
        for (n, bits) in &vars {
            let w = bits.keys().last().copied().unwrap() as usize + 1;
            let mut by = vec![0u8; (w + 7) / 8];
            for (b, v) in bits {
                if *v {
                    by[*b as usize / 8] |= 1 << (b % 8);
                }
            }
            let _ = writeln!(s, "b {} {}", n, hex(&by));
        }
        let mut fv: Vec<String> = vec![];
        for (a, v) in &m.fvars {
            if let fp::Atom::Var(f, n) = &self.c.fp.atoms[*a as usize] {
                fv.push(format!("f {} {}", n, uhex(&self.c.fp.fields[*f].dec(v))));
            }
        }
        fv.sort();
        for l in fv {
            let _ = writeln!(s, "{}", l);
        }
        let mut ut: Vec<String> = vec![];
        for ((u, k, n), v) in &m.ufb {
            let mut by = vec![0u8; (n + 7) / 8];
            for (i, x) in v.iter().enumerate() {
                if *x {
                    by[i / 8] |= 1 << (i % 8);
                }
            }
            ut.push(format!("u {} {} {} {}", self.c.fp.ufnames[*u as usize], hex(k), n, hex(&by)));
        }
        for ((u, k), v) in &m.uff {
            ut.push(format!("v {} {} {}", self.c.fp.ufnames[*u as usize], hex(k), uhex(v)));
        }
        ut.sort();
        for l in ut {
            let _ = writeln!(s, "{}", l);
        }
        s
    }
    pub fn describe(&self, m: &Model) -> String {
        let t = self.model_text(m);
        let v: Vec<&str> = t.lines().filter(|l| l.starts_with('b') || l.starts_with('f')).take(8).collect();
        let mut r = v.join("; ");
        if r.len() > 400 {
            r.truncate(400);
            r.push_str("...");
        }
        r
    }
    pub fn trace_text(&self, st: &State, m: &Model, panic: bool) -> String {
        let mut s = String::new();
        for (n, v, w) in &st.notes {
            let _ = writeln!(s, "{} {}", n, self.val_under(m, v, *w));
        }
        if panic {
            s.push_str("panic\n");
        } else {
            s.push_str("end\n");
        }
        s
    }
}

struct Meta<'a> {
    src: &'a str,
    idx: std::collections::HashMap<u32, (usize, usize)>,
}
impl<'a> Meta<'a> {
    fn new(src: &'a str) -> Meta<'a> {
        let mut idx = std::collections::HashMap::new();
        let mut off = 0;
        for l in src.split_inclusive('\n') {
            if l.starts_with('!') {
                let d: String = l[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(k) = d.parse() {
                    idx.insert(k, (off, off + l.len()));
                }
            }
            off += l.len();
        }
        Meta { src, idx }
    }
    fn node(&self, k: u32) -> &str {
        self.idx.get(&k).map(|(a, b)| &self.src[*a..*b]).unwrap_or("")
    }
    fn attr<'b>(l: &'b str, key: &str) -> Option<&'b str> {
        let mut from = 0;
        loop {
            let k = l[from..].find(key)? + from;
            let pre = l[..k].chars().last().unwrap_or('(');
            if pre == '(' || pre == ' ' {
                let r = &l[k + key.len()..];
                let e = if r.starts_with('"') { r[1..].find('"')? + 2 } else { r.find(|c| c == ',' || c == ')').unwrap_or(r.len()) };
                return Some(&r[..e]);
            }
            from = k + key.len();
        }
    }
    fn refid(l: &str, key: &str) -> Option<u32> {
        Self::attr(l, key)?.trim().strip_prefix('!')?.parse().ok()
    }
    /// (file, line, function) of a location and of everything it was inlined at
    fn locs(&self, k: u32, out: &mut BTreeSet<(String, u32, String)>) {
        let mut cur = Some(k);
        let mut g = 0;
        while let Some(k) = cur {
            g += 1;
            if g > 60 {
                break;
            }
            let l = self.node(k);
            let line: u32 = Self::attr(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = Self::refid(l, "scope: ");
            let mut file = None;
            let mut func = String::new();
            while let Some(s) = sc {
                let t = self.node(s);
                if file.is_none() {
                    if let Some(f) = Self::refid(t, "file: ") {
                        let fl = self.node(f);
                        let n = Self::attr(fl, "filename: \"").map(|_| ()).and_then(|_| Self::attr(fl, "filename: ")).unwrap_or("").trim_matches('"').to_string();
                        let n = if n.is_empty() { Self::attr(fl, "filename: ").unwrap_or("").trim_matches('"').to_string() } else { n };
                        let d = Self::attr(fl, "directory: ").unwrap_or("").trim_matches('"').to_string();
                        file = Some(if n.starts_with('/') || d.is_empty() { n } else { format!("{}/{}", d, n) });
                    }
                }
                if t.contains("DISubprogram(") {
                    func = Self::attr(t, "name: ").unwrap_or("").trim_matches('"').to_string();
                    break;
                }
                sc = Self::refid(t, "scope: ");
            }
            if let Some(f) = file {
                out.insert((f, line, func));
            }
            cur = Self::refid(l, "inlinedAt: ");
        }
    }
}

fn main() {
    // deep recursion in term simplification
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let ll = get("--ll").expect("--ll");
    let harness = get("--harness").expect("--harness");
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("read ll");
    let metasrc = src.clone();
    let m = ir::Module::parse(src);
    let budget = Duration::from_secs(num("--time", 300));
    let mut s = Solver::new(&get("--z3").unwrap_or("z3".into()), num("--query-ms", 120_000));
    s.deadline = Some(t0 + budget);
    let lim = Limits { steps: num("--steps", 200_000_000), paths: num("--paths", 1_000_000), deadline: t0 + budget, forks_per_value: 0 };
    let mut e = Exec::new(m, s, lim);
    e.stop_first = true;
    e.dump = get("--dump");
    e.dump_max = num("--dump-max", 12) as usize;
    if let Some(d) = &e.dump {
        std::fs::create_dir_all(d).unwrap();
    }
    if !e.m.funcs.contains_key(&harness) {
        eprintln!("no function {}", harness);
        std::process::exit(3);
    }
    let st = e.start(&harness);
    e.run(st);
    let meta = Meta::new(&metasrc);
    let mut locs = BTreeSet::new();
    for d in &e.visited {
        meta.locs(*d, &mut locs);
    }
    let root = get("--root").unwrap_or("/repo/".into());
    let mut funcs: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for (f, l, n) in &locs {
        if f.contains(&root) {
            let rel = f[f.find(&root).unwrap() + root.len()..].to_string();
            funcs.entry(format!("{}::{}", rel, n)).or_default().insert(*l);
        }
    }
    let mut o = String::from("{");
    let _ = write!(o, "\"harness\":{},\"paths\":{},\"instructions\":{},\"forks\":{},\"merges\":{},\"infeasible\":{},\"panics_allowed\":{}", esc(&harness), e.paths, e.steps, e.forks, e.merges, e.infeasible, e.panics_allowed);
    let _ = write!(o, ",\"pooled\":{},\"repeated\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"lemmas\":{},\"solver_ms\":{},\"total_ms\":{}", e.pooled, e.s.repeated, e.s.queries, e.s.sat, e.s.unsat, e.s.unknown, e.s.lemmas, e.s.time.as_millis(), t0.elapsed().as_millis());
    let _ = write!(o, ",\"checks_decided\":{},\"checks_by_construction\":{},\"aig_nodes\":{}", e.decided, e.trivially, e.c.g.len());
    let _ = write!(o, ",\"pending\":{}", e.work.len());
    let _ = write!(o, ",\"incomplete\":{}", e.incomplete.as_ref().map(|s| esc(s)).unwrap_or("null".into()));
    let _ = write!(o, ",\"reached\":{{{}}}", e.reached.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"checks\":{{{}}}", e.checks.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"functions\":{{{}}}", funcs.iter().map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":{}", list(&e.samples));
    let _ = write!(o, ",\"dumped\":{}", e.dumped);
    let vs: Vec<String> = e
        .viols
        .iter()
        .map(|v| format!("{{\"label\":{},\"model\":{},\"stack\":{},\"notes\":{}}}", esc(&v.label), esc(&e.model_text(&v.model)), list(&v.stack), list(&v.notes)))
        .collect();
    let _ = write!(o, ",\"violations\":[{}]}}", vs.join(","));
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{}", o),
    }
    std::process::exit(0);
}

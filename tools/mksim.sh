#!/bin/bash
# mksim.sh DIR: the native stand-ins of the curve, constraint-system and hash libraries, self-contained in
# DIR/sim.tar.gz, for demonstrations (which may not name a path under /verif).
set -e
w=$(mktemp -d /tmp/mksim.XXXXXX)
mkdir -p $w/sim/demo/src
git -C /verif ls-files shims | grep -v Cargo.lock | (cd /verif && tar cf - -T -) | tar xf - -C $w/sim
cp /verif/engine/src/big.rs /verif/engine/src/defaults.rs $w/sim/shims/symapi/src/
sed -i 's#/verif/engine/src/##' $w/sim/shims/symapi/src/lib.rs
# concrete behaviour where the checks' models leave it open
python3 - $w <<'P'
import sys
w = sys.argv[1]
p = w + '/sim/shims/ark/src/ec.rs'
s = open(p).read()
a = s.index('/// what a byte string of a point decodes to')
b = s.index('macro_rules! points {')
s = s[:a] + '''/// the smaller of a scalar and its negative in 32 bytes, and the choice in the top bit of the last byte
fn decode<P: SWModelParameters>(b: &[u8], form: &str) -> (bool, Fe) {
    let d = fe::from_bytes(0, &b[..32]);
    let d = if b[b.len() - 1] & 0x80 != 0 { fe::neg(d) } else { d };
    (encode::<P>(d, b.len(), form) == b, d)
}
fn encode<P: SWModelParameters>(d: Fe, n: usize, _form: &str) -> Vec<u8> {
    let (p, m) = (fe::to_bytes(d, 32), fe::to_bytes(fe::neg(d), 32));
    let neg = m.iter().rev().lt(p.iter().rev());
    let mut v = if neg { m } else { p };
    v.resize(n, 0);
    if neg {
        v[n - 1] = 0x80;
    }
    v
}
''' + s[b:]
k = 'symapi::assume(symapi::or(symapi::not(on), symapi::and(u, symapi::not(b))));'
i = s.index('        if unsafe { LARGER_IS_LARGER } {', s.index('pub fn y_of_x'))
j = s.index('        }\n', s.index(k)) + 10
s = s[:i] + '        let y = if upper_parts(&y.parts()).0 { y } else { -y };\n' + s[j:]
open(p, 'w').write(s)
p = w + '/sim/shims/symapi/src/native.rs'
s = open(p).read()
k = s.index('pub unsafe fn sym_bytes')
o = 'r.b.get(&s).cloned().unwrap_or_default()'
assert s[k:].count(o) == 2
s = s[:k] + s[k:].replace(o, 'r.b.get(&s).cloned().unwrap_or_else(|| some_bytes(&s))') + '''
/// what a constraint system of all assignments takes for its field-valued and its boolean witnesses, in order
pub fn assign(w: &[crate::Fe], bits: &[bool]) {
    with(|r| {
        let nth = |s: &str, i: usize| if i == 0 { s.to_string() } else { format!("{}#{}", s, i) };
        r.occ.remove("witness");
        r.occ.remove("witness bit");
        for (i, a) in w.iter().enumerate() {
            let (f, v) = r.vals[a.0 as usize];
            let u = r.fields[f].dec(&v);
            r.f.insert(nth("witness", i), u);
        }
        for (i, b) in bits.iter().enumerate() {
            r.b.insert(nth("witness bit", i), vec![*b as u8]);
        }
    })
}
pub fn answer_bit(name: &str, b: bool) {
    with(|r| {
        r.occ.remove(name);
        r.b.insert(name.to_string(), vec![b as u8]);
    })
}
/// distinct bytes for distinct names
fn some_bytes(s: &str) -> Vec<u8> {
    (0..512u32).map(|i| (defaults::fnv(format!("{}/{}", s, i).as_bytes()) >> 16) as u8).collect()
}
'''
open(p, 'w').write(s)
P
mkdir -p $w/sim/harness && cp -r /verif/harness/wrap $w/sim/harness/wrap
sed 's/name = "sys"/name = "demo"/; s#path = "../sys/src/lib.rs"#path = "src/main.rs"#; s#\.\./\.\./shims#../shims#; s#\.\./wrap#../harness/wrap#; s/opt-level = 1/opt-level = 0\ndebug = false/' /verif/harness/sys_native/Cargo.toml | sed 's#^symapi = .*#bls-gadgets = { path = "../harness/wrap/bls-gadgets" }\n&#' > $w/sim/demo/Cargo.toml
for c in bls12-377 bw6-761 crypto-primitives ec ff groth16 r1cs-std relations serialize std; do
  sed -i "s#^\[dependencies\]#&\nark-$c = { path = \"../shims/ark-$c\" }#" $w/sim/demo/Cargo.toml
done
cp /verif/harness/sys_native/Cargo.lock $w/sim/demo/Cargo.lock
echo 'fn main() {}' > $w/sim/demo/src/main.rs
(cd $w/sim/demo && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo metadata --offline --format-version 1 > /dev/null)
tar czf $1/sim.tar.gz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C $w sim
find $w -delete

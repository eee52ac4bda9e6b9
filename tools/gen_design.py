"""Rewrites section 4 of DESIGN.md (how every property is decided) from lib/props.py and the oracles below."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
import props
ORACLE = {
 "C01": "the real `DirectHasher::xof`, output compared byte by byte with BLAKE2Xs written down from the specification in the harness (same digest UF)",
 "C02": "`crh`, `hash` compared with the digest of the specified parameter block; composition with an arbitrary CRH and XOF (a hasher of the harness whose answers are UFs, failures included)",
 "C03": "`crh`, `xof`, `hash` run for every domain; Ok/Err and the error's length asserted; every panic, overflow and out-of-range access is a violation by itself",
 "C04": "the value of the bit string, as an integer in the harness, against the value of the bytes, and the inverse conversion",
 "C05": "the floating-point code runs on exact bits in the engine (numbers over a power of two, rounded as the type's precision demands; anything else goes to the solver as IEEE terms); compared with the integer ceiling.",
 "C06": "an arbitrary hasher (UF answers, failures); the harness walks the counters itself and compares point and counter",
 "C07": "a hasher that records what it is asked; compared with the strings of the specification",
 "C08": "group elements are logarithms: accept must be the field equation sig = sk*H; wrong signatures are arbitrary elements",
 "C09": "sum of logarithms", "C10": "the product equation as a field equation in logarithms",
 "C11": "the random exponents are arbitrary field elements: if two values of one exponent accept (the others equal), every entry must be valid (one linear-algebra query)",
 "C12": "the real cache (its `Mutex`, `lru` contract) run through request histories; each answer equals the sum of the logarithms",
 "C13": "the real cache through histories of strings, resizes, clears; each answer equals that of the uncached call",
 "C14": "round trips and arbitrary strings against arkworks' layout",
 "C15": "every bit of the layout against the documented layout; injectivity as an equality of encodings implying equality of fields",
 "C16": "755 bits against x, and the order of y and -y in the prime field",
 "C17": "*prover mode*: the real gadget synthesises with concrete witnesses; satisfied iff count <= bound. *Any-witness mode*: every allocated witness is a fresh variable; satisfied implies count <= bound (ideal membership / linear algebra / bit reasoning in the theory)",
 "C18": "as C17, against the native sign bit", "C19": "as C17, against sum and pairing equations in logarithms",
 "C20": "the real `ValidatorSetUpdate::generate_constraints` over symbolic epochs; satisfied implies the transition rules and the rules imply satisfied",
 "C21": "as C20: satisfied iff the sum of key times hash equation over non-padding epochs",
 "C22": "constraint-system values of the derived bits and public inputs against native encodings of the same block",
 "C23": "the real hash-to-group gadget, prover mode against the native result; any-witness mode: every satisfying assignment yields the candidate's point",
 "C24": "the real `prove` and `trusted_setup`; `create_proof` stand-in synthesises the real circuit and records inputs, shape and satisfaction",
 "C25": "the real `verify`; the proof system is an arbitrary predicate of key, proof and inputs; accept must be that predicate on the specified inputs",
 "C26": "the real C entry points with all flag values against the Rust calls of the named variant",
 "C27": "the real C entry points under the engine's checked memory (bounds, lifetime, allocation size at release); contents compared",
 "C28": "results and return value against the conjunction of the strict batch equations (C11)",
 "C29": "the real `verify` of the C API with raw bytes against field-by-field conversion and C25's predicate; encodings against C15",
 "C30": "the real composite hasher with the Pedersen UF: seed, window and message are the UF's arguments, so the equality of outputs is that of arguments",
}
try:
    titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(root, "properties.jsonl"))}
except FileNotFoundError:
    titles = {}
out = []
for p in sorted(props.PROPS):
    c = props.PROPS[p]
    out.append("**%s %s** (`harness/%s`; quick: %s%s)  " % (p, titles.get(p, ""), c["group"], ", ".join(c["quick"]), "; thorough adds " + ", ".join(x for x in c["thorough"] if x not in c["quick"]) if c.get("thorough") else ""))
    out.append("*Oracle:* %s.  " % ORACLE[p])
    out.append("*Bounds:* %s. *Outside:* %s.\n" % (c["bounds"], c["outside"]))
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
assert a in s and b in s
open(f, "w").write(s[:s.index(a)] + a + "\n" + "\n".join(out) + "\n" + s[s.index(b):])

#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl (run by hand)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
from props import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = json.load(open(H + "/tools/not_applicable.json"))
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the repository's LLVM IR with SMT (z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every value of the symbolic inputs within: " + PROPS[i]["bounds"] + ". Outside: " + (PROPS[i].get("outside") or "-") + ". Assumes: " + "; ".join(PROPS[i]["assumptions"]),
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PROPS],
}
json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "claimed")

#!/usr/bin/env python3
"""Decides one property: check.py <property id> [quick|thorough].

Builds the engine, compiles the harness crate (with the code of /repo as it is now) to LLVM IR and
natively, executes every harness of the property symbolically, replays counterexamples and sampled
paths natively, and writes evidence/<id>.json. Exit 0: held on everything explored; 1: VIOLATION;
anything else: no answer."""
import sys, os, json, time, subprocess, hashlib, shutil, fcntl, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, GROUPS

REPO = "/repo"
TGT = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
EXIT_ERROR = 3


class Fail(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, sub, files in os.walk(root):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(p.encode())
                    with open(p, "rb") as x:
                        h.update(x.read())
    return h.hexdigest()


def run(cmd, cwd, e, log, timeout=800):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        try:
            return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -1


def tail(log, n=40):
    try:
        return "".join(open(log, errors="replace").readlines()[-n:])
    except OSError:
        return ""


def locked_build(name, key, build):
    """build(dir) in TGT/name, from scratch when the sources are not those of the last build"""
    os.makedirs(TGT, exist_ok=True)
    d = os.path.join(TGT, name)
    with open(os.path.join(TGT, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = os.path.join(TGT, name + ".key")
        old = open(mark).read() if os.path.exists(mark) else ""
        if old != key:
            if os.path.exists(mark):
                os.unlink(mark)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = build(d)
            with open(mark, "w") as f:
                f.write(key)
            return r
        return build(d)


def build_engine():
    def go(d):
        log = os.path.join(d, "build.log")
        if run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(HERE, "engine"), env(CARGO_TARGET_DIR=d), log):
            raise Fail("the engine does not build\n" + tail(log))
        return os.path.join(d, "release", "irsym")
    return locked_build("engine", tree_hash(os.path.join(HERE, "engine")), go)


def src_key():
    return tree_hash(os.path.join(REPO, "crates"), os.path.join(HERE, "harness"), os.path.join(HERE, "shims"), os.path.join(HERE, "engine"))


def build_ir(group, rundir):
    g = GROUPS[group]

    def go(d):
        log = os.path.join(d, "build.log")
        cmd = ["cargo", "rustc", "--release", "--offline", "--lib"] + (["--locked"] if g.get("locked", True) else []) + [
            "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "debuginfo=1"]
        if run(cmd, os.path.join(HERE, g["ir"]), env(CARGO_TARGET_DIR=d), log):
            raise Fail("harness crate %s does not compile with the code of /repo\n%s" % (g["ir"], tail(log)))
        out = os.path.join(rundir, group + ".ll")
        shutil.copy(os.path.join(d, "release", "deps", g["crate"] + ".ll"), out)
        return out
    return locked_build(group + "-ir", src_key(), go)


def build_native(group, rundir):
    g = GROUPS[group]

    def go(d):
        log = os.path.join(d, "build.log")
        cmd = ["cargo", "build", "--offline"] + (["--locked"] if g.get("locked", True) else [])
        if run(cmd, os.path.join(HERE, g["native"]), env(CARGO_TARGET_DIR=d), log):
            raise Fail("native harness %s does not compile\n%s" % (g["native"], tail(log)))
        out = os.path.join(rundir, group + ".native")
        shutil.copy(os.path.join(d, "debug", g["crate"]), out)
        return out
    return locked_build(group + "-native", src_key(), go)


def native_run(exe, harness, model, timeout=120, wrap=()):
    try:
        p = subprocess.run(list(wrap) + [exe, harness], env=env(SYM_MODEL=model, RUST_BACKTRACE="0"), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def confirm(exe, harness, model, label):
    """does the counterexample fail natively, and how?"""
    rc, out, err = native_run(exe, harness, model)
    if rc == 10:
        last = [l for l in out.splitlines() if l.startswith("check ")][-1]
        return "check failed natively: " + last[6:-2]
    if rc == 12:
        return "panic natively: " + err.strip().replace("\n", " ")[:300]
    if rc is None:
        return "does not return natively within 120 s" if label.startswith("step") else None
    if rc < 0 or rc in (134, 136, 139):
        return "killed natively by signal %d" % (-rc if rc < 0 else rc - 128)
    if rc == 99 and err.startswith("memory: ") and label.startswith("memory"):
        return "memory error natively: " + err.strip()
    if rc == 0 and label.startswith(("memory", "undefined", "division")):
        vg = shutil.which("valgrind")
        if vg:
            rc, out, err = native_run(exe, harness, model, 300, (vg, "-q", "--error-exitcode=99", "--leak-check=no"))
            if rc == 99:
                return "memory error natively (valgrind): " + err.strip().replace("\n", " ")[:300]
    return None


def known():
    try:
        return json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(TGT, exist_ok=True)
    rundir = os.path.join(TGT, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(rundir)
    try:
        rc = decide(pid, tier, seed, P, t0, rundir)
    except Fail as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = EXIT_ERROR
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, seed, P, t0, rundir):
    hs = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    # harness: name or (group, name)
    hs = [h if isinstance(h, tuple) else (P["group"], h) for h in hs]
    groups = sorted(set(g for g, _ in hs))
    cap = P.get("cap", 300) if tier == "quick" else 3000
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {g: ex.submit(build_ir, g, rundir) for g in groups}
        fn = {g: ex.submit(build_native, g, rundir) for g in groups}
        eng = fe.result()
        ll = {g: f.result() for g, f in fi.items()}
        exe = {g: f.result() for g, f in fn.items()}
    tb = time.time()

    def one(gh):
        g, h = gh
        out = os.path.join(rundir, h + ".json")
        dump = os.path.join(rundir, h + ".dump")
        cmd = [eng, "--ll", ll[g], "--harness", h, "--out", out, "--time", str(cap), "--dump", dump, "--dump-max", "12" if tier == "quick" else "60",
               "--query-ms", "100000" if tier == "quick" else "600000"]
        log = os.path.join(rundir, h + ".log")
        rc = run(cmd, rundir, env(), log, cap + 60)
        if rc != 0 or not os.path.exists(out):
            return gh, None, "engine exit %s\n%s" % (rc, tail(log, 10)), 0, []
        r = json.load(open(out))
        # sampled paths: the native run on the path's model must print the same trace
        ok, bad = 0, []
        for k in range(r["dumped"]):
            m = os.path.join(dump, "%d.model" % k)
            want = open(os.path.join(dump, "%d.trace" % k)).read()
            nrc, got, err = native_run(exe[g], h, m)
            if got == want:
                ok += 1
            else:
                bad.append((k, want, got, err[-300:]))
        return gh, r, "", ok, bad
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sorted(hs, key=lambda h: -P.get("cost", {}).get(h[1], 0))))
    order = {h: i for i, h in enumerate(hs)}
    res.sort(key=lambda r: order[r[0]])

    errors, violations, findings, agreed = [], [], [], 0
    kn = [k for k in known() if k["property"] == pid and k.get("status", "known") == "known"]
    reached = {}
    for (g, h), r, err, ok, bad in res:
        if r is None:
            errors.append("%s: %s" % (h, err))
            continue
        agreed += ok
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        for i, v in enumerate(r["violations"]):
            m = os.path.join(rundir, "%s.viol%d.model" % (h, i))
            open(m, "w").write(v["model"])
            how = confirm(exe[g], h, m, v["label"])
            if how is None:
                nrc, out, er = native_run(exe[g], h, m)
                errors.append("%s: counterexample to '%s' does not reproduce natively (exit %s)\n%s\n%s" % (h, v["label"], nrc, out[-500:], v["model"][:500]))
                continue
            kf = [k for k in kn if k["harness"] == h and k["label"] == v["label"]]
            if kf:
                findings.append((kf[0], v, how))
                continue
            violations.append((g, h, v, how))
        if r["incomplete"]:
            errors.append("%s: %s" % (h, r["incomplete"]))
        elif r["pending"] and not r["violations"]:
            errors.append("%s: %d paths left" % (h, r["pending"]))
        for k, want, got, er in bad[:2]:
            if not r["violations"]:
                errors.append("%s: path %d: native trace differs\n--- engine\n%s--- native\n%s%s" % (h, k, want[-600:], got[-600:], er))
    for lab in P["reach"]:
        if not reached.get(lab) and not violations and not findings and not errors:
            errors.append("vacuous: '%s' is never reached" % lab)

    ev = evidence(pid, tier, seed, P, res, hs, agreed, reached, violations, findings, errors, t0, tb)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v, how in findings:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], how))
    if violations:
        for g, h, v, how in violations[:3]:
            rp = os.path.join(HERE, "evidence", "replay-%s-%s.txt" % (pid, h))
            with open(rp, "w") as f:
                f.write("property %s, harness %s (%s): %s\nnative run of the same harness on this input: %s\n" % (pid, h, GROUPS[g]["ir"], v["label"], how))
                f.write("to replay: cd %s && SYM_MODEL=<this file> RUSTUP_TOOLCHAIN=%s cargo run --offline -- %s\n" % (os.path.join(HERE, GROUPS[g]["native"]), TOOLCHAIN, h))
                f.write("call stack: %s\nvalues:\n%s" % (" <- ".join(v["stack"]), v["model"]))
            print("counterexample in %s: %s; %s" % (h, v["label"], how))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors[:6]:
            print("ERROR property=%s %s" % (pid, e))
        return EXIT_ERROR
    print("%s %s: held on %d paths of %d harnesses, %.1f s" % (pid, tier, ev["coverage"]["states"], len(hs), ev["wall_s"]))
    return 0


def evidence(pid, tier, seed, P, res, hs, agreed, reached, violations, findings, errors, t0, tb):
    tot = {}
    funcs, samples, per = {}, [], []
    for (g, h), r, err, ok, bad in res:
        if r is None:
            per.append({"harness": h, "error": err[:200]})
            continue
        for k in ("paths", "instructions", "forks", "merges", "infeasible", "panics_allowed", "queries", "sat", "unsat", "unknown", "lemmas", "solver_ms", "checks_decided", "checks_by_construction"):
            tot[k] = tot.get(k, 0) + r[k]
        for f, ls in r["functions"].items():
            funcs.setdefault(f, set()).update(ls)
        samples += [{"harness": h, "path": s} for s in r["samples"][:2]]
        per.append({"harness": h, "paths": r["paths"], "instructions": r["instructions"], "queries": r["queries"], "solver_ms": r["solver_ms"], "total_ms": r["total_ms"], "checks": r["checks"], "native_traces_equal": ok})
    return {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("instructions", 0),
            "traces_validated_against_impl": agreed,
            "samples": samples[:20],
            "explanation": "states: execution paths, each for all values of its symbolic inputs; transitions: IR instructions executed symbolically; traces validated: paths whose solver model, run natively, gave the same trace",
            "exhaustive": not errors and not violations,
            "functions_encoded": {f: sorted(x for x in ls if x) for f, ls in sorted(funcs.items())},
            "bounds": P["bounds"],
            "outside": P.get("outside", ""),
            "smt": {"solver": "z3", "queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0), "field_lemmas": tot.get("lemmas", 0), "solver_seconds": tot.get("solver_ms", 0) / 1000.0},
            "assertions": {"decided_by_solver": tot.get("checks_decided", 0), "reduced_to_true_by_rewriting": tot.get("checks_by_construction", 0)},
            "forks": tot.get("forks", 0), "merged_branches": tot.get("merges", 0), "infeasible_paths": tot.get("infeasible", 0), "allowed_panics": tot.get("panics_allowed", 0),
            "reached": reached,
            "harnesses": per,
            "known_findings": [k["what"] for k, _, _ in findings],
            "errors": [e[:300] for e in errors],
            "build_seconds": round(tb - t0, 2),
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Decides one property: builds the engine and the harness crates from /repo's working tree, runs the
symbolic executor over their LLVM IR, replays every counterexample natively and writes the evidence.
usage: check.py PROPERTY [quick|thorough] | --setup | --one CRATE HARNESS[:budget]"""
import json, os, subprocess, sys, time, glob, re, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
TOOLCHAIN = "nightly-2026-02-15"
HANG_S = 12
sys.path.insert(0, os.path.join(V, "tools"))


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_engine():
    os.makedirs(B, exist_ok=True)
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "engine")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=e)
    if r.returncode:
        die("engine build failed\n" + r.stdout[-3000:])
    r = run(["gcc", "-O1", "-c", os.path.join(V, "vx/rt.c"), "-o", os.path.join(B, "rt.o")])
    if r.returncode:
        die("runtime build failed\n" + r.stdout)
    return os.path.join(B, "engine/release/oakse")


def build_crate(crate, thorough):
    d = os.path.join(V, "h", crate)
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    tgt = os.path.join(B, "target-thorough" if thorough else "target")
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "--cfg oak_verif -C no-vectorize-loops -C no-vectorize-slp"
    cmd = ["cargo", "rustc", "--offline", "-q", "--bin", "h-" + crate]
    if thorough:
        cmd += ["--features", "thorough"]
    cmd += ["--", "--emit=llvm-ir,link", "-C", "link-arg=" + os.path.join(B, "rt.o"), "-A", "warnings"]
    r = run(cmd, cwd=d, env=e)
    if r.returncode:
        die("harness build failed: " + crate + "\n" + r.stdout[-6000:])
    lls = glob.glob(os.path.join(tgt, "debug/deps/h_%s-*.ll" % crate.replace("-", "_")))
    if not lls:
        # nothing recompiled but IR missing: force
        die("no IR for " + crate)
    return max(lls, key=os.path.getmtime), os.path.join(tgt, "debug/h-" + crate)


def native(binp, harness, inputs, timeout=HANG_S, valgrind=False):
    cmd = [binp, harness] + [str(x) for x in inputs]
    e = base_env()
    e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    e["RUST_BACKTRACE"] = "0"
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, preexec_fn=limit)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "", ""


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def confirm(binp, harness, v):
    """Does the counterexample happen in the real code?"""
    rc, out, err = native(binp, harness, v["inputs"])
    k = v["kind"]
    if rc == "hang":
        return True, "does not terminate (killed after %d s)" % HANG_S
    if rc in (0, 77):
        if k == "memory":
            rc2, _, err2 = native(binp, harness, v["inputs"], timeout=120, valgrind=True)
            if rc2 == 99 or (isinstance(rc2, int) and rc2 < 0):
                return True, "valgrind: " + " ".join(err2.split())[:400]
        return False, "exit %s" % rc
    return True, ("exit %s: " % rc) + " ".join(err.split())[:400]


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[: len(names)]


def execute(engine, ll, hs, seed, out):
    cmd = [engine, "--ll", ll, "--out", out, "--threads", str(min(8, os.cpu_count() or 4)), "--seed", str(seed)]
    for h, b in hs:
        cmd += ["--harness", h if b is None else "%s:%s" % (h, b)]
    r = run(cmd)
    if r.returncode or not os.path.exists(out):
        die("engine failed (%s)\n%s" % (r.returncode, r.stdout[-3000:]))
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    with open(out) as f:
        return json.load(f)["results"]


def findings(prop):
    r = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) harness=(\S+)/(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3), m.group(4)))
    return r


def main():
    if sys.argv[1] == "--setup":
        build_engine()
        print("engine built")
        return 0
    if sys.argv[1] == "--one":
        eng = build_engine()
        th = os.environ.get("VERIF_TIER") == "thorough"
        ll, bn = build_crate(sys.argv[2], th)
        rs = []
        for h in sys.argv[3:]:
            n, _, b = h.partition(":")
            rs += execute(eng, ll, [(n, b or None)], 1, os.path.join(B, "one.json"))
        for r in rs:
            seen = {}
            for v in r.get("violations", []):
                k = tuple(v["stack"])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 1:
                    continue
                ok, how = confirm(bn, r["harness"], v)
                print("%s %s [%s] %s x%d inputs=%s\n    confirmed=%s %s" % (r["harness"], v["kind"], v["msg"], "", v["count"], v["inputs"], ok, how))
                for s in demangle(v["stack"])[-8:]:
                    print("        ", s)
            bad = [s for s in r.get("samples", []) if check_sample(bn, r["harness"], s)]
            print(r["harness"], "samples", len(r.get("samples", [])), "mismatch", bad[:3], "covers", r.get("covers"), "error", r.get("error"))
        return 0

    import checks
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    spec = checks.CHECKS[prop]
    t0 = time.time()
    eng = build_engine()
    known = findings(prop)
    crates = {}
    for h in spec["harnesses"]:
        if h.get("thorough_only") and not thorough:
            continue
        crates.setdefault(h["crate"], []).append(h)
    for c, h, _ in known:
        crates.setdefault(c, [])
    bins, results = {}, []
    for c, hs in crates.items():
        ll, bn = build_crate(c, thorough)
        bins[c] = bn
        todo = [(h["name"], h["thorough" if thorough else "quick"]) for h in hs]
        kn = [h for cc, h, _ in known if cc == c]
        rs = execute(eng, ll, todo + [(h, 10) for h in kn], seed, os.path.join(B, "%s_%s.json" % (prop, c)))
        for r in rs:
            r["crate"] = c
            r["known"] = r["harness"] in kn
            if "error" in r:
                die("harness %s: %s" % (r["harness"], r["error"]))
        results += rs
    build_and_run = time.time() - t0

    # counterexamples are replayed against the natively compiled code
    viol, unconf, inconclusive, known_hit = [], [], [], []
    for r in results:
        for v in r["violations"]:
            ok, how = confirm(bins[r["crate"]], r["harness"], v)
            v["how"] = how
            if r["known"]:
                if ok:
                    known_hit.append(r["harness"])
                    break
            elif ok:
                viol.append((r, v))
            elif v["kind"] in ("steps", "stack"):
                inconclusive.append((r, v))
            else:
                unconf.append((r, v))
            if len(viol) >= 3:
                break
    # and a sample of the passing paths is compared with it
    jobs = [(r, s) for r in results if not r["known"] for s in r["samples"]]
    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        for (r, s), b in zip(jobs, ex.map(lambda x: check_sample(bins[x[0]["crate"]], x[0]["harness"], x[1]), jobs)):
            if b:
                bad.append((r["harness"], s, b))

    main_rs = [r for r in results if not r["known"]]
    fn = sorted(set(f for r in main_rs for f in r["functions"]))
    dem = sorted(set(re.sub(r"::h[0-9a-f]{16}$", "", x) for x in demangle(fn)))
    oak = [x for x in dem if "oak_" in x and "harness" not in x]
    names = {h["name"]: h for hs in crates.values() for h in hs}
    missing = []
    for r in main_rs:
        for c in names[r["harness"]].get("covers", []):
            if str(c) not in r["covers"]:
                missing.append("%s: witness %s not reached" % (r["harness"], c))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in main_rs),
            "transitions": sum(r["blocks"] for r in main_rs),
            "traces_validated_against_impl": len(jobs) - len(bad),
            "samples": [{"harness": r["harness"], "inputs": s["inputs"], "obs": s["obs"]} for r, s in jobs[:: max(1, len(jobs) // 12)]][:12],
            "explanation": "states = symbolic paths explored to their end; transitions = distinct IR basic blocks executed; every path stands for all inputs satisfying its path condition. A harness marked exhaustive had every feasible branch within its stated bound decided by the solver.",
            "exhaustive": all(r["exhaustive"] and r["z3_unknown"] == 0 for r in main_rs),
            "harnesses": [
                {"name": r["harness"], "bound": names[r["harness"]]["bound"], "exhaustive": r["exhaustive"] and r["z3_unknown"] == 0,
                 "paths": r["paths"], "completed": r["ok"], "rejected_by_assume": r["assume_rejected"], "branches_left": r["pending"],
                 "branch_queries": r["queries"], "answered_from_cache": r["cache_hits"], "z3_sat": r["z3_sat"], "z3_unsat": r["z3_unsat"],
                 "z3_unknown": r["z3_unknown"], "z3_seconds": r["z3_seconds"], "seconds": r["seconds"], "instructions": r["instructions"],
                 "concretisations": r["pins"] + r["autopins"], "not_modelled": r["unsupported"], "witnesses": r["covers"]}
                for r in main_rs],
            "queries_discharged": sum(r["queries"] for r in main_rs),
            "solver_seconds": round(sum(r["z3_seconds"] for r in main_rs), 3),
            "functions_encoded": len(dem), "repo_functions_encoded": oak[:400],
            "inconclusive": [{"harness": r["harness"], "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"]} for r, v in inconclusive][:10],
            "known_findings_seen": sorted(set(known_hit)),
        },
        "assumptions": checks.ASSUMPTIONS + [spec.get("outside", "")],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for c, h, what in known:
        if h in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            print("note: listed finding no longer fails: %s" % what)
    if viol:
        os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
        for i, (r, v) in enumerate(viol):
            p = os.path.join(V, "evidence", "replay", "%s_%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({"property": prop, "harness": r["crate"] + "/" + r["harness"], "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"], "native": v["how"],
                           "stack": demangle(v["stack"]), "rerun": " ".join([bins[r["crate"]], r["harness"]] + [str(x) for x in v["inputs"]])}, f, indent=1)
            print("%s: %s %s -> %s" % (r["harness"], v["kind"], v["msg"], v["how"]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for r, v in inconclusive:
        print("inconclusive: %s %s inputs=%s" % (r["harness"], v["msg"], v["inputs"]))
    if unconf:
        for r, v in unconf:
            print("not reproduced: %s %s %s inputs=%s %s" % (r["harness"], v["kind"], v["msg"], v["inputs"], v["how"]))
        die("a counterexample did not reproduce natively")
    if bad:
        die("engine and native run disagree: %s" % (bad[:3],))
    if missing:
        die("; ".join(missing))
    for r in main_rs:
        if r["ok"] == 0:
            die("vacuous: %s completed no path" % r["harness"])
    print("OK %s %s: %d paths, %d queries, %.1f s" % (prop, tier, ev["coverage"]["states"], ev["coverage"]["queries_discharged"], time.time() - t0))
    return 0


def check_sample(bn, h, s):
    rc, out, err = native(bn, h, s["inputs"], timeout=60)
    m = re.search(r"OBS (\d+)", out)
    if rc != 0 or not m:
        return "exit %s %s" % (rc, err[:200])
    if int(m.group(1)) != s["obs"]:
        return "obs %s" % m.group(1)
    return None


if __name__ == "__main__":
    sys.exit(main())

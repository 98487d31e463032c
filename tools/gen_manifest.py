#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup",
     "hooks": {"guard": "oak_verif", "enable": "RUSTFLAGS='--cfg oak_verif' when the checks build the harness crates", "source_commits": ["d9501d7", "b6cfd84"]},
     "checks": [], "not_applicable": []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "model_checking",
            "level_note": "Bounded: every input within the bounds of its harnesses (" + "; ".join("%s: %s" % (h["name"], h["bound"]) for h in c["harnesses"])[:1500] + "). Outside: " + (c["outside"] or "larger inputs") + ". Trusts rustc's LLVM IR, the path explorer and Z3."})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check has been built for it yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")

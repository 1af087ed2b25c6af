#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the harnesses and not_applicable.json"""
import json, os, glob
import vx
V = vx.VERIF
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
na = json.load(open(V + "/not_applicable.json")) if os.path.exists(V + "/not_applicable.json") else []
nas = {x["property"] for x in na}
checks = []
for p in props:
    if p["id"] in nas: continue
    hs = vx.harnesses(p["id"])
    assert hs, p["id"]
    ms = [vx.parse_meta(h) for h in hs]
    note = "Every path of the real code within the bounds, each assertion decided by z3 over all values; counterexamples are replayed natively. Bounds: " + "; ".join(b for m in ms for b in m["bounds"])
    o = [b for m in ms for b in m["outside"]]
    s = [b for m in ms for b in m["stubs"]]
    if o: note += ". Outside: " + "; ".join(o)
    if s: note += ". In place of the environment: " + "; ".join(s)
    note += ". Trusts clang's LLVM IR, the engine in engine/ (sampled against native runs), z3."
    checks.append({"property": p["id"], "quick_cmd": f"python3 vx.py check {p['id']} quick", "thorough_cmd": f"python3 vx.py check {p['id']} thorough",
                   "technique": "symbolic execution of the LLVM IR of the real sources, assertions decided by z3", "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 vx.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses include and link the repository's sources as they are. known_findings.json lists repaired defects and recorded findings."}, open(V + "/MANIFEST.json", "w"), indent=1)
ids = {p["id"] for p in props}
for i in vx.props():
    if i not in ids: print("harness without property:", i)

#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os
import props, registry
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPERTIES: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.PROPERTIES:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the real code's LLVM IR with Z3" + (", schedules as solver inputs" if any(h.get("threads") for h in r["harnesses"]) else "") + "; counterexamples replayed on a native sanitizer build",
                       "level": "model_checking",
                       "level_note": ("Bounded: " + r["bounds"] + (". Outside: " + r["outside"] if r.get("outside") else "") + ". Trusted: clang's IR, the engine's semantics (sampled paths are re-run natively each run), Z3" + (", stubs: " + "; ".join(r["stubs"]) if r.get("stubs") else "") + ".")})
    else: na.append({"property": i, "reason": registry.NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. All checks share engine/ (the symbolic executor), sym/ (model runtime) and check.py (driver)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

import design; design.write()

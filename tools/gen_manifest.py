#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of harness functions."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
have = set()
for d in ("lib", "cli"):
    p = f"{root}/harness/{d}"
    if os.path.isdir(p):
        for f in sorted(os.listdir(p)):
            if f.endswith(".go"):
                for m in re.finditer(r"^func (C\d\d)_", open(f"{p}/{f}").read(), re.M):
                    have.add(m.group(1))
notes = json.load(open(f"{root}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "solver-based checking: symbolic execution of the real code's SSA form (own engine), SMT verdict (z3) per assertion, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes["notes"].get(i, "Bounded: holds for every value within the bounds listed in the evidence file and DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "No check yet: machinery under construction.")})
hooks = []
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(here + "/gosym/checks.go").read()
claimed = re.findall(r'^\t"(C\d\d)": +pc\(', src, re.M)
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {}
NOTE = ("Symbolic execution of the real code (go/ssa of /repo's working tree) by /verif/gosym; path conditions and assertions are decided by z3. "
        "Bounded: the bounds of each harness are in gosym/checks.go and in the evidence file; the operating system, the plugin loader and external programs are models.")
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": "symbolic execution of the Go SSA form with an SMT solver (z3), counterexamples replayed natively",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])

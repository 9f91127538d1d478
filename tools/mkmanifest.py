#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts present in specs/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
specs = {}
for f in sorted(os.listdir(V + "/specs")):
    for m in re.finditer(r"^props?\b(.*)$", open(V + "/specs/" + f).read(), re.M):
        for p in re.findall(r"C\d\d", m.group(1)):
            specs.setdefault(p, []).append(f)
NOTES = {}
exec(open(V + "/tools/notes.py").read(), NOTES)
checks = []
for p in props:
    i = p["id"]
    proved = i in specs
    note = NOTES["NOTES"].get(i, "")
    if proved:
        lv, tech = "proof", "contract-based deductive verification of the Go code (gover: contracts on go/ssa, SMT back ends)"
        n = "Every obligation generated from the current source of the functions under contract (specs/%s) must be discharged, for all inputs. " % ", specs/".join(specs[i])
        n += note + " The replay harness runs the real code against the property's executable statement: bounded, it finds failing inputs and covers what is outside the contracts; never counted as proved. Trusted: gover, go/ssa, SMT solvers, the standard-library contracts listed in the evidence."
    if i in NOTES["PARTIAL"]:
        lv, tech = "exploration", "contracts discharged on the functions named, bounded stand-in (real code against the executable contract) for the rest"
        n = "Bounded overall. " + NOTES["PARTIAL"][i]
    elif not proved:
        lv, tech = "exploration", "bounded stand-in: real code against the property's executable contract"
        n = "Bounded: generated cases of the real code judged by the property's executable statement; contracts for the functions concerned are not yet discharged, so nothing here counts as proved."
    checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                   "technique": tech, "level": lv, "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo; its commits on top of the base are fix: commits, see known-findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(specs), "with contracts")

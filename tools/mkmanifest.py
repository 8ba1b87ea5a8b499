#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties, the oracles and the contracts present."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
tagged = {}
for f in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
    if f.endswith(".py"):
        for p in set(re.findall(r'"(C\d\d)"', open(os.path.join(ROOT, "contracts", f)).read())):
            tagged.setdefault(p, []).append(f[:-3])
# properties whose whole statement is discharged deductively (no bounded stand-in needed for the claim)
PROOF = set()
NOT = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    has = os.path.exists(os.path.join(ROOT, "oracle", pid.lower() + ".py"))
    con = tagged.get(pid, [])
    if pid in NOT or not (has or con):
        na.append(dict(property=pid, reason=NOT.get(pid, "no check built yet")))
        continue
    level = "proof" if pid in PROOF else ("other" if con else "exploration")
    if level == "proof":
        note = "every obligation generated from the current source is discharged"
    elif con:
        note = "contracts of the core functions (contracts/%s.py) discharged for all inputs; the remaining functions " \
               "are checked by bounded runtime contracts, labelled bounded" % ", ".join(con)
    else:
        note = "bounded stand-in only: the functions are outside the verifier's subset; runtime contracts against an " \
               "independent definition on generated inputs"
    checks.append(dict(
        property=pid, quick_cmd=f"./check.py {pid}", thorough_cmd=f"./check.py {pid} --tier thorough",
        technique="contracts on the real code: VC generation over the extracted source, discharged by z3/cvc5"
                  + ("; bounded runtime contracts for functions out of reach" if has else "") if con else
                  "bounded runtime contracts (stand-in for deductive contracts) on the real built code",
        level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when units.py has units for it"""
import json, subprocess
import units as U
props = [json.loads(l) for l in open("properties.jsonl")]
have = {u.prop for u in U.UNITS}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in U.NOT_CLAIMED:
        us = [u for u in U.UNITS if u.prop == i]
        b = [u for u in us if u.bounded]
        lvl = "proof" if len(b) < len(us) else "other"
        note = ("contracts on %s; every obligation discharged by CBMC for all inputs" % ", ".join(sorted({f for u in us if not u.bounded for f in u.functions})) if len(b) < len(us) else "")
        if b:
            note += ("; " if note else "") + "bounded, not counted as proved: " + "; ".join("%s (%s)" % (u.name, u.bounded) for u in b)
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique=U.TECH.get(i, "contract-based deductive verification of the C source (CBMC: pre/postconditions, callee contracts)"),
                           level=lvl, level_note=note + ". " + U.LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=U.NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na)
if U.HOOKS:
    m["hooks"] = U.HOOKS
json.dump(m, open("MANIFEST.json", "w"), indent=1)

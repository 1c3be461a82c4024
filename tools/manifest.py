#!/usr/bin/env python3
"""writes MANIFEST.json from the registered contracts (claimed = has a contract) and tools/levels.json"""
import sys, json, os
sys.path.insert(0, "/verif/verifier")
import contract, contracts
props = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
by = {}
for c in contract.CONTRACTS:
    for p in [c["prop"]] + list(c.get("also", ())):
        by.setdefault(p, []).append(c)
notes = json.load(open("/verif/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in by:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, evidence_file="evidence/%s.json" % i,
            technique="function contracts on the compiler's MIR of the real code, obligations discharged by z3/cvc5; replay search on the built crate for failing inputs",
            level=n.get("level", "proof"), level_note=n.get("note", "") + " " + notes["_common"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "no contract of this property is discharged yet")))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na, notes="no hooks: the checks read only public items, and private fields through the compiler's MIR"), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [c["property"] for c in checks], "not", [x["property"] for x in na])

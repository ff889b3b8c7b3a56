#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties
NA = []  # not applicable

TECH = "deterministic simulation with fault injection (seeded search over schedules and faults)"

def prop(id, title, statement, over, text, why, files, mech, note, state=None, na=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append((d, note, na))

exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for d, note, reason in P:
    if reason:
        na.append(dict(property=d["id"], reason=reason))
        continue
    checks.append(dict(property=d["id"], quick_cmd="./check.sh %s quick" % d["id"],
                       thorough_cmd="./check.sh %s thorough" % d["id"],
                       technique=TECH, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none in /repo: the checks instrument an overlay copy (go build -overlay)",
                    enable="./build.sh generates .build/overlay.json from /repo's working tree with every seam and scheduling point added",
                    source_commits=[]),
         notes="check.sh replay FILE replays a violation; check.sh determinism ID N runs N seeds twice and compares event hashes. known_findings.json lists repaired and recorded defects.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")

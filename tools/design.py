#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
def find():
    out = ["| property | status | commit | what failed |", "|---|---|---|---|"]
    for f in kf:
        out.append("| %s | %s | %s | %s |" % (f["property"], f["status"], f.get("commit", ""), f["what"]))
    return "\n".join(out)
def seeded():
    out = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    c = json.load(open(os.path.join(V, "tools", "caught.json")))
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], c.get(n, "not run")))
    return "\n".join(out)
def na():
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    return "\n".join("* **%s**: %s" % (x["property"], x["reason"]) for x in m["not_applicable"]) or "None."
for k, f in (("FINDINGS", find), ("SEEDED", seeded), ("NA", na)):
    b, e = "<!-- %s -->" % k, "<!-- /%s -->" % k
    t = b + "\n" + f() + "\n" + e
    if "@@%s@@" % k in s:
        s = s.replace("@@%s@@" % k, t)
    else:
        s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)

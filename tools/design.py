#!/usr/bin/env python3
"""Fills the per-property part of DESIGN.md from lib/meta.py and lib/specs.py (between the markers)."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import meta, specs
o = []
for i in meta.META:
    if i not in specs.PROPS: continue
    m, p = meta.META[i], specs.PROPS[i]
    u = ", ".join("%s [%s%s]" % (x["name"], x["variant"], ", thorough" if x.get("thorough_only") else "") for x in p["units"])
    o.append("### %s %s\n\n*Decided by:* %s.\n*Workload:* %s.\n*Bounds and trust:* %s%s\n*Units:* %s.\n*Why beyond tests:* %s\n" %
             (i, m["prop"]["title"], m["technique"], p["rule"], m["note"], (" Assumes: " + "; ".join(p.get("assumptions", [])) + ".") if p.get("assumptions") else "", u, m["prop"]["why_tests_cant"]))
for i in meta.NA:
    o.append("### %s %s\n\nNot applicable: %s.\n" % (i, meta.NA[i][0]["title"], meta.NA[i][1]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
body = "<!-- begin generated -->\n" + "\n".join(o) + "<!-- end generated -->"
if "@@PROPS@@" in s: s = s.replace("@@PROPS@@", body)
else: s = re.sub(r"<!-- begin generated -->.*<!-- end generated -->", lambda _: body, s, flags=re.S)
open(p, "w").write(s)

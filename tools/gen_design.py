#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = {}
for i in sorted(os.listdir(here + "/seeded")):
    d.setdefault(json.load(open("%s/seeded/%s/meta.json" % (here, i)))["property"], []).append(i)
t = "| check | catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(d[k])) for k in sorted(d))
f = here + "/DESIGN.md"
s = open(f).read()
a, b = s.index("<!-- seeded -->\n") + len("<!-- seeded -->\n"), s.index("<!-- /seeded -->")
open(f, "w").write(s[:a] + t + s[b:])

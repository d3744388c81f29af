#!/usr/bin/env python3
"""Puts DESIGN.md together from doc/ and the planted bugs' descriptions."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "".join(open(here + "/doc/%d.md" % i).read() for i in (1, 2, 3))
out += "\n## 6. Planted bugs and the checks that catch them\n\nEach was written from a property's text and the code, breaks that property, compiles and passes the\nexisting tests.  The check of its property catches it in the quick tier unless noted.\n\n| bug | check | what it breaks | needs |\n|---|---|---|---|\n"
note = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    out += "| %s | %s | %s | %s |\n" % (b, note.get(b, d["property"]), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"))
out += open(here + "/doc/4.md").read() + open(here + "/doc/5.md").read()
open(here + "/DESIGN.md", "w").write(out)

#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m))
    out.append("* `%s`: %s (needs %s)\n" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
head = "Caught by the check of the named property (the id's prefix):\n"
i = s.index(head) + len(head)
j = s.index("\n## ", i)
open(p, "w").write(s[:i] + "".join(out) + s[j:])

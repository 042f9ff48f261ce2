#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md that follow from the harness: the plans, and the planted bugs.
mkdesign.py [CAUGHT.json]: the file says which checks caught which planted bug."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import check
def plans():
    t = ["| | world | random (quick/thorough) | by construction | compared |", "|---|---|---|---|---|"]
    for k, p in check.PLANS.items():
        rnd = ["%s %d/%d" % x for x in p.rnd] + (["every form on " + ", ".join(p.fixed)] if p.fixed and not p.values else []) + (["values on " + ", ".join(p.fixed)] if p.fixed else [])
        law = "%s %d/%d" % (p.laws[0].replace(" ", "+") or "any", *p.laws[1:]) if p.laws else "–"
        t.append("| %s | %s | %s | %s | %s |" % (k, ", ".join(p.mc) or "–", ", ".join(rnd) or "command lines", law, ", ".join(x.__name__ for x in p.proj) or "status, output, files"))
    return t
def bugs(caught):
    t = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        t.append("| %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "\\|"), ", ".join(caught.get(n, [])) or "not run"))
    return t
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
def put(s, name, lines):
    a, b = "<!-- %s -->\n" % name, "<!-- end of %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n".join(lines) + "\n" + s[j:]
s = put(s, "plans", plans())
if len(sys.argv) > 1: s = put(s, "planted bugs", bugs(json.load(open(sys.argv[1]))))
open(path, "w").write(s)

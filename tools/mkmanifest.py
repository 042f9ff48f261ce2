#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import check
TECH = "TLA+ specification of the assembler checked with TLC; its behaviours replayed into crasm"
NOTE = ("Bounded: TLC explores every program of a small world%s and random programs under the invariants and step "
        "properties of spec/Props.tla; each complete behaviour is replayed into crasm built from the working tree, and what the property is about is compared "
        "(%s). Trusts TLC, the specification as the meaning of the manual, and the projection in harness/project.py.")
def note(pid):
    p = check.PLANS[pid]
    what = ", ".join(f.__name__ for f in p.proj)
    if pid == "P26":
        return ("Bounded: TLC enumerates every command line of up to three words (thorough: five) of spec/Cli.tla; each is run in a directory of its own and exit status, "
                "output and all files are compared with the specification. Trusts TLC and the specification.")
    s = NOTE % (" (%s)" % ", ".join(p.mc) if p.mc else "", what)
    if p.fixed: s += " Every mnemonic with every operand form of %s is among the programs." % ", ".join(p.fixed)
    if p.special == "objects": s += " Object files crasm wrote are also validated record by record by the specification's loader (spec/Objects.tla)."
    if p.special == "robust": s += " The programs also run under the address sanitizer, and a second time with other memory contents."
    return s
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=i, quick_cmd="python3 harness/check.py %s quick" % i, thorough_cmd="python3 harness/check.py %s thorough" % i,
                      technique=TECH, level="model_checking", level_note=note(i)) for i in ids],
         not_applicable=[], notes="No hooks: everything a property is about shows in crasm's output and files. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")

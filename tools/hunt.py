#!/usr/bin/env python3
"""hunt.py THEME,... N [SEED [SHOW]]: random programs; everything the specification
and the implementation show is compared, whatever property it belongs to."""
import difflib, os, random, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen, impl, spec, project
themes, n = sys.argv[1].split(","), int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
show = int(sys.argv[4]) if len(sys.argv) > 4 else 3
W = tempfile.mkdtemp(dir="/tmp", prefix="hunt-")
def tx(r): return ("<%s %s>" % ("EW"[-1 - r[0]], r[1])) if r and r[0] < 0 else bytes(r).decode("latin-1")
def allrows(o): return o["rows"]
try:
    groups = [getattr(gen, t)(random.Random("%s-%s-%d" % (t, seed, i)), "%s-%d" % (t, i)) for t in themes for i in range(n)]
    t0 = time.time()
    pairs = isinstance(groups[0], list)
    R = spec.Run(groups, W, module="Pairs" if pairs else "Run")
    res = R.join()
    cases = [c for g in groups for c in g] if pairs else groups
    print("tlc %.1f s, %d states" % (time.time() - t0, R.states))
    bad = 0
    for c, o in zip(cases, impl.runs(impl.build(W), cases, W)):
        s, i = project.of_spec(res[c["id"]]), project.of_impl(o)
        d = project.differs(s, i, [allrows, project.obj])
        if not d: continue
        bad += 1
        if bad <= show:
            print("=== MISMATCH", c["id"], d[0], o["rc"], {k: c[k] for k in "olsx"})
            for f in c["files"]:
                print(bytes(f["name"])); print("\n".join("   |" + bytes(l).decode("latin-1") for l in f["lines"][:40]))
            for x in list(difflib.unified_diff([tx(x) for x in s["rows"]], [tx(x) for x in i["rows"]], "spec", "impl", lineterm="", n=2))[:30]: print(x)
            if s["obj"] != i["obj"]: print(s["obj"], i["obj"])
    print("cases", len(cases), "mismatches", bad)
finally: shutil.rmtree(W)

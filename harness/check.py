#!/usr/bin/env python3
"""check.py PID [quick|thorough]: decides one property.

The specification (spec/*.tla) is run by TLC on the small worlds and the random
programs the property names below; every behaviour is then replayed into crasm,
built from /repo's working tree, and what the property is about is compared."""
import json, os, random, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen, impl, meaning, spec, project as pj
ROOT = os.path.dirname(HERE)

class Plan:
    """mc: small worlds (all their programs); rnd: themes of random programs with the
    number of them (quick, thorough); proj: what is compared.
    fixed: processors of which every instruction form is assembled (values: with many values).
    stale: every other run finds a file with the object file's name.
    laws: what is frequent in programs whose bytes are known by construction (meaning.py),
    with the number of them."""
    def __init__(self, mc=(), rnd=(), proj=(), fixed=(), special=None, stale=False, values=False, laws=()):
        self.laws = laws
        self.mc, self.rnd, self.proj, self.fixed, self.special, self.stale, self.values = mc, rnd, proj, fixed, special, stale, values

G = [pj.errs, pj.image, pj.codecols_if_errors]
GA = [pj.errs, pj.image, pj.codecols]
PLANS = {
 "P01": Plan(["core"], [("core", 1600, 20000), ("records", 900, 9000), ("macros", 200, 4000), ("includes", 200, 4000), ("big", 30, 300), ("mixed", 700, 8000)], [pj.image], laws=("", 250, 5000)),
 "P02": Plan(["records"], [("records", 1800, 20000), ("core", 500, 8000), ("big", 20, 200), ("mixed", 300, 3000)], [pj.last, pj.image], special="objects"),
 "P03": Plan(["errs"], [("errs", 900, 9000), ("core", 500, 5000), ("warns", 400, 4000), ("garbage", 300, 4000), ("options1", 500, 4000), ("mixed", 700, 8000), ("many", 34, 340)], [pj.summary, pj.hasobj], stale=True),
 "P04": Plan(["symbols"], [("symbols", 1800, 20000), ("xref", 500, 6000), ("big", 30, 300), ("mixed", 400, 5000)], GA, laws=("label equ expr", 200, 4000)),
 "P05": Plan(["passes"], [("passes", 2200, 24000), ("big", 20, 200), ("symbols", 300, 4000), ("branches", 300, 3000), ("mixed", 500, 6000), ("many", 34, 340)], GA, laws=("insn equ cond", 200, 4000)),
 "P06": Plan(["symbols"], [("symbols", 1500, 15000), ("cpus", 600, 6000), ("errs", 300, 4000), ("mixed", 300, 4000)], GA),
 "P07": Plan(["scopes"], [("scopes", 2000, 25000), ("big", 30, 300), ("mixed", 700, 8000), ("many", 34, 340)], GA, laws=("local call section", 250, 4000)),
 "P08": Plan(["exprs"], [("exprs", 2400, 28000), ("conds", 500, 6000)], G, laws=("expr data", 250, 5000)),
 "P09": Plan(["consts"], [("consts", 2600, 30000)], G),
 "P10": Plan(["conds"], [("conds", 2200, 25000), ("macros", 200, 3000), ("big", 10, 100), ("mixed", 600, 8000), ("many", 34, 340)], GA, laws=("cond expr", 250, 5000)),
 "P11": Plan(["macros"], [("macros", 1500, 20000), ("scopes", 200, 3000), ("big", 30, 300), ("limits", 250, 4000), ("mixed", 800, 10000), ("many", 34, 340)], GA, laws=("call exitm", 250, 5000)),
 "P12": Plan(["includes"], [("includes", 2000, 25000), ("mixed", 500, 8000), ("many", 34, 340)], GA, laws=("include label", 250, 4000)),
 "P13": Plan(["core"], [("core", 1500, 15000), ("passes", 500, 6000), ("records", 300, 3000), ("big", 30, 300), ("mixed", 600, 8000), ("many", 34, 340)], GA, laws=("section org ds align", 250, 5000)),
 "P14": Plan(["data"], [("datas", 1500, 20000), ("warns", 300, 3000), ("many", 34, 340)], G, laws=("data asc ds", 250, 4000)),
 "P15": Plan([], [("isa6800", 4000, 40000)], G, fixed=["6800", "6801"]),
 "P16": Plan([], [("isa6502", 4000, 40000)], G, fixed=["6500", "6502", "65C02"]),
 "P17": Plan([], [("isaz80", 5000, 50000)], G, fixed=["Z80"], special="cpdr"),
 "P18": Plan(["branches"], [("branches", 2600, 30000)], G, laws=("insn label local", 200, 4000)),
 "P19": Plan(["errs"], [("errs", 2000, 25000), ("macros", 200, 3000), ("includes", 200, 3000), ("mixed", 1000, 12000), ("many", 34, 340)], [pj.errs, pj.codecols]),
 "P20": Plan(["listing"], [("listing", 1500, 18000), ("macros", 200, 3000), ("includes", 200, 3000), ("mixed", 1200, 15000), ("many", 34, 340)], [pj.listing]),
 "P21": Plan(["options"], [("options", 480, 6000)], [pj.errs, pj.obj, pj.errtotal, pj.codelen]),
 "P22": Plan(["symtab"], [("xref", 2000, 25000), ("mixed", 300, 4000), ("many", 34, 340)], [pj.symtab]),
 "P23": Plan(["lex"], [("lexical", 520, 7000)], G),
 "P24": Plan(["pages"], [("pages", 1000, 12000), ("listing", 500, 8000), ("mixed", 300, 4000), ("many", 34, 340)], [pj.paged]),
 "P25": Plan(["cpus"], [("cpus", 2000, 25000), ("mixed", 300, 4000)], [pj.errs, pj.warns, pj.image, pj.kinds, pj.codecols_if_errors]),
 "P26": Plan(special="cli"),
 "P27": Plan(["warns"], [("warns", 1800, 22000), ("isa6800", 150, 2000), ("isa6502", 150, 2000), ("isaz80", 150, 2000), ("mixed", 400, 6000), ("many", 34, 340)], [pj.warns, pj.totals, pj.image, pj.hasobj], fixed=["6801", "65C02", "Z80"], values=True),
 "P28": Plan(["garbage", "nesting"], [("garbage", 1500, 20000), ("mutants", 700, 15000), ("mixed", 500, 8000), ("limits", 500, 8000), ("pages", 200, 3000), ("many", 34, 340)], [pj.errs], special="robust"),
}
PAIRS = ("options", "lexical")

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.plan = pid, tier, seed, PLANS[pid]
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="crasm-%s-" % pid)
        self.states = self.transitions = self.traces = 0
        self.worlds, self.samples, self.notes, self.found, self.known = {}, [], {}, [], []
        self.count = dict(without_error=0, with_error=0, fatal=0, object_file=0)
    def log(self, s):
        print("[%5.1f s] %s" % (time.time() - self.t0, s), flush=True)

    # ------------------------------------------------ behaviours of the specification
    def quota(self, q, t): return q if self.tier == "quick" else t
    def rng(self, theme, i): return random.Random("%s-%s-%d" % (theme, self.seed, i))
    def random_cases(self):
        out = []
        for theme, q, t in self.plan.rnd:
            n = self.quota(q, t)
            for i in range(n):
                x = getattr(gen, theme)(self.rng(theme, i), "%s-%d" % (theme, i))
                out.append(x)
            self.worlds["random " + theme] = n
        for cpu in self.plan.fixed:
            cs, vs = gen.isa_cases(cpu), gen.value_cases(cpu)
            if self.plan.values: cs = []
            else:
                vs = vs if self.tier != "quick" else []
                self.worlds["every form on " + cpu] = len(cs)
            if vs: self.worlds["values on " + cpu] = len(vs)
            out += cs + vs
        return out
    def start(self):
        self.mc = []
        for k, theme in enumerate(self.plan.mc):
            dst = os.path.join(self.work, "mc-%s" % theme, "")
            os.mkdir(dst)
            p = spec.start("MC.tla", "MCLive.cfg" if self.pid == "P28" else "MC.cfg", self.work, "mc%d" % k, dict(THEME=theme, TIER=self.tier, RESULTS=dst), workers=4 if self.plan.rnd else 8,
                           heap="3g" if self.tier == "quick" else "12g", young="1g" if self.tier == "quick" else "6g")
            self.mc.append((theme, p, "mc%d" % k, dst))
        groups = self.random_cases()
        self.pairs = bool(groups) and isinstance(groups[0], list)
        self.cases = [c for g in groups for c in g] if self.pairs else groups
        self.run = self.lawrun = None
        self.laws = []
        if self.plan.laws:
            focus, q, t = self.plan.laws
            n = self.quota(q, t)
            self.laws = [meaning.program(self.rng("law", i), "law-%d" % i, focus.split()) for i in range(n)]
            self.worlds["programs by construction"] = n
            self.lawrun = spec.Run(self.laws, self.work, tag="law", shards=1, workers=2, module="Pairs", heap="3g" if self.tier == "quick" else "8g")
        if groups:
            self.run = spec.Run(groups, self.work, shards=2 if self.tier == "quick" or not self.pairs else 2, workers=3,
                                module="Pairs" if self.pairs else "Run", heap="3g" if self.tier == "quick" else "8g")
    def add(self, g, d):
        self.transitions += g; self.states += d
    def worlds_done(self, limit):
        """(case, result) of the small worlds."""
        for theme, p, tag, dst in self.mc:
            g, d, depth = spec.finish(p, self.work, tag, limit)
            self.add(g, d)
            rs = spec.results(dst)
            self.worlds["all programs of " + theme] = len(rs)
            self.log("world %s: %d programs, %d states, depth %d" % (theme, len(rs), d, depth))
            for r in rs:
                r["id"] = theme + r["id"]
                yield r, r
    def random_done(self, limit):
        if not self.run: return
        res = self.run.join(limit)
        self.add(self.run.states, self.run.distinct)
        self.log("random programs: %d, %d states, depth %d" % (len(self.cases), self.run.distinct, self.run.depth))
        for c in self.cases: yield c, res[c["id"]]
    def laws_done(self, limit):
        """Programs whose bytes are known: TLC has compared the specification with them already,
        the implementation is compared with the specification on the programs in full."""
        if not self.lawrun: return
        res = self.lawrun.join(limit)
        self.add(self.lawrun.states, self.lawrun.distinct)
        self.log("programs by construction: %d, %d states" % (len(self.laws), self.lawrun.distinct))
        for g in self.laws: yield g[0], res[g[0]["id"]]
    def mark(self, pairs):
        """Half of the cases find an old file where the object file belongs."""
        if self.plan.stale:
            for k, (c, r) in enumerate(pairs):
                c["stale"] = bool(k & 1)
                r["kept"] = c["stale"] and not (c["o"] and (r["opened"] or r["nerr"]))

    # ------------------------------------------------ the implementation
    def judge(self, case, s, o):
        """None, or how the observation o of the implementation differs from the behaviour s."""
        return pj.differs(s, pj.of_impl(o), self.plan.proj)
    def again(self, case, s, **kw):
        """A difference has to show again, with more time."""
        o = impl.run(kw.pop("exe", self.exe), case, self.work, timeout=60 if len(self.found) < 3 else 5, **kw)
        return self.judge(case, s, o), o
    def compare(self, pairs, exe=None, env=None, what="", judge=None):
        pairs = list(pairs)
        exe = exe or self.exe
        outs = impl.runs(exe, [c for c, _ in pairs], self.work, env)
        self.traces += sum(o["rc"] != "skipped" for o in outs)
        for (c, r), o in zip(pairs, outs):
            if o["rc"] == "skipped" or len(self.found) >= 20: continue      # enough has failed
            s = pj.of_spec(r)
            if self.judge(c, s, o):
                d, o = self.again(c, s, exe=exe, env=env)
                if d: self.violation(c, d, o, what)
        return outs
    def tally(self, pairs):
        for c, r in pairs:
            k = "fatal" if r["fatal"] else "with_error" if r["nerr"] else "without_error"
            self.count[k] += 1
            if r["recs"]: self.count["object_file"] += 1
    def violation(self, case, d, o, what="", args=None):
        if len(self.found) < 5:
            path = os.path.join(ROOT, "evidence", "replays", "%s-%d" % (self.pid, len(self.found) + 1))
            shutil.rmtree(path, ignore_errors=True)
            os.makedirs(path)
            impl.place(case, path)
            with open(os.path.join(path, "REPLAY.txt"), "w") as f:
                f.write("case %s of property %s, seed %d%s\ncd here; crasm %s\n\n%s\nspecification: %s\nimplementation: %s\n\n" %
                        (case["id"], self.pid, self.seed, " (%s)" % what if what else "", " ".join(args if args is not None else impl.options(case) + [impl.MAIN]), d[0], show(d[1]), show(d[2])))
                f.write(o["out"].decode("latin-1") + o["err"].decode("latin-1")[-2000:])
            self.found.append(path)
            self.log("%s: %s differs%s\n   specification: %s\n   implementation: %s" % (case["id"], d[0], " (%s)" % what if what else "", show(d[1])[:300], show(d[2])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        else: self.found.append(None)
    def sample(self, pairs):
        r = random.Random(self.seed)
        for c, x in r.sample(pairs, min(4, len(pairs))):
            self.samples.append(dict(id=c["id"], options="".join(k for k in "olsx" if c[k]),
                                     files=[["".join(map(chr, l)) for l in f["lines"]] for f in c["files"]],
                                     errors=x["nerr"], warnings=x["nwarn"], records=["".join(map(chr, l)) for l in x["recs"]][:6]))

    # ------------------------------------------------ all together
    def main(self):
        limit = 800 if self.tier == "quick" else 6000
        self.start()
        try:
            self.exe = impl.build(self.work)
            if self.plan.special:
                import special
                getattr(special, self.plan.special)(self, limit)
            else: self.standard(limit)
        finally:
            for _, p, _, _ in self.mc:
                if p.poll() is None: p.kill(); p.wait()
        self.evidence()
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        self.log("%s %s: %d behaviours compared, %d states, %d violations" % (self.pid, self.tier, self.traces, self.states, len(self.found)))
        return 1 if self.found else 0
    def standard(self, limit):
        pairs = list(self.random_done(limit))
        pairs += self.laws_done(limit)
        pairs += self.worlds_done(limit)
        self.mark(pairs)
        self.tally(pairs); self.sample(pairs)
        self.compare(pairs)
        return pairs
    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                 coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, worlds=self.worlds,
                               behaviours=self.count, compared=[p.__name__ for p in self.plan.proj], samples=self.samples, **self.notes),
                 assumptions=["TLC and the specification in spec/ as the meaning of the property", "gcc builds crasm as the project's Makefile does"],
                 wall_s=round(time.time() - self.t0, 1), violations=len(self.found))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f: json.dump(e, f, indent=1)

def show(x):
    def one(v): return bytes(v).decode("latin-1") if isinstance(v, list) and v and all(isinstance(a, int) and 0 <= a < 256 for a in v) else v
    if isinstance(x, list) and x and isinstance(x[0], (list, bytes)): x = [one(v) for v in x]
    return repr(x)[:4000]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    impl.limits_core()
    ck = Check(pid, tier, seed)
    try:
        return ck.main()
    except (spec.SpecError, impl.BuildError) as x:
        print("ERROR of the check: %s" % x)
        return 2
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())

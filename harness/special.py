"""The checks that do more than compare projections of behaviours."""
import json, os, random, re, shutil, subprocess, tempfile
import gen, impl, spec, project as pj

# ---------------------------------------------------------------- P02
def objects(ck, limit):
    """The object files crasm writes go record by record through the loader of the
    specification (spec/Loader.tla)."""
    pairs = list(ck.random_done(limit)) + list(ck.worlds_done(limit))
    ck.tally(pairs); ck.sample(pairs)
    outs = ck.compare(pairs)
    todo = [(c, o) for (c, r), o in zip(pairs, outs) if o["obj"] is not None and not r["fatal"]]
    src, dst = os.path.join(ck.work, "objects.json"), os.path.join(ck.work, "objects.res", "")
    os.mkdir(dst)
    def lines(b):
        ls = b.split(b"\n")
        return [list(l) for l in (ls[:-1] if ls[-1] == b"" else ls)]
    with open(src, "w") as f: json.dump([dict(id=str(k), lines=lines(o["obj"])) for k, (c, o) in enumerate(todo)], f)
    g, d, _ = spec.finish(spec.start("Objects.tla", "Objects.cfg", ck.work, "objects", dict(CASES=src, RESULTS=dst), workers=8), ck.work, "objects", limit)
    ck.add(g, d)
    res = {int(x["id"]): x for x in spec.results(dst)}
    ck.notes["object_files_validated"] = len(todo)
    ck.notes["records_validated"] = sum(len(lines(o["obj"])) for _, o in todo)
    for k, (c, o) in enumerate(todo):
        x = res[k]
        if not x["ok"]: ck.violation(c, ("object file", "loads", "record %d: %s" % (x["at"], x["why"])), o)

# ---------------------------------------------------------------- P17
KNOWN_CPDR = "Z80 CPDR is assembled as ED 89 instead of ED B9"
def cpdr(ck, limit):
    ck.standard(limit)
    c = gen.case("cpdr", [" cpu Z80", "* = $1234", " cpdr"])
    o = impl.run(ck.exe, c, ck.work)
    im = pj.image(pj.of_impl(o))
    ck.traces += 1
    want = [(0x1234, 0xED), (0x1235, 0xB9)]
    if im == want: return
    if im == [(0x1234, 0xED), (0x1235, 0x89)] and known("P17", KNOWN_CPDR): ck.known.append(KNOWN_CPDR)
    else: ck.violation(c, ("image", want, im), o)

def known(pid, text):
    with open(os.path.join(os.path.dirname(impl.__file__), "..", "known-findings.txt")) as f:
        return "known: property=%s %s" % (pid, text) in f.read().splitlines()

# ---------------------------------------------------------------- P26
CLI_FILES = {
    "a.asm": [" cpu 6502", "* = $1000", "Qa lda #300", " db 1"],
    "bad.asm": [" cpu 6800", "* = $10", " db 1,2", " bogus", "Qb = 4"],
    "none.asm": ["; nothing here", "Qc = 1"],
    "deep.asm": ["M macro", " M", " endm", "* = 0", " db 1", " M"],
}
OLD = impl.OLD
def cli(ck, limit):
    """Every command line of a few words.  The outcome and the files come from spec/Cli.tla,
    the output of a run from spec/Crasm.tla."""
    names = list(CLI_FILES)
    cases = [gen.case("%s/%d" % (n, k), CLI_FILES[n], o=bool(k & 1), l=bool(k & 2), s=bool(k & 4), x=bool(k & 8)) for n in names for k in range(16)]
    for c in cases: c["id"] = c["id"].replace("/", "+")
    run = spec.Run(cases, ck.work, tag="programs", shards=1, workers=8)
    res = run.join(limit)
    ck.add(run.states, run.distinct)
    words = ["-s", "-l", "-x", "-o", "-lo", "-sx", "-ol", "-", "-oo", "-q", "-slxo", "--", "a.asm", "bad.asm", "none.asm", "deep.asm", "gone.asm", "dir", "new.obj", "old.obj", "no/x.obj", ""]
    few = [(["-s", "-l", "-x", "-o", "-xo", "a.asm", "new.obj"], 4), (["-o", "-x", "a.asm", "new.obj"], 5)]
    plans = [(words, 3)] + few if ck.tier == "quick" else [(words, 3)] + few + [(["-s", "-l", "-x", "-o", "-xo", "-q", "-", "a.asm", "bad.asm", "new.obj", "old.obj", "no/x.obj"], 4), (["-s", "-l", "-x", "-o", "-ls", "a.asm", "new.obj"], 5)]
    existing = names + ["old.obj", "plain.txt"]
    seen, todo = set(), []
    for k, (ws, mx) in enumerate(plans):
        src, dst = os.path.join(ck.work, "words%d.json" % k), os.path.join(ck.work, "cli%d.res" % k, "")
        os.mkdir(dst)
        info = [dict(name=n, fatal=res[n + "+1"]["fatal"] != "", opens=res[n + "+1"]["opened"], errors=res[n + "+1"]["nerr"] > 0) for n in names]
        # a file that is no program has only unknown words; one that is an old object file likewise
        extra = {"old.obj": OLD, "plain.txt": OLD}
        info += [dict(name=n, fatal=False, opens=False, errors=True) for n in extra]
        with open(src, "w") as f: json.dump(dict(words=ws, max=mx, unwritable=["no/x.obj", "dir", ""], existing=existing, inputs=info), f)
        g, d, _ = spec.finish(spec.start("Cli.tla", "Cli.cfg", ck.work, "cli%d" % k, dict(CASES=src, RESULTS=dst), workers=8), ck.work, "cli%d" % k, limit)
        ck.add(g, d)
        rs = spec.results(dst)
        ck.worlds["all command lines of up to %d of %d words" % (mx, len(ws))] = len(rs)
        for r in rs:
            if tuple(r["args"]) not in seen: seen.add(tuple(r["args"])); todo.append(r)
    ck.log("%d command lines" % len(todo))
    import multiprocessing
    global _cli
    _cli = (ck.exe, ck.work, res, impl.Patience())
    with multiprocessing.get_context("fork").Pool(8, impl.limits) as pool:
        out = pool.map(cli_one, todo, chunksize=16)
    ck.traces += sum(o["rc"] != "skipped" for _, o in out)
    for r, (d, o) in zip(todo, out):
        ck.count[{"usage": "with_error", "fatal": "fatal", "assembled": "without_error"}[r["out"]]] += 1
        if d and len(ck.found) < 20:
            d, o = cli_one(r, 30 if len(ck.found) < 3 else 5)
            if d: ck.violation(dict(gen.case("cli", [""]), id="crasm " + " ".join(r["args"])), d, o, args=r["args"])
    rr = random.Random(ck.seed)
    ck.samples += [dict(args=r["args"], outcome=r["out"], files=r["files"]) for r in rr.sample(todo, 5)]

def cli_setup(d):
    for n, ls in CLI_FILES.items():
        with open(os.path.join(d, n), "w") as f: f.write("\n".join(ls) + "\n")
    for n in ("old.obj", "plain.txt"):
        with open(os.path.join(d, n), "wb") as f: f.write(OLD)
    os.mkdir(os.path.join(d, "dir"))
def tree(d):
    t = {}
    for p, ds, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(p, n), "rb") as f: t[os.path.relpath(os.path.join(p, n), d)] = f.read(1 << 20)
        for n in ds: t[os.path.relpath(os.path.join(p, n), d) + "/"] = b""
    return t
USAGE = b"crasm"
def cli_one(r, timeout=None):
    """One command line in a directory of its own: (difference or None, output)."""
    exe, work, res, patience = _cli
    t = timeout or patience.timeout()
    if not t: return None, impl.SKIPPED
    d = tempfile.mkdtemp(dir=work)
    try:
        cli_setup(d)
        before = tree(d)
        o = impl.execute([exe] + r["args"], d, t)
        patience.note(o["rc"])
        after = tree(d)
        cl, want = r["cl"], dict(before)
        name = cl["target"]
        x = None
        if r["out"] == "assembled":
            if o["rc"] != 0: return ("exit status", 0, o["rc"]), o
            if cl["input"] in CLI_FILES:
                x = res["%s+%d" % (cl["input"], cl["o"] + 2 * cl["l"] + 4 * cl["s"] + 8 * cl["x"])]
                got = impl.rows(o["out"])
                if got != x["rows"]: return ("output", x["rows"], got), o
            if cl["o"]:
                v = r["files"].get(name)
                if v is None: want.pop(name, None)      # a directory is no file of the model: it stays
                elif v == "object": want[name] = b"".join(bytes(l) + b"\n" for l in x["recs"])
            if after != want: return ("files", {k: want[k] for k in want if want[k] != after.get(k)}, {k: after[k] for k in after if after[k] != want.get(k)} or sorted(after)), o
        else:
            if o["rc"] in (0, "timeout") or o["rc"] < 0: return ("exit status", "not 0", o["rc"]), o
            if not o["out"].strip() and not o["err"].strip(): return ("message", "some", "none"), o
            if r["out"] == "usage":
                told = set((o["out"] + o["err"]).split())
                unknown = [c for c in gen.CPUS if c.encode() not in told]
                if unknown: return ("processors in the usage message", "all", "without " + ", ".join(unknown)), o
            # a fatal error in the second pass may leave a part of the object file
            if r["out"] == "fatal" and cl["o"]: want.pop(name, None); after.pop(name, None)
            if after != want: return ("files", "unchanged", sorted(k for k in set(after) | set(want) if after.get(k) != want.get(k))), o
        return None, o
    finally: shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- P28
def robust(ck, limit):
    """Under the address sanitizer, and twice: the same output whatever memory holds."""
    pairs = list(ck.random_done(limit)) + list(ck.worlds_done(limit))
    ck.tally(pairs); ck.sample(pairs)
    a = ck.compare(pairs)
    asan = build_asan(ck.work)
    r = random.Random(ck.seed)
    n = len(ck.cases)
    some = pairs[:n] + r.sample(pairs[n:], min(len(pairs) - n, ck.quota(3000, 60000)))
    b = ck.compare(some, exe=asan, env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99"), what="address sanitizer")
    c = impl.runs(ck.exe, [x for x, _ in pairs[:n]], ck.work, dict(MALLOC_PERTURB_="165"))
    ck.traces += len(c)
    keys = ("rc", "out", "obj")
    for (case, s), x, y in zip(pairs[:n], a, c):
        if "skipped" in (x["rc"], y["rc"]) or len(ck.found) >= 20: continue
        if any(x[k] != y[k] for k in keys) and not (x["rc"] == "timeout" or y["rc"] == "timeout"):
            ck.violation(case, ("second run", "the same", "another output"), y, "run twice")
    ck.notes["sanitized_runs"] = len(some)
    ck.notes["runs_twice"] = n

def build_asan(work):
    dst = os.path.join(work, "asan")
    shutil.copytree(os.path.join(impl.REPO, "src"), dst, ignore=lambda d, ns: [n for n in ns if n.endswith(".o") or n == "crasm"])
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS")}
    p = subprocess.run(["make", "-j8", "CC=gcc -g -fsanitize=address -fno-omit-frame-pointer", "all"], cwd=dst, env=dict(env, LC_ALL="C"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    exe = os.path.join(dst, "crasm")
    if p.returncode or not os.access(exe, os.X_OK): raise impl.BuildError(p.stdout.decode(errors="replace")[-2000:])
    return exe

"""The specification side: runs TLC on the modules in spec/ and reads the
behaviours it reports."""
import json, os, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class SpecError(Exception):
    pass

def start(module, cfg, work, tag, env=None, workers=4, heap="3500m", gc="-XX:+UseParallelGC", young="1500m", jit=()):
    e = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS", "JDK_JAVA_OPTIONS", "_JAVA_OPTIONS")}
    e.update(env or {}, LC_ALL="C.UTF-8")
    meta = os.path.join(work, "meta-" + tag)
    cmd = ["java", *jit, "-Xmx" + heap, "-Xmn" + young, "-Xss64m", gc, "-Djava.io.tmpdir=" + work, "-cp", JARS,
           "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", module]
    log = open(os.path.join(work, "tlc-%s.log" % tag), "wb")
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)
    log.close()
    return p

def finish(p, work, tag, timeout):
    """Waits for it. Returns (generated, distinct, depth); a failure of TLC, a violated
    invariant of the specification included, is an error of the machinery."""
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        raise SpecError("TLC did not finish in time")
    with open(os.path.join(work, "tlc-%s.log" % tag), errors="replace") as f: out = f.read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    if p.returncode != 0 or not m:
        i = out.find("Starting...")
        i = max(i, out.find("Error:"), 0)
        raise SpecError(out[i:][:1200] + " ... " + out[i + 1200:][-2500:])
    return int(m.group(1)), int(m.group(2)), int(d.group(1)) if d else 0

def results(path):
    """The behaviours reported below the directory path, one a file."""
    r = []
    for n in os.listdir(path):
        with open(os.path.join(path, n)) as f: r.append(json.load(f))
    return r

class Run:
    """TLC on the cases (module Pairs: groups of cases), in parallel processes:
    join() gives the results by case id."""
    def __init__(self, cases, work, tag="r", shards=2, workers=4, module="Run", **kw):
        self.work, self.tag = work, tag
        n = max(1, min(shards, len(cases) // 8))
        if len(cases) < 3000: kw = dict(dict(jit=["-XX:TieredStopAtLevel=1"]), **kw)     # less to warm up
        # long programs first, dealt out in turns
        size = lambda c: sum(map(size, c)) if isinstance(c, list) else sum(len(f["lines"]) for f in c["files"])
        order = sorted(cases, key=lambda c: -size(c))
        self.parts = []
        for i in range(n):
            t = "%s%d" % (tag, i)
            src, dst = os.path.join(work, t + ".json"), os.path.join(work, t + ".res", "")
            os.mkdir(dst)
            with open(src, "w") as f: json.dump(order[i::n], f)
            self.parts.append((t, start(module + ".tla", module + ".cfg", work, t, dict(CASES=src, RESULTS=dst), workers, **kw), dst))
    def join(self, timeout=800):
        """On a failure of TLC, the other processes are ended."""
        end = time.time() + timeout
        res, self.states, self.distinct, self.depth = {}, 0, 0, 0
        try:
            for t, p, dst in self.parts:
                g, s, d = finish(p, self.work, t, max(1, end - time.time()))
                self.states += g; self.distinct += s; self.depth = max(self.depth, d)
                for r in results(dst): res[r["id"]] = r
        finally:
            for t, p, dst in self.parts:
                if p.poll() is None: p.kill(); p.wait()
        return res

"""The implementation side: builds crasm from /repo's working tree, runs it on
a case and projects what it shows to the specification's vocabulary."""
import multiprocessing, os, re, resource, shutil, subprocess, tempfile

REPO = os.environ.get("CRASM_REPO", "/repo")

class BuildError(Exception):
    pass

def build(work):
    """Copies /repo/src to work/src and builds it with the project's Makefile."""
    dst = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), dst,
                    ignore=lambda d, ns: [n for n in ns if n.endswith(".o") or n == "crasm"])
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS")}
    env["LC_ALL"] = "C"
    p = subprocess.run(["make", "-j8", "CC=gcc", "all"], cwd=dst, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    exe = os.path.join(dst, "crasm")
    if p.returncode or not os.access(exe, os.X_OK):
        raise BuildError(p.stdout.decode(errors="replace")[-2000:])
    return exe

def file_bytes(lines):
    return b"\n".join(bytes(l) for l in lines)

MAIN = "main.asm"
OBJ = "out.obj"
OLD = b"not written by crasm\n"

def options(case):
    a = []
    if case["l"]: a.append("-l")
    if case["s"]: a.append("-s")
    if case["x"]: a.append("-x")
    if case["o"]: a += ["-o", OBJ]
    return a

ENV = {"LC_ALL": "C", "PATH": "/usr/bin:/bin"}
LIMIT = 4 << 20
ABNORMAL = 64 << 10         # of the output of a run that did not end by itself
FSIZE = 16 << 20
OPEN = 64                   # files open at the same time: crasm needs no more than 14
limited = False

def place(case, d):
    """The files of the case, in the directory d."""
    for i, f in enumerate(case["files"]):
        name = MAIN if i == 0 else bytes(f["name"]).decode("latin-1")
        if "/" in name: os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
        with open(os.path.join(d, name), "wb") as fh:
            fh.write(file_bytes(f["lines"]))
    if case.get("stale"):
        with open(os.path.join(d, OBJ), "wb") as fh: fh.write(OLD)

def execute(argv, d, timeout, env=None):
    """One run in the directory d, its output in files beside d (so that it is limited)."""
    try:
        with open(d + ".out", "w+b") as so, open(d + ".err", "w+b") as se:
            p = subprocess.Popen(argv, cwd=d, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=dict(ENV, **(env or {})),
                                 preexec_fn=None if limited else limits)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                rc = "timeout"
            so.seek(0); se.seek(0)
            n = LIMIT if rc in (0, 10) else ABNORMAL
            out, err = so.read(n), se.read(n)
            return dict(rc=rc, out=out, err=err, read=n)
    finally:
        for x in (".out", ".err"):
            if os.path.exists(d + x): os.unlink(d + x)

def run(exe, case, scratch, args=None, timeout=20, env=None):
    """One run in a fresh directory below scratch. Returns what was observed."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        place(case, d)
        before = set(os.listdir(d))
        o = execute([exe] + (options(case) + [MAIN] if args is None else args), d, timeout, env)
        out, err, rc, n = o["out"], o["err"], o["rc"], o["read"]
        after = set(os.listdir(d))
        obj = None
        if OBJ in after:
            with open(os.path.join(d, OBJ), "rb") as fh: obj = fh.read(n)
        return dict(rc=rc, out=out, err=err, obj=obj, new=sorted(after - before - {OBJ}))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def limits():
    """For this process and what it starts: no endless output, no core files, not very many open files."""
    global limited
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
    resource.setrlimit(resource.RLIMIT_NOFILE, (OPEN, OPEN))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    limited = True

def limits_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Patience:
    """Time limits for many runs: the first that hang get much time, then little, then none."""
    def __init__(self): self.hung = multiprocessing.get_context("fork").Value("i", 0)
    def timeout(self): return 20 if self.hung.value < 8 else 1 if self.hung.value < 80 else 0
    def note(self, rc):
        if rc == "timeout":
            with self.hung.get_lock(): self.hung.value += 1
SKIPPED = dict(rc="skipped", out=b"", err=b"", obj=None, new=[])

_job = None
def _one(i):
    exe, cases, scratch, env, patience = _job
    t = patience.timeout()
    if not t: return SKIPPED
    o = run(exe, cases[i], scratch, env=env, timeout=t)
    patience.note(o["rc"])
    return o

def runs(exe, cases, scratch, env=None, procs=8):
    """All cases, in parallel processes.  (After many that hang, the rest is skipped.)"""
    global _job
    _job = (exe, cases, scratch, env, Patience())
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, limits) as pool:
        return pool.map(_one, range(len(cases)), chunksize=16)

MSG = re.compile(rb"^>*\s*(-?\d+|\?+)? ?(ERROR|WARNING):")
HEAD = re.compile(rb"^Crasm \S+:")
FATAL = re.compile(rb"^FATAL ERROR: ")

def rows(out):
    """The lines of the listing as the specification writes them:
    a list of character codes, [-1, line] an error message, [-2, line] a warning."""
    r = []
    ls = out.split(b"\n")
    if ls and ls[-1] == b"": ls.pop()
    for l in ls:
        m = MSG.match(l)
        if m:
            n = m.group(1)
            r.append([-1 if m.group(2) == b"ERROR" else -2, int(n) if n and n.lstrip(b"-").isdigit() else -1])
        else:
            r.append(list(HEAD.sub(b"Crasm V:", l, count=1)))
    return r

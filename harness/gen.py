"""Programs for the specification to run: seeded random programs per theme.

A case is what spec/Crasm.tla calls Case(c): files (name and lines as character
codes; the first is the main file) and the options o, l, s, x."""
import random

def codes(s):
    return [ord(ch) for ch in s]

def case(id, lines, files=None, o=True, l=False, s=False, x=False, last=True):
    """lines: str list. last: the file ends with a newline."""
    fs = [dict(name=[], lines=[codes(t) for t in lines] + ([[]] if last else []))]
    for name, ls, nl in (files or []):
        fs.append(dict(name=codes(name), lines=[codes(t) for t in ls] + ([[]] if nl else [])))
    return dict(id=id, files=fs, o=o, l=l, s=s, x=x)

CPUS = ["6800", "6801", "6803", "6500", "6502", "65C02", "Z80"]

def cpu_of(r, names=CPUS):
    return r.choice(names)

# addresses at which something changes: page, record address width, upper half, sign
EDGES = [0, 1, 0xF, 0x10, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFF0, 0xFFFE, 0xFFFF, 0x10000,
         0x1FFFC, 0x7FFFFF, 0x800000, 0xFFFFF8, 0xFFFFFF, 0x1000000, 0x12345678, 0x7FFFFFF8, 0x80000000,
         0xFFFEFFFC, 0xFFFFFF00]
SMALL = [0, 1, 2, 3, 5, 0x10, 0x7F, 0x80, 0xFF]

def num(r, v):
    """v >= 0 in one of the notations."""
    k = r.randrange(10)
    if k < 4: return str(v)
    if k < 6: return "$%X" % v
    if k == 6: return "0%xh" % v
    if k == 7: return "0x%x" % v
    if k == 8 and v < 512: return "%" + bin(v)[2:]
    if k == 9: return "%oQ" % v
    return "$%x" % v

def val(r):
    return r.choice([r.randrange(0, 8), r.randrange(256), r.randrange(65536), r.choice(EDGES), r.choice(SMALL)])

LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"
def name(r, n=None):
    n = n or r.randrange(1, 6)
    return "Q" + "".join(r.choice("xyzXYZ_1.") for _ in range(n))

STRCH = "abcXYZ 019;,()+'\"#"
def string(r, n=None, q=None):
    q = q or r.choice("'\"")
    n = r.randrange(0, 9) if n is None else n
    out = ""
    for _ in range(n):
        c = r.choice(STRCH) if r.random() < .8 else r.choice(["\\n", "\\t", "\\r", "\\0", "\\\\", "\\'", '\\"'])
        out += "\\" + c if c == q else c
    return q + out + q

# ------------------------------------------------------------------ big programs
def big(r, id):
    """Programs in which something is numerous or large: symbols, scopes, calls, macros, lines, bytes."""
    k = int(id.rsplit("-", 1)[1]) % 10
    p = P(r, r.choice(["6502", "6800", "Z80"]))
    n = r.choice([257, 260, 270]) if k in (1, 2) else r.choice([99, 100, 101, 102, 130, 205])
    if k == 0:          # symbols, forward and backward
        p.org(0x1000)
        ids = list(range(n)); r.shuffle(ids)
        fwd = r.sample(ids, 5)
        for i in fwd: p.add(" dw Qs%d" % i)
        for i in ids: p.add(("Qs%d = %d" if i % 3 else "Qs%d db %d") % (i, i & 255))
        for i in r.sample(ids, 20): p.add(" dw qs%d" % i)
        if r.random() < .3: p.add("Qs%d db 1" % (ids[0] // 3 * 3))
    elif k == 1:        # scopes: CODE and DUMMY
        p.org(0x10)
        at = {0, 1, 255, 256, 257} | {r.randrange(n) for _ in range(8)}
        for i in range(n):
            if i in at: p.add(".a db 1", " dw .a" + r.choice(["", ",.b"]), ".b" + r.choice([" = %d" % i, " db 3"]))
            p.add(r.choice([" code", " code", " dummy"]))
        p.add(" code", ".a db 2", " dw .a")
    elif k == 2:        # calls
        p.add("Qm macro", ".a db \\1", " if \\1&127=5", " dw .a", " endc", " endm")
        p.org(0x100)
        p.add(".a db 9")
        for i in range(n): p.add(" Qm %d" % (i & 255))
        p.add(" dw .a")
    elif k == 3:        # a long macro
        p.add("Qm macro", *[r.choice([" db %d" % (i & 255), "; c", " nop", " db \\1", "Qx = %d" % i, ""]) for i in range(n)], " endm")
        p.org(0x100)
        p.add(" Qm 3", " db Qx&255", " Qm")
    elif k == 4:        # macros
        for i in range(n // 2): p.add("Qm%d macro" % i, " db %d,\\1" % (i & 255), *([" Qm%d \\1+1" % (i - 1)] if i % 4 == 1 else []), " endm")
        p.org(0)
        for _ in range(12): p.add(" Qm%d %d" % (r.randrange(n // 2), r.randrange(99)))
    elif k == 5:        # a large block
        p.org(r.choice([0, 0x7FF0, 0x12340]))
        if r.random() < .7: p.add(" dummy")
        p.add("Qa ds %d" % r.choice([255, 256, 257, 4095, 4096, 32767, 32768, 40000, 65535, 65536, 70000, 100000]), "Qb db 1", " code", " db 2", " dl Qa,Qb,Qb-Qa")
    elif k == 6:        # bytes of a large block
        p.org(r.choice([0xFFF0, 0x7FF8, 0]))
        p.add(" db 1", "Qa ds %d,%d" % (r.choice([255, 256, 257, 1000, 4096]), r.randrange(256)), " db 2", " dl *,Qa")
    elif k == 7:        # lines
        p.org(0x200)
        for i in range(n * 2): p.add(r.choice(["", "; c", "; d", " db 1" if i % 20 == 0 else ""]))
        p.add(" dw *", " bogus", " db 3")
    elif k == 8:        # a deep nesting of conditionals
        p.org(0x200)
        d = r.choice([8, 16, 33, 40])
        off = r.randrange(d + 6)
        for i in range(d): p.add(" if %d" % (i != off))
        p.add(" db 1", " else", " db 2")
        for i in range(d - 1): p.add(" endc", *([" db %d" % i] if i % 3 == 0 else []), *([" else", " db %d" % (i + 100)] if i % 5 == 0 else []))
        p.add(" endc", " db 9")
    else:               # operands, records
        p.org(0xFF80)
        for i in range(12): p.add(" db " + ",".join(str(r.randrange(256)) for _ in range(r.choice([20, 40, 60]))))
        p.add(" asc '" + "".join(r.choice("abc, ;()") for _ in range(200)) + "'")
    return p.case(id, **someopts(r, .1))

# ------------------------------------------------------------------ many of the same
NEGATIVE = ["-1", "-2", "-128", "-129", "-255", "-256", "-32768", "-32769", "-65536", "-70000", "-$7FFFFFFF", "-$80000000", "-(1<<40)", "1-65536", "~0", "$FFFFFFFF<<32", "-(1<<63)"]

def many(r, id):
    """Programs in which something happens very often (about 256 or 512 times) or is very long: errors, warnings,
    included files, conditionals, calls, references, arguments, strings, file names, pages."""
    i, k = divmod(int(id.rsplit("-", 1)[1]), 17)
    p = P(r, r.choice(["6502", "6800", "Z80"]))
    p.dedent = 0
    n = r.choice([255, 256, 257, 256, 511, 512] if i % 2 else [256, 256, 512])
    opts = someopts(r, .1)
    y = lambda a, b: "".join(r.choice("yz01") for _ in range(r.randrange(a, b)))
    if k == 0:          # errors
        p.org(0x100)
        bad = [r.choice([" bogus", " db (", "9x db 1", " dw Qnone", " endm 5", " ds -1"]) for _ in range(r.randrange(1, 4))]
        m = r.choice([0, 0, 16])
        if m: p.add("Qm macro", *[r.choice(bad).replace("endm", "exitm") for _ in range(m)], " endm", *[" Qm"] * (n // m), *[" bogus"] * (n % m))
        else: p.add(*[r.choice(bad) for _ in range(n)])
        p.add(*r.choice([[], [" db 1"], ["Qa nop", " db 256"]]))
        return dict(p.case(id, **dict(opts, o=True)), stale=r.random() < .7)
    if k == 1:          # warnings
        p.org(0x100)
        p.add(*[r.choice([" db 256", " dw $12345", " ds 1,999"]) for _ in range(n)], *r.choice([[], [" bogus"], [" db 1"]]))
        opts["s"] = r.random() < .3
    elif k == 2:        # included files, one after the other
        p.files += [("a.inc", [" db 1", "Qa%d = 1" % r.randrange(9)], True), ("b.inc", r.choice([[], [" include a.inc"], ["; b", ""]]), r.random() < .5)]
        p.org(0x100)
        for i in range(r.choice([70, 90, 130])): p.add(" include " + r.choice(["a.inc", "a.inc", "b.inc", "none.inc" if i % 40 == 7 else "a.inc"]))
        p.add(" bogus" if r.random() < .3 else " db 2", "Qz db 3")
    elif k == 3:        # files, macros and conditionals in each other, as deep as they may be
        d = r.choice([8, 9, 9, 10])
        for i in range(1, d + 1):
            nxt = [" include n%d.inc" % (i + 1)] if i < d else [" db $EE"]
            if i % 3 == 2: nxt = [" if %d" % r.choice([1, 1, 1, 0])] + nxt + r.choice([[" else", " db %d" % i], []]) + [" endc"]
            p.files.append(("n%d.inc" % i, [" db %d" % i, "Qn%d = *" % i] + r.choice([[], [], [" bogus"], [" list off"], [" ilist on"], [" db 256"]]) + nxt + [" db %d" % (i + 16)] * r.randrange(2), r.random() < .5))
        p.add(" ilist " + r.choice(["on", "off"]))
        p.org(0x100)
        wrap = r.random() < .4
        if wrap: p.add("Qw macro", *r.choice([[], [" db 9"]]), " include n%d.inc" % r.choice([2, 3]), " db \\1", " endm", " mlist " + r.choice(["on", "on", "off"]))
        p.add(" Qw 1" if wrap else " include n1.inc", " db 2", " bogus", *([" include n2.inc"] if r.random() < .4 else []), " db 3")
    elif k == 4:        # long arguments
        a, b, c = y(50, 75), y(50, 135), y(1, 60)
        if r.random() < .3: b = "(" + b[:60] + "," + c + ")"
        p.add("Qm macro", r.choice([" asc '\\1'", " asc '\\2'"]), " asc '\\2'", r.choice([" asc '\\*'", " db '\\3'", ";\\*"]), " db \\#", " endm")
        p.org(0x100)
        p.add(" mlist " + r.choice(["on", "off"]), " Qm %s,%s" % (a, b), r.choice([" Qm %s,%s,%s" % (a, b, c), " Qm %s" % y(200, 236), " Qm %s , %s" % (c, a)]), " Qm " + b + "," + a)
    elif k == 5:        # long strings
        p.org(r.choice([0x100, 0xFF80]))
        for _ in range(4):
            s = string(r, r.randrange(100, 180))
            p.add((" asc " + s)[:r.choice([249, 249, 200])], " db " + ",".join(string(r, 1) for _ in range(r.randrange(20, 55))))
    elif k == 6:        # sections and large blocks
        p.org(r.choice([0, 0x101, 0xFFF1]))
        for i in range(5):
            p.add(r.choice([" dummy", " code", " dummy"]), r.choice(["* = $%X" % r.choice([0x41, 0x3000, 0x8001]), "* = * - %d" % r.choice([1, 3, 16])]) if r.random() < .5 else " nop",
                  "Qa%d ds %d" % (i, r.choice([1, 255, 256, 1000, 4097])) if r.random() < .7 else " ds %d,%d" % (r.choice([3, 255, 257]), r.choice([7, 255, 256])),
                  " align " + r.choice(["even", "odd"]), "Qb%d dl *" % i)
        p.add(" dummy", "Qc ds %d" % r.choice([32767, 32769, 40001, 65535, 65536, 65537]), "Qd db 1", " code", *[" dl Qb%d,Qd" % i for i in range(5)])
    elif k == 7:        # leaving macros from within conditionals
        d = r.choice([3, 6, 9])
        p.add("Qm macro", ".a db \\1", *[x for i in range(d) for x in [" if \\1>%d" % i, " db %d" % i] + ([" exitm"] if i == d - 1 else [])], *[x for i in range(d) for x in ([" else", " db $%X" % (0x80 + i)] + [" exitm"] * (r.random() < .4) + [" endc"])], " dw .a", " endm")
        p.add("Qo macro", ".a db $F0", " Qm \\1", " dw .a", " if \\1", " Qm \\1-1", " dw .a", " endc", ".b dw .a,.b", " endm")
        p.org(0x100)
        p.add(".a db 9", *[" %s %d" % (r.choice(["Qm", "Qo"]), r.randrange(d + 2)) for _ in range(6)], " dw .a")
    elif k == 8:        # long file names
        nm = y(60, 200)
        p.files += [(nm, [" db 1", " bogus" if r.random() < .3 else " db 2"], True), (nm[:58], [" db $EE"], True), (nm[:-1], [" db $DD"], True)]
        p.org(0x100)
        p.add(" include " + nm, " include %s ; c" % nm[:58], " include " + nm + "x", " include\t" + nm[:-1])
    elif k == 9:        # references to what is defined later
        p.org(r.choice([0, 0xF000]))
        for i in range(257): p.add(" dw Qf%d" % (i % 130) if i % 3 else "Qg%d db Qf%d&255" % (i, i % 130))
        for i in range(130): p.add("Qf%d db 1" % i if i % 2 else "Qf%d = %d" % (i, i))
    elif k == 10:       # conditionals, one after the other, and in a repeating macro
        p.add("Qm macro", " if \\1", " db \\1&255", *r.choice([[" else", " db 1", " endc"], [" endc", " db 1"]]), " endm")
        p.org(0x100)
        for i in range(n // 4): p.add(*r.choice([[" if %d" % r.randrange(2), " db 1", " else", " db 2", " endc"], [" Qm %d" % r.randrange(300)], [" if 5=%d" % i, " db 7", " endc"]]))
        p.add("Qd = 5", " db 3")
    elif k == 11:       # pages
        p.add(" page %d,%d" % (r.choice([10, 10, 11]), r.choice([39, 76, 100])))
        p.org(0x100)
        for i in range(r.choice([10, 12, 24])): p.add(" skip %d" % r.choice([90, 99, 100]), " db %d" % i, *([" page"] if i % 4 == 3 else []))
    elif k == 12:       # names of all kinds in the table, used or not
        p.org(0x10)
        for i in range(r.choice([60, 100])):
            s = "Q" + y(0, 44)
            p.add(r.choice(["%s = %d", "%s db %d", "%s = *+%d", "%s macro;%d", " dw %s,%d", "%s = 5{%d/16}"]) % (s, i))
            if "macro" in p.lines[-1]: p.add(" db 1", " endm", *([" " + s] if r.random() < .5 else []))
        opts["x"] = True
    elif k >= 14:       # anything, after line 255 or 999
        c = mixed(r, id)
        main = bytes(x for f in c["files"][:1] for l in f["lines"] for x in l + [10]).decode("latin-1").split("\n")[:-1] if isinstance(c["files"][0]["lines"][0], list) else None
        i = [j for j, l in enumerate(main) if l.startswith(" cpu")][0] + 1
        f = [r.choice([";", "", "; x", " "])] * r.choice([240, 251, 255, 505, 1000])
        f = r.choice([f, [" list off"] + f + [" list on"], [" if 0"] + f + [" endc"], [" list off"] + f])
        c["files"][0]["lines"] = [codes(l) for l in main[:i] + f + main[i:]]
        return c
    else:               # scopes within calls within calls
        p.add("Qm macro", ".a db \\1", " if \\1", " Qm \\1-1", " endc", " dw .a,.b", ".b db \\1", " endm")
        p.org(0x100)
        p.add(".a db 1", *[r.choice([" Qm %d" % r.randrange(8), " code", " dw .b" if i % 9 == 0 else " nop", ".b%d = %d" % (i, i)]) for i in range(n // 4)], ".b dw .a", " dw .b")
    return p.case(id, **opts)

# ------------------------------------------------------------------ expressions
OPS = ["+", "-", "*", "/", "|", "&", "^", "<<", ">>"]
def expr(r, depth, syms=()):
    k = r.random()
    if depth == 0 or k < .15:
        j = r.random()
        if syms and j < .3: return r.choice(syms)
        if j < .4: return string(r, 1)
        if j < .45: return "*"
        return num(r, val(r))
    sp = r.choice(["", "", " ", "  ", "\t"])
    if k < .65:
        op = r.choice(OPS)
        b = expr(r, depth - 1, syms)
        if op in ("<<", ">>") and r.random() < .8: b = str(r.randrange(0, 33))
        return expr(r, depth - 1, syms) + sp + op + sp + b
    if k < .75: return "(" + sp + expr(r, depth - 1, syms) + sp + ")"
    if k < .85: return r.choice("-~") + sp + expr(r, depth - 1, syms)
    if k < .95: return r.choice(["LO", "HI", "lo", "Hi"]) + sp + "(" + expr(r, depth - 1, syms) + ")"
    return r.choice(["BIT", "ADDR", "bit"]) + "(" + expr(r, 0, syms) + sp + "{" + str(r.randrange(0, 40)) + "}" + ")"

def mangle(r, s):
    """A small textual damage."""
    if not s: return s
    i = r.randrange(len(s))
    k = r.randrange(4)
    if k == 0: return s[:i] + s[i + 1:]
    if k == 1: return s[:i] + r.choice("()+-*/,;'\"\\{}#$% ") + s[i:]
    if k == 2: return s[:i] + s[i:i + 2] + s[i:]
    return s[:i] + r.choice("()+-'\"@?_.9Hh") + s[i + 1:]

# ------------------------------------------------------------------ statements
NOP = {"6800": "nop", "6801": "mul", "6803": "pshx", "6500": "nop", "6502": "tax", "65C02": "phx", "Z80": "ldir"}

class P:
    """A program under construction."""
    def __init__(self, r, cpu=None):
        self.r, self.lines, self.files, self.n, self.labels, self.eqs, self.macros = r, [], [], 0, [], [], []
        self.cpu, self.dedent = cpu, .08
        if cpu: self.add(" cpu " + cpu)
    def add(self, *ls):
        self.lines += ls
        return self
    def new(self, pfx="L"):
        self.n += 1
        return "%s%d" % (pfx, self.n)
    def org(self, a=None):
        a = self.r.choice(EDGES) if a is None else a
        return self.add("* = " + ("$%X" % a if self.r.random() < .8 else str(a)))
    def data(self, syms=()):
        r = self.r
        k = r.randrange(12)
        v = lambda: num(r, val(r)) if not syms or r.random() < .6 else r.choice(syms)
        lab = ""
        if r.random() < .3:
            lab = self.new(); self.labels.append(lab)
        if k < 3: s = "db " + ",".join(num(r, r.randrange(256)) for _ in range(r.choice([1, 2, 3, 8, 15, 16, 17, 20])))
        elif k < 5: s = "dw " + ",".join(v() for _ in range(r.choice([1, 2, 3, 8, 9])))
        elif k == 5: s = "dl " + ",".join(v() for _ in range(r.choice([1, 2, 4, 5])))
        elif k == 6: s = "ddb " + ",".join(v() for _ in range(r.choice([1, 2, 3])))
        elif k == 7: s = "asc " + string(r)
        elif k == 8: s = "ds " + (str(r.choice([0, 1, 2, 15, 16, 17, 33])) if r.random() < .97 else r.choice(NEGATIVE)) + (", " + num(r, r.randrange(256)) if r.random() < .6 else "")
        elif k == 9: s = "align " + r.choice(["even", "odd"])
        else: s = NOP[self.cpu] if self.cpu else "db 1"
        return lab + " " + s
    def opts(self, **kw):
        return kw
    def case(self, id, **kw):
        # instructions need no blank before them
        if self.r.random() < self.dedent:
            at = lambda l: l.lstrip() if l[:1] in (" ", "\t") and self.r.random() < .4 else l
            self.lines = [at(l) for l in self.lines]
            self.files = [(n, [at(l) for l in ls], nl) for n, ls, nl in self.files]
        return case(id, self.lines, self.files, **kw)

def someopts(r, p=.15):
    return dict(l=r.random() < p, s=r.random() < p, x=r.random() < p, o=r.random() > p / 2)

def core(r, id, n=(3, 12)):
    """Data, location counter moves, sections, includes, macros: mostly without errors."""
    p = P(r, cpu_of(r))
    def few():
        # sections and moves between data
        out = [p.data()]
        for _ in range(r.randrange(1, 4)):
            out += r.choice([[" dummy", p.data(), " code"], [" dummy"], [" code"], ["* = * %s %d" % (r.choice("+-"), r.choice([0, 1, 3, 16, 40]))], [" ds %d" % r.randrange(20)], [" dummy", " ds %d" % r.randrange(5), " code"], ["* = $%X" % r.choice([0x10, 0x1000, 0xFFFC])]]) + [p.data()]
        return out
    if r.random() < .25: p.add(" output " + r.choice(["hex", "scode"]))
    if r.random() < .4:
        m = p.new("MAC"); p.macros.append(m)
        body = [p.data().lstrip() for _ in range(r.randrange(1, 3))]
        if r.random() < .3: body.append(r.choice(["* = * + 3", "ds 1", "dummy", "code", "align odd"]))
        if r.random() < .25: body = few()
        p.add(m + " macro", *[" " + b for b in body], " endm")
    p.org()
    dummy = False
    for _ in range(r.randrange(*n)):
        k = r.random()
        if k < .55: p.add(p.data())
        elif k < .66: p.org()
        elif k < .74: p.add("* = * %s %d" % (r.choice("+-"), r.choice([0, 1, 2, 5, 16, 17, 100, 256])))
        elif k < .82:
            dummy = not dummy if r.random() < .8 else dummy
            p.add(" dummy" if dummy else " code")
        elif k < .86: p.add("%s = %s" % (p.new("E"), num(r, val(r))))
        elif k < .9 and p.macros: p.add(" " + r.choice(p.macros))
        elif k < .93 and len(p.files) < 2:
            f = "f%d.inc" % len(p.files)
            p.files.append((f, [p.data() for _ in range(r.randrange(0, 3))] if r.random() < .5 else few(), r.random() < .5))
            p.add(" include " + f)
            if r.random() < .3: p.add(p.data(), " include " + f if not any(l[:1] not in " *" for l in p.files[-1][1]) else "")
        elif k < .96:
            a, b = ([p.data()], [p.data()]) if r.random() < .6 else (few(), few())
            p.add(" if %d" % r.randrange(2), *a, " else", *b, " endc")
        else: p.add(r.choice(["; comment", "", "   "]))
    return p.case(id, last=r.random() < .7, **someopts(r))

def records(r, id):
    """Record splitting, address widths, both formats."""
    p = P(r, r.choice(["6800", "Z80", "6502"]))
    if r.random() < .4: p.add(" output " + r.choice(["hex", "scode"]))
    for _ in range(r.randrange(1, 5)):
        a = r.choice(EDGES) + r.choice([0, 0, 1, -1, -9, -16, 7])
        p.org(max(a, 0) & 0xFFFFFFFF)
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(7)
            if k < 3: p.add(" db " + ",".join(str(r.randrange(256)) for _ in range(r.choice([1, 2, 7, 14, 15, 16, 17, 31, 32, 33]))))
            elif k == 3: p.add(" ds %s,%d" % (r.choice([1, 15, 16, 17, 48, 64]) if r.random() < .97 else r.choice(NEGATIVE), r.randrange(256)))
            elif k == 4: p.add(" dl $%x,$%x" % (r.randrange(1 << 32), r.randrange(1 << 32)))
            elif k == 5: p.add("* = * + %d" % r.choice([0, 1, 16, 255]))
            else: p.add(" dummy", " db 1,2,3", " code")
    return p.case(id, **someopts(r, .1))

# ------------------------------------------------------------------ symbols
BADNAMES = ["9a", "a-b", "a$", "", "Q" + "y" * 48, ".", "_", "a b", "(a)", "*"]
def symbols(r, id, forward=True, errors=.15):
    """Definitions, redefinitions, references in every order; keywords and case."""
    cpu = cpu_of(r, ["6502", "6800", "Z80", "6801", None])
    p = P(r, cpu)
    pool = [name(r) for _ in range(r.randrange(2, 9))]
    if r.random() < .3: pool += ["Q" + "x" * r.choice([46, 47]), "Q" + "x" * 46 + "y"]
    if r.random() < .1: pool += ["Q" + "x" * 48]
    if r.random() < .9: p.org(r.choice([0, 0x80, 0xF8, 0x100, 0x1000, 0xFFFE]))
    cas = lambda s: r.choice([s, s.upper(), s.lower(), s])
    defined = set()
    for _ in range(r.randrange(3, 14)):
        k = r.random()
        s = r.choice(pool)
        if k < .25:
            if s.upper() in defined and r.random() > errors: s = r.choice([x for x in pool if x.upper() not in defined] or [s])
            defined.add(s.upper())
            p.add(cas(s) + r.choice(["", " nop" if cpu else " db 1", " db 2", " dw 1", "  ;c"]))
        elif k < .45:
            p.add("%s%s%s" % (cas(s), r.choice([" = ", "=", " equ ", " EQU\t"]),
                              r.choice([num(r, val(r)), "*", "* + 1", cas(r.choice(pool)), cas(r.choice(pool)) + "+1"])))
            defined.add(s.upper())
        elif k < .75:
            p.add(" " + r.choice(["dw ", "dl ", "db "]) + ",".join(cas(r.choice(pool)) + r.choice(["", "", "+1", "*2"]) for _ in range(r.randrange(1, 3))))
        elif k < .85 and cpu:
            op = {"6502": "lda ", "6800": "ldaa ", "6801": "ldd ", "Z80": "ld a,("}[cpu]
            p.add(" " + op + cas(s) + (")" if cpu == "Z80" else ""))
        elif k < .88 and r.random() < errors * 3:
            p.add(r.choice(["lda", "equ", "cpu", "nop", "a", "db", "hl", "x", "macro", "if"]) + r.choice([" = 5", " db 1", ""]))
        elif k < .91 and r.random() < errors * 3:
            p.add(r.choice(BADNAMES) + r.choice([" = 5", " db 1", "", " equ 3"]))
        elif k < .94 and r.random() < errors * 3:
            p.add(cas(s) + " macro", " db 1", " endm")
        else: p.add(r.choice(["* = * + 1", " db 0", " ds 2", "* = $F0"]))
    return p.case(id, **someopts(r))

def passes(r, id):
    """Forward references, sizes that depend on them, equates of addresses."""
    cpu = r.choice(["6502", "6800", "65C02", "6801"])
    p = P(r, cpu)
    p.org(r.choice([0x10, 0xF0, 0xF8, 0xFC, 0xFE, 0x100, 0x200]))
    pool = ["Qa", "Qb", "Qc", "Qd"]
    todo = pool[:r.randrange(1, 5)]
    ops = {"6502": ["lda", "sta", "inc", "jmp", "bit", "ldx"], "65C02": ["lda", "stz", "tsb", "inc"],
           "6800": ["ldaa", "staa", "inc", "ldx", "jmp"], "6801": ["ldd", "std", "clr", "jsr"]}[cpu]
    mode = lambda: r.choice(["", "", "", ",x"])
    def around(s):
        """An expression of s, small for a small s."""
        t = r.choice(["%s", "%s+1", "%s-1", "%s&$FF", "$FF&%s", "%s>>8", "%s>>1", "%s<<1", "$40>>%s", "1<<%s", "%s*2", "2*%s", "%s/2", "600/%s", "%s|1", "1|%s", "%s^3", "3^%s", "1+%s", "$80-%s",
                      "-%s", "~%s", "lo(%s)", "hi(%s)", "(%s)", "lo(%s)+1", "1+(%s)", "lo(1+%s)", "hi(-%s)", "(%s)&15", "~%s&255", "addr(%s{1})", "0*%s", "%s-%s", "5-%s+%s"])
        return t.replace("%s", s)
    for _ in range(r.randrange(3, 11)):
        k = r.random()
        s = r.choice(pool)
        if k < .4: p.add(" %s %s%s" % (r.choice(ops), around(s) if r.random() < .95 else "<" + s, mode()))
        elif k < .55 and todo: p.add(todo.pop(r.randrange(len(todo))) + r.choice(["", " db 1", " nop"]))
        elif k < .65 and todo: p.add("%s = %s" % (todo.pop(), r.choice(["$20", "*", "*-$80", "Qa", "Qb+1", "$1234", "$FF", "$100"])))
        elif k < .75: p.add("Qe = " + (r.choice(["*", "Qa", "Qb-Qa", "5", "$F0"]) if r.random() < .6 else around(r.choice(pool))))
        elif k < .85: p.add(" dw %s" % r.choice(pool + ["Qe"]))
        elif k < .92: p.add(" ds " + r.choice(NEGATIVE) if r.random() < .03 else r.choice([" ds 3", " ds 1", " db 0", " ds Qe&7", "* = * + 2", " align even", " ds Qa&3"]))
        elif k < .96: p.add(" if %s" % r.choice(["Qe", "Qa", "Qa > 5", "* > $100", "*<Qe"]), " db 7", " endc")
        else: p.add(" b%s %s" % (r.choice(["ne", "eq", "cc"]), r.choice(pool)))
    for s in todo:
        if r.random() < .9: p.add(s + r.choice(["", " db 1", " = 5", " = $1234"]))
    return p.case(id, **someopts(r, .08))

def scopes(r, id):
    """Local labels over CODE, DUMMY and (nested) macro expansions."""
    p = P(r, "6502")
    loc = [".a", ".b", ".1", ".A"]
    ref = lambda: " dw " + r.choice(loc) + r.choice(["", "+1"])
    bodyline = lambda: r.choice([r.choice(loc), r.choice(loc) + " db 1", ref(), ref(), r.choice(loc) + " = " + num(r, val(r)),
                                 " bne .a", " code", " dummy"]) if r.random() < .93 else " db \\1"
    macs = []
    for i in range(r.randrange(0, 4)):
        body = [bodyline() for _ in range(r.randrange(1, 5))]
        if macs and r.random() < .5: body.insert(r.randrange(len(body) + 1), " " + r.choice(macs) + " 3")
        if r.random() < .15: body.insert(r.randrange(len(body) + 1), " exitm")
        macs.append("M%d" % i)
        p.add("M%d macro" % i, *body, " endm")
    p.org(0x1000)
    seen = set()
    for _ in range(r.randrange(4, 14)):
        k = r.random()
        if k < .2: p.add(" " + r.choice(["code", "dummy"])); seen = set()
        elif k < .4 and macs: p.add(" " + r.choice(macs) + r.choice(["", " 5", " .a"]))
        elif k < .65:
            s = r.choice(loc)
            if s.upper() in seen and r.random() < .85: continue
            seen.add(s.upper()); p.add(s + r.choice(["", " db 2", " nop"]))
        elif k < .72: p.add(r.choice(loc) + " = " + r.choice(["1", "*", "$33"]))
        else: p.add(ref())
    return p.case(id, **someopts(r, .1))

# ------------------------------------------------------------------ expressions
def exprs(r, id, bad=.15):
    z = r.random() < .08
    p = P(r, "Z80" if z else r.choice(["6502", "6800", None]))
    p.add("Qa = 5", "Qb = $12345678", "Qc = -3", "Qd = $FE{3}", "Qr = 'a'")
    p.org(r.choice([0, 0x100, 0x8000]))
    syms = ["Qa", "Qb", "qc", "Qf", "*"] + (["Qd", "x"] if r.random() < .2 else [])
    for _ in range(r.randrange(1, 5)):
        if z: p.add(" if " + regs(r, ["b", "c", "d", "e", "h", "l", "a", "i", "r", "bc", "hl", "ix"][:r.choice([5, 12])]), " db 1", " endc")
        e = expr(r, r.choice([1, 2, 2, 3, 4]), syms)
        if r.random() < .3:     # more than 32 bits on the way
            big = lambda: r.choice([expr(r, 1, ["Qb"]), num(r, r.choice([0xFFFFFFFF, 0x80000000, 0x12345678, 0x10001, 0xFFFFFFF0, 70000])), "Qb", "Qc", "($%X*$%X)" % (r.randrange(1 << 32), r.randrange(1 << 32)), "(1<<%d)" % r.choice([31, 32, 33, 47, 62, 63])])
            w = "(%s)%s(%s)" % (big(), r.choice("+-*/|&^*"), big())
            if r.random() < .15: w = r.choice("-~") + "(" + w + ")"
            e = r.choice(["(%s)>>%d" % (w, r.choice([1, 4, 16, 31, 32, 33, 40, 48, 56, 63])), "(%s)/%d" % (w, r.choice([2, 3, 256, 65536, 4294967295, -1, -7])), w, "hi((%s)>>16)" % w])
        elif r.random() < bad: e = mangle(r, e)
        if r.random() < .06: p.add(" if %s %s %s" % (e, r.choice(CMPOPS), expr(r, 1, syms)), " db 1", " else", " db 2", " endc")
        p.add(" " + r.choice(["dl", "dl", "dl", "dw", "db"]) + " " + e)
        if r.random() < .12:    # registers and bits where values belong, and conversely
            t = lambda: expr(r, r.choice([1, 1, 2]), ["x", "a", "Qd", "Qd", "Qa", "Qf", "5{1}"])
            k = r.choice([t(), "%s(%s)" % (r.choice(["hi", "lo", "bit", "addr", "-", "~"]), r.choice(["x", "Qd", "a", "5{1}", "Qa", "x-y"])),
                          "%s%s%s" % (r.choice(["x", "Qd", "Qa", "a", "5{2}"]), r.choice(OPS + ["\\"]), r.choice(["x", "Qd", "Qa", "a", "5{2}"]))])
            p.n += 1
            p.add(*r.choice([["Qt%d = %s" % (p.n, k), " if Qt%d = %s" % (p.n, k), " db 3", " endc"], [" if %s %s %s" % (k, r.choice(["=", "=", "!=", "<"]), r.choice([k, t()])), " db 1", " else", " db 2", " endc"]]))
    p.add("Qf db 1")
    return p.case(id, o=True, l=r.random() < .3, s=r.random() < .5, x=False)

def consts(r, id):
    p = P(r, r.choice(["6502", None]))
    p.org(r.choice([0, 0x100]))
    for _ in range(r.randrange(1, 7)):
        v = r.choice([r.randrange(256), r.randrange(65536), r.randrange(1 << 32), (1 << 32) - 1, 1 << 31, (1 << 32) + r.randrange(99),
                      1 << 33, r.randrange(1 << 40), 0])
        k = r.randrange(16)
        h = "%x" % v
        h = r.choice([h, h.upper()])
        z = "0" * r.choice([0, 0, 0, 1, 5, 12])
        if k == 0: s = z + str(v)
        elif k == 1: s = "$" + z + h
        elif k == 2: s = "0" + z + h + r.choice("hH")
        elif k == 3: s = r.choice(["0x", "0X"]) + z + h
        elif k == 4: s = "%" + z + bin(v)[2:]
        elif k == 5: s = z + bin(v)[2:] + r.choice("bB")
        elif k == 6: s = r.choice(["0b", "0B"]) + z + bin(v)[2:]
        elif k == 7: s = z + "%o" % v + r.choice("qQ")
        elif k == 8: s = string(r, r.choice([0, 1, 1, 2, 3, 4, 5]))
        elif k == 9: s = r.choice(["'\\%s'" % c for c in "tnr0'\"\\"])
        elif k == 10: s = r.choice(["12a", "$", "$g", "0x", "%2", "12b", "8q", "0b", "0bq", "09h", "0xh", "h", "abh", "fh", "'", '"', "'a", "''", '""',
                                    "'a\"", "'\\x'", "'\\'", "1.5", "$$1", "%%1", "1_0", "'ab'c", "$1h", "0b1b", "1bh", "0bh", "%1b", "17qh"])
        elif k == 11: s = str(r.choice([4294967295, 4294967296, 4294967297, 42949672950, 999999999, 1000000000, 2147483648]))
        elif k == 12: s = "-" + z + str(v)
        else: s = num(r, val(r))
        p.add(" dl " + s if r.random() < .85 else "Qz = " + s)
    p.add(" dl 1")
    return p.case(id, o=True, l=False, s=r.random() < .5, x=r.random() < .2)

# ------------------------------------------------------------------ conditionals
CMPOPS = ["=", "==", "!=", "<>", "<", ">", "<=", ">="]
def condition(r):
    k = r.random()
    v = lambda: r.choice(["0", "1", "2", "-1", "Qv", "Qw", "$FFFFFFFF", "5-5", "Qv+1", "~0", "*", "$100000000/1", "(1<<32)", "(1<<32)+1", "-(1<<40)", "(1<<63)"][:11 if r.random() < .85 else 16])
    if k < .25: return v()
    if k < .4:
        b = lambda: r.choice(["Qb1", "Qb2", "Qb3", "Qb4", "5{1}", "5{2}", "(6{1})", "bit(5{1})", "x", "y", "x+y", "a", "Qrx"]) if r.random() < .85 else v()
        return b() + r.choice(["", " "]) + r.choice(CMPOPS[:4] if r.random() < .8 else CMPOPS) + r.choice(["", " "]) + b()
    if k < .5:
        h = lambda: v() if r.random() < .3 else v() + r.choice(["<<", ">>", " << ", ">> ", " <<"]) + r.choice(["0", "1", "4", "Qv", "(1)", "-1"])
        return h() if r.random() < .2 else h() + r.choice(["", " "]) + r.choice(CMPOPS) + r.choice(["", " "]) + h()
    if k < .9: return v() + r.choice(["", " "]) + r.choice(CMPOPS) + r.choice(["", " "]) + v()
    return r.choice(["1<<<2", "1<<>2", "4>>>1", "1><2", "4>>=1", "4<<=5", "'<<' = '<<'", "'<<", "1>>", "<<1", "'>>' < 1<<16", "(1<<2)>(3>>1)", "1<<2<<1 > 7", ">>>>", "<<<", "1 < < 2", "'\\'>>1", "Qfwd", "Qun", "", "x", "Qfwd = 1", "1 + ", "x = y", "Qbit", "'<' = 60", "(1 > 0)", "'a'='a'", "1 < 2 < 3"])

def regs(r, names):
    """A list of registers, and as often as not one that means the same."""
    one = lambda: r.choice(names)
    def lst(d):
        k = r.random()
        if d == 0 or k < .2: return one()
        if k < .55: return lst(d - 1) + r.choice(["\\", " \\ "]) + lst(0)
        if k < .9: return one() + r.choice(["-", " - "]) + one()
        return r.choice(["(%s)" % lst(d - 1), "(%s)-%s" % (lst(d - 1), one()), "%s-(%s)" % (one(), lst(d - 1)), "(%s)\\(%s)" % (lst(d - 1), lst(d - 1)), one() + "+" + one(), one() + "\\5", one() + "-1", "-" + one()])
    a = lst(2)
    return a + r.choice([" = ", "=", "==", "<>", " != ", " < "]) + (lst(2) if r.random() < .7 else a)

def conds(r, id, bad=.1):
    cpu = r.choice(["6502", "6502", "6502", "6502", "6502", "Z80", "6800"])
    p = P(r, cpu)
    names = {"6502": ["a", "x", "y"], "6800": ["a", "b", "x"], "Z80": ["b", "c", "d", "e", "h", "l", "a", "i", "r", "bc", "hl", "ix"][:r.choice([5, 12])]}[cpu]
    p.add("Qv = %d" % r.choice([0, 1, 5]), "Qw = %s" % r.choice(["1", "-1", "$100", "1<<32"]))
    if r.random() < .5: p.add("Qb1 = 5{1}", "Qb2 = 5{2}", "Qb3 = 6{1}", "Qb4 = %s" % r.choice(["Qb1", "addr(Qb1)", "bit(Qb1)", "5{Qv}"]), "Qrx = x")
    mac = r.random() < .5
    if mac: p.add("Qm macro", " if \\1", " db $A1", *([" exitm"] if r.random() < .4 else []), " else", " db $A2", " endc", " db $A3", " endm")
    p.org(0x100)
    def stmt(d):
        k = r.random()
        if k < .4: p.add(p.data())
        elif k < .5: p.add("Qv = %d" % r.randrange(3))
        elif k < .55: p.add(r.choice(["* = * + 1", " align even", "Qq%d" % r.randrange(3), " ds 2"]))
        elif k < .62 and mac: p.add(" Qm " + r.choice(["0", "1", "Qv", "Qv-1"]))
        elif k < .66: p.add(r.choice([" list off", " clist off", " clist on", " list on", " mlist on"]))
        elif k < .66 + bad / 2: p.add(r.choice([" lda (", " bogus", "9x db 1", " include nofile", " db", " fail", " asc 'a", "x = 3", " cpu z80", " db \"a\"b\" "]))
        elif k < .66 + bad: p.add(r.choice([" else", " endc", "lab if 1", " endc 5", " else x", " if", "lab endc"]))
        elif d > 0: block(d - 1)
        else: p.add(" db %d" % r.randrange(256))
    def block(d):
        p.add(" if " + (condition(r) if r.random() < .74 else regs(r, names) if r.random() < .25 else r.choice("01")))
        for _ in range(r.randrange(0, 3)): stmt(d)
        if r.random() < .6:
            p.add(" else")
            for _ in range(r.randrange(0, 3)): stmt(d)
        if r.random() > bad / 2: p.add(" endc")
    if r.random() < .15:
        p.add(*r.choice([[], [" clist off"], [" clist on"]]), " if %d" % r.randrange(2), "Qn macro", " db 9", " endm", " endc", " Qn")
    if r.random() < .25:        # conditions in a macro, some in parts that are skipped
        p.add("Qk macro")
        bad2, mac, bad = (bad, mac), False, .02
        block(3)
        bad, mac = bad2
        p.add(" endm")
        p.add(" Qk %s" % r.choice(["", "1", "2"]), *([" if 0", " Qk 3", " if (", " endc", " endc"] if r.random() < .3 else []))
    for _ in range(r.randrange(2, 6)): stmt(3)
    p.add("Qfwd db 1")
    return p.case(id, **someopts(r, .1))

# ------------------------------------------------------------------ macros
def macros(r, id, bad=.1):
    p = P(r, "6502")
    names = ["Qm", "Qn", "Qo"][:r.randrange(1, 4)]
    A = lambda: r.choice(["\\1", "\\2", "\\3", "\\9", "\\#", "\\1+1", "LO(\\1)", "\\1\\2"]) if r.random() < .95 else r.choice(["'\\\\1'", "'\\\\'", '"\\\\\\2"', "'\\n'", "\\", "'\\\\\\#'", "\\a", "\\\\1", "\\0"])
    def body(i):
        b = []
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < .5: b.append(" db " + A() + ("," + A() if r.random() < .3 else ""))
            elif k < .55: b.append(" db \\*")
            elif k < .6: b.append(" asc \"\\1\"")
            elif k < .66: b.append(".l dw .l")
            elif k < .72: b.append("Qg\\1 = \\2+1")
            elif k < .82: b += [" if \\# > %d" % r.randrange(3), " db 1", *([" exitm"] if r.random() < .4 else []), " else", " db 2", " endc"]
            elif k < .94 and i > 0: b.append(" " + names[r.randrange(i)] + " " + r.choice(["", "\\1", "\\*", "\\2,\\1", "7"]))
            elif r.random() < .5: b += [" if \\1+0", " " + names[i] + " \\1-1", " endc"]
            elif r.random() < bad * 3: b.append(r.choice([" bogus", "Qz macro", " endc", " else", " include f0.inc", " mlist on", " db", " exitm x", "lab endm", "lab endm x", "\\0 endm 1,2", "lab  EndM\tx", " cpu z80", " list off"]))
            else: b.append(r.choice(["; c \\1", "", " nop ; \\2", " code", "* = *+\\#", "\\3 db 5", " \\4 5"]))
        return b
    for i, n in enumerate(names):
        p.add(r.choice([n, n.lower(), n.upper()]) + r.choice([" macro", " MACRO ; c"]), *body(i),
              r.choice([" endm", " ENDM", "\tendm ; x", " endm"]) if r.random() > bad / 2 else r.choice([" endm 5", "x endm", " db 1 endm", " endmx"]))
    if r.random() < .1: p.files.append(("f0.inc", [" db $77"], True))
    if r.random() > bad / 2: p.org(r.choice([0, 0x100, 0x2000]))
    for _ in range(r.randrange(2, 7)):
        k = r.random()
        if k < .7:
            args = [r.choice(["1", "2", "$30", "Qv", "'a'", "\"x,y\"", "(1,2)", " 3 ", "", "1+1", r.choice(["A" * 61, "1" + "+1" * r.choice([29, 30, 60, 115]), "7" + " " * 58 + "+1"]) if r.random() < .15 else "4"]) for _ in range(r.choice([0, 1, 2, 3, 3, 9, 10]))]
            lab = p.new() if r.random() < .3 else ""
            p.add(lab + " " + r.choice(names) + (" " + ",".join(args) if args else "") + r.choice(["", "", " ; c"]))
        elif k < .8: p.add(p.data())
        elif k < .85: p.add("Qv = %d" % r.randrange(4))
        elif k < .9: p.add(r.choice([" mlist on", " mlist off", " clist off", " list off", " list on"]))
        elif r.random() < bad * 4: p.add(r.choice([" endm", " exitm", "Qm macro", " macro", "9q macro", "Qm = 5", " endm 3", "Qm equ 1", "Qlab Qm MACRO", "Qlab Qm macro", "Qlab Qm MACROS,2", " Qm MACRO"]))
    return p.case(id, **someopts(r, .1))

# ------------------------------------------------------------------ includes
def includes(r, id, bad=.1):
    p = P(r, "6502")
    nf = r.randrange(1, 4)
    fn = ["a.inc", "b.inc", "Sub.x"] if r.random() < .7 else r.sample(["d/a.inc", "d/B.inc", "e f.inc", "d/e/a.inc", "a", "a.inc", ".x", "d/a;1", "A.INC", "q'.inc", "n%d" % r.randrange(99), "\\1.x", "l" * 40 + ".inc"], 3)
    mk = r.random() < .4
    if mk: p.add("Qm macro", " include " + r.choice(fn[:nf] + ["\\1"]), " db $EE", " endm")
    p.org(0x200)
    for i in range(nf):
        ls = []
        for _ in range(r.randrange(0, 5)):
            k = r.random()
            if k < .5: ls.append(p.data())
            elif k < .65 and i + 1 < nf: ls.append(" include " + fn[r.randrange(i + 1, nf)])
            elif k < .7 and r.random() < bad * 2: ls.append(" include " + fn[i])
            elif k < .8: ls += [" if %d" % r.randrange(2), p.data()] + ([" endc"] if r.random() > bad else [])
            elif k < .83: ls += r.choice([[" dummy", " ds 2", " code"], ["* = * + 3"], [" dummy"], [" code"], [" align odd"]])
            elif k < .88: ls.append(r.choice([" ilist on", " list off", " ilist off", " list on", " endc" if r.random() < bad * 3 else "; c"]))
            elif r.random() < bad * 4: ls.append(r.choice([" bogus", " db", " include none", " include"]))
            else: ls.append("Qv = %d" % r.randrange(9))
        p.files.append((fn[i], ls, r.random() < .6))
    for _ in range(r.randrange(2, 7)):
        k = r.random()
        if k < .45: p.add(" include " + r.choice(fn[:nf]) + r.choice(["", " ", " ; c"]))
        elif k < .55 and mk: p.add(" Qm " + fn[0])
        elif k < .7: p.add(p.data())
        elif k < .78: p.add(r.choice([" ilist on", " ilist off", " list off", " list on", " mlist on"]))
        elif k < .86: p.add(" if %d" % r.randrange(2), " include " + r.choice(fn[:nf]), " endc")
        elif r.random() < bad * 4: p.add(r.choice([" include nofile", " include d", " include d/none", " include", "lab include a.inc", " bogus", " include " + fn[0].upper(), " include ./" + fn[0] if r.random() < 0 else " include " + fn[1][:-1]]))
        else: p.add(" db %d" % r.randrange(256))
    if r.random() < .2: p.lines.append(" include " + r.choice(fn[:nf]))
    return p.case(id, last=r.random() < .6, **someopts(r, .1))

# ------------------------------------------------------------------ instructions
import os, re
def isa():
    """The mnemonics per vocabulary part, with their classes, from spec/Isa.tla."""
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Isa.tla")).read()
    out = {}
    for part in ["6800", "6801", "6502", "65C02", "Z80"]:
        body = re.search(r"^T%s == <<(.*?)>> >>" % part, t, re.S | re.M).group(1) + ">>"
        out[part] = [(a, b, int(c)) for a, b, c in re.findall(r'<<"(\w+)", "(\w+)", (\d+)>>', body)]
    return out
ISA = isa()
PARTS = {"6800": ["6800"], "6801": ["6800", "6801"], "6803": ["6800", "6801"], "6500": ["6502"], "6502": ["6502"],
         "65C02": ["6502", "65C02"], "Z80": ["Z80"]}
def mnemonics(cpu):
    return [e for p in PARTS[cpu] for e in ISA[p] if e[1] != "reg"]

V8 = ["0", "$12", "127", "128", "255", "256", "$1234", "$FFFF", "-1", "-128", "Qz", "Qw", "Qf", "$10000"]
# one bit, and what lies beside it
BITS = [f % (1 << k) for k in range(18) for f in ("%d", "-%d")] + ["$%X" % ((1 << k) - 1) for k in range(2, 18)] + ["$%X" % ((1 << k) + 1) for k in range(2, 17)] + ["$FF80", "$FF7F", "$FF00", "-129", "1<<32", "1<<31", "$FFFFFF80", "$FFFF8000", "$FFFF7FFF"]
# what is not a number
TYPED = ["5{1}", "x", "Qu", "a", "$12{7}", "b", "hl", "x-y", "(a)", "nz"]
def v8(r): return r.choice(TYPED) if r.random() < .04 else r.choice(V8) if r.random() < .6 else r.choice(BITS)
FORMS = {
 "6800": ["", "#%s", "%s", "%s,x", ",x", "# %s", "%s , X", "%s,y", "a", "(%s)"],
 "6502": ["", "#%s", "%s", "%s,x", "%s,y", "(%s,x)", "(%s),y", "(%s)", "@%s,x", "@%s,y", "@%s", "a", "A", "( %s , X )", "%s , y",
          "(%s,y)", "(%s),x", "#a", "x", "%s,a", "a\\x", "a-a", "a-y", "x\\a"],
}
Z8 = ["a", "b", "c", "d", "e", "h", "l", "(hl)", "(ix+%s)", "(iy+%s)", "(ix-%s)", "(iy-%s)", "(ix)", "(iy)"]
Z16 = ["bc", "de", "hl", "sp", "ix", "iy", "af"]
ZX = ["(bc)", "(de)", "(sp)", "(c)", "%s", "(%s)", "i", "r", "f", "(ix", "af'", "xy", "b\\c", "a-a", "b-d", "hl\\hl", "hl-ix"]
ZCC = ["nz", "z", "nc", "c", "po", "pe", "p", "m"]
ZD = ["0", "1", "5", "127", "128", "129", "255", "-1", "Qz", "Qf"]
ZALL = Z8 + Z16 + ZX

def isa_lines(cpu):
    """Every mnemonic with every operand form (one value each): the exhaustive part."""
    fam = "6800" if cpu[:2] == "68" else "Z80" if cpu == "Z80" else "6502"
    out = []
    turn = [0]
    def next_(ls=BITS):
        turn[0] += 1
        return ls[turn[0] * 7 % len(ls)]
    for mn, kind, op in mnemonics(cpu):
        if fam != "Z80":
            forms = FORMS[fam] if kind not in ("inherent", "branch") else ["", "Qh", "#1", "a", "5{1}", "Qu", "x"]
            for f in forms:
                for v in (["$12", "$1234", "Qf", next_(), next_(), next_(TYPED)] if "%s" in f else [""]):
                    out.append(" %s %s" % (mn, f % v if "%s" in f else f))
            continue
        one = lambda o: o.replace("%s", "$12")
        if kind == "z_plain": fs = ["", "a"]
        elif kind == "branch": fs = ["Qh", "", "nz,Qh", "b", "5{1}", "Qu"]
        elif kind == "z_jr": fs = ["Qh"] + [c + ",Qh" for c in ZCC] + ["b", "c", "nz", "nz,b", "5{1}", "z,5{1}", "hl,Qh"]
        elif kind in ("z_jp", "z_call"): fs = ["Qf", "$1234", "(hl)", "(ix)", "(iy)", "hl", "(bc)", "(ix+1)"] + [c + ",$1234" for c in ZCC + ["q", "b", "5{1}"]] + ["5{1}", "b", "nz,5{1}", "z,b", "c,(hl)", "c"]
        elif kind == "z_ret": fs = [""] + ZCC + ["q", "5"]
        elif kind == "z_im": fs = ["0", "1", "2", "3", "-1", "b", "a", "5{1}", "1{1}", "Qu"]
        elif kind == "z_rst": fs = ["0", "1", "7", "8", "$10", "$38", "9", "$40", "56", "-8", "Qf", "b", "c", "hl", "1{1}", "0{0}", "Qu", "nz", "i"]
        elif kind in ("z_alu", "z_rot", "z_stack", "z_inc"): fs = ZALL + (["a," + o for o in ZALL] if kind == "z_alu" else [])
        elif kind == "z_bit": fs = ["%d,%s" % (b, o.replace("%s", "5")) for b in range(9) for o in Z8] + ["1," + o for o in ["bc", "5", "(5)", "i", "5{1}"]] + [q + "," + o for q in ["b", "c", "1{1}", "Qu", "hl"] for o in ["a", "(hl)", "(ix+1)"]]
        elif kind == "z_ex": fs = ["de,hl", "hl,de", "(sp),hl", "(sp),ix", "(sp),iy", "af,af'", "af',af", "hl,(sp)", "ix,(sp)", "de,bc", "(sp),de", "af,af", "a,b", "af,af' ; c", "af,af';", "af', af;x", "af,af'x", "af,af' x", "af,af''"]
        elif kind in ("z_in", "z_out"):
            ps = ["(c)", "($12)", "(Qf)", "(b)", "(hl)", "5", "(bc)", "(5{1})"]
            fs = ["%s,%s" % ((o, q) if kind == "z_in" else (q, o)) for q in ps for o in ["a", "b", "c", "d", "e", "h", "l", "f", "(hl)", "ix", "bc", "5"]]
        elif kind in ("z_add",): fs = ["%s,%s" % (a, b) for a in ["a", "hl", "ix", "iy", "b", "bc", "(hl)"] for b in ZALL]
        elif kind == "z_ld": fs = ["%s,%s" % (a, b) for a in ZALL for b in ZALL]
        else: raise AssertionError(kind)
        out += [" %s %s" % (mn, one(f)) for f in fs]
        out += [" %s %s" % (mn, f.replace("%s", next_(ls))) for f in fs if "%s" in f for ls in (BITS, BITS, TYPED)]
    return [l for l in out if l.split()[0] != "cpdr"]

ISAPRE = ["Qz = 5", "Qw = $2345"]
def isa_cases(cpu, per=12):
    """isa_lines in programs of a few lines each: erroneous lines would hide the others' bytes,
    so the listing shows them."""
    ls, out = isa_lines(cpu), []
    for i in range(0, len(ls), per):
        out.append(case("isa-%s-%d" % (cpu, i), [" cpu " + cpu] + ISAPRE + [" page 0,76", "* = $1000", "Qh nop"] + ls[i:i + per] + ["Qf nop"], s=True))
    return out

def isa_random(r, id, cpus):
    cpu = r.choice(cpus)
    fam = "6800" if cpu[:2] == "68" else "Z80" if cpu == "Z80" else "6502"
    ms = [e for e in mnemonics(cpu) if e[0] != "cpdr"]
    p = P(r, cpu)
    p.add(*ISAPRE)
    p.org(r.choice([0x10, 0xF0, 0x1000, 0xFFF0, 0x12340]))
    p.add("Qh " + NOP[cpu])
    kinds = sorted({e[1] for e in ms})
    for _ in range(r.randrange(2, 8)):
        if r.random() < .05:
            oth = r.choice(CPUS)
            mn, kind, _ = r.choice([e for e in mnemonics(oth) if e[0] != "cpdr"])
        else:
            k = r.choice(kinds)
            mn, kind, _ = r.choice([e for e in ms if e[1] == k])
        sp = lambda: r.choice(["", "", "", " "])
        if fam != "Z80":
            v = v8(r)
            if kind == "branch": s = r.choice(["Qh", "*", "*+2", "Qf", "*-126", "*+129"])
            elif kind == "inherent": s = "" if r.random() < .9 else r.choice(["a", "1"])
            else:
                f = r.choice(FORMS[fam])
                s = f % v if "%s" in f else f
        else:
            d, v = (r.choice(ZD) if r.random() < .8 else r.choice(BITS)), v8(r)
            o8 = lambda: r.choice(Z8).replace("%s", (r.choice(ZD) if r.random() < .8 else r.choice(BITS)))
            oa = lambda: r.choice(ZALL).replace("%s", v8(r))
            a, b = r.choice([o8, o8, oa])(), r.choice([o8, o8, oa])()
            if kind == "z_plain": s = "" if r.random() < .95 else "a"
            elif kind in ("branch", "z_jr"): s = r.choice(["", "", "nz,", "c,", "po,"]) + r.choice(["Qh", "*", "Qf", "*+129"])
            elif kind in ("z_jp", "z_call"): s = r.choice(["", "", r.choice(ZCC) + sp() + ","]) + r.choice([v, "Qf", "(hl)", "(ix)"])
            elif kind == "z_ret": s = r.choice(ZCC + [""])
            elif kind in ("z_im", "z_rst"): s = r.choice(["0", "1", "2", "8", "$20", v])
            elif kind in ("z_alu", "z_rot", "z_stack", "z_inc"): s = r.choice([a, a, a, "a," + a, r.choice(Z16)])
            elif kind == "z_bit": s = r.choice(["0", "1", "6", "7", "8", "Qz", "-1", "Qf"]) + "," + a
            elif kind == "z_in": s = r.choice("abcdehl") + "," + r.choice(["(c)", "(%s)" % v])
            elif kind == "z_out": s = r.choice(["(c)", "(%s)" % v]) + "," + r.choice("abcdehl")
            elif kind == "z_ex": s = r.choice(["de,hl", "(sp),hl", "(sp), ix", "af,af'", a + "," + b])
            elif kind == "z_add": s = r.choice(["a," + a, r.choice(["hl", "ix", "iy"]) + "," + r.choice(Z16)])
            else: s = r.choice([a + "," + b, a + "," + v, r.choice(Z16) + "," + r.choice([v, "(%s)" % v]), "(%s),%s" % (v, r.choice(Z16 + ["a"])), a + "," + oa()])
        t = mn if r.random() < .7 else r.choice([mn.upper(), mn.capitalize()])
        if r.random() < .1: s = s.upper()
        if r.random() < .03: s = mangle(r, s)
        if r.random() < .015: t += r.choice([".w", ".B", ".", ".1.x"])
        if r.random() < .06: s += r.choice([" ; c", ";", " ;'", "; it's", "\t;\"", " ; a ; b", ";'x'"])
        p.add(r.choice([" ", "\t", "  "]) + t + " " + s)
    p.add("Qf " + NOP[cpu])
    return p.case(id, s=r.random() < .5, x=False)
def isa6800(r, id): return isa_random(r, id, ["6800", "6801", "6803"])
def isa6502(r, id): return isa_random(r, id, ["6500", "6502", "65C02"])
def isaz80(r, id): return isa_random(r, id, ["Z80"])

BR = {"6800": ["bra", "bne", "bsr", "bhi"], "6801": ["brn", "bra"], "6502": ["bne", "bcc"], "65C02": ["bra", "beq"], "Z80": ["jr", "djnz", "jr nz,", "jr c,"]}
def branches(r, id):
    """Distances around the limits, backwards and forwards, at all origins."""
    cpu = r.choice(list(BR))
    p = P(r, cpu)
    p.org(r.choice([0x100, 0x7F80, 0xFF80, 0x1FFC0, 0x8000, 0, 0x7FFFFFC0, 0xFFFFFF00]))
    k = r.randrange(4)
    b = " " + r.choice(BR[cpu]) + " "
    d = r.choice([0, 1, 2, 125, 126, 127, 128, 129, 130, r.randrange(200), 254, 255, 256, 300])
    if k == 0: p.add("Qa ds %d" % d, b + "Qa")
    elif k == 1: p.add(b + "Qa", " ds %d" % d, "Qa " + NOP[cpu])
    elif k == 2: p.add(b + "* %s %d" % (r.choice("+-"), d))
    else: p.add("Qb = * + %d" % d, b + "Qb", b + "Qb - 3", b + r.choice(["65536 + Qb", "Qb - 65536", "Qb+256", "$100000000", "-1", "Qb + $10000"]))
    if r.random() < .3: p.add(b + r.choice(["", "a", "#1", "Qu"]))
    return p.case(id, **someopts(r, .05))

# ------------------------------------------------------------------ errors and warnings
BADLINES = [" bogus", " db", " db (", " lda", " lda 5,q", "9x db 1", " db 1+", " dw undefd", " asc 'a", " asc abc", " asc 'a'b", " align", " align up",
            " output", " output bin", " cpu", " cpu z81", " list", " list maybe", " mlist", " clist 1", " ilist x", " page 5,70", " page 70", " page 60,2000",
            " skip", " skip x", " nam", " nam " + "t" * 31, " fail", " fail some text", " ds", " ds -1", " ds x", " else", " endc", " endm 5", " include",
            " include none.inc", " code 1", " dummy x", "lab code", "lab if 1", "* nop", "lda = 5", "db = 1", " equ 5", " macro", "Qdup = * + (", " db 1/0",
            " lda #", " sta #5", " ror #1", " ldx 5,x", " jmp", " bne *+300", " bne", " nop 5", " inx a", "Qmac macro 5", " db 'a", " db 'abcde'", " dw x",
            " db 99999999999", " db $1G", " db 12b", " dl 4294967296", " db \\1", "a b c", "-", "=", "= 5", " db 1,,2", " db ,1", " db 1,", " org 5",
            "Q" + "z" * 48 + " = 1", " " + "x" * 60, " db 1 2", " db bit(1", "Q-1 = 5", " lda (5", " lda 5)", " exitm 1", " ldd 5", " phx"]
WARNLINES = [" db 256", " db 1000", " dw $12345", " ddb 70000", " lda #256", " lda #$1234", " ds 2,300", " db -1", " dw -1", " skip 200", " db $100,1,$200", " lda (5)+1", " db 'ab'", " lda #-1",
             " adc #'ab'", " ds 1,-1", " dw 65536,1", " db 255", " dw 65535"]
def goodline(p):
    r = p.r
    k = r.randrange(9)
    if k < 3: return p.data()
    return r.choice([" lda #5", " sta $20", " nop", "Qv = 3", " ; c", "", " list on", " ds 2", " asc 'ok'", " lda Qv,x", " bne *", p.new("K"), p.new("K") + " nop", "* = * + 1", " code", " align odd"])
def errs(r, id, bad=.45, pool=BADLINES):
    """Erroneous lines of all kinds among correct ones, everywhere a line can be."""
    p = P(r, "6502")
    b = lambda: r.choice(pool) if r.random() < bad else goodline(p)
    if r.random() < .5:
        p.add("Qm macro", *[b().lstrip() and " " + b().lstrip() for _ in range(r.randrange(1, 4))], " endm")
    hasm = len(p.lines) > 1
    if r.random() > .08: p.org(r.choice([0x10, 0x200, 0xFFF0]))
    p.add("Qv = 4")
    if r.random() < .4:
        p.files.append(("e.inc", [b() for _ in range(r.randrange(1, 4))], r.random() < .5))
    def long(): return r.choice([" db 1 ;", ";", " db ", "Q", " endm ;", " endc;", ""]) + r.choice("xy1 ") * r.choice([200, 240, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 300, 600])
    if r.random() < .15:
        base = b
        b = lambda: long() if r.random() < .2 else base()
    for _ in range(r.randrange(2, 9)):
        k = r.random()
        if k < .54: p.add(b())
        elif k < .6:
            # a macro defined, called or not, in a condition, true or not, with errors within
            n = p.new("Qd")
            body = [b() if r.random() < .8 else long() for _ in range(r.randrange(1, 4))]
            d = [n + " macro", *body, *([" endm"] if r.random() < .95 else [])]
            if r.random() < .3: d = [n + "x macro", *d, " endm"]
            if r.random() < .75: d = [" if %d" % r.randrange(2), *d, *([" " + n] if r.random() < .4 else []), *r.choice([[], [" else", b()]]), *([" endc"] if r.random() < .95 else [])]
            p.add(*d)
            if r.random() < .5: p.add(" " + n)
        elif k < .7 and hasm: p.add(" Qm 5")
        elif k < .78 and p.files: p.add(" include e.inc")
        elif k < .86: p.add(" if %d" % r.randrange(2), b(), " else", b(), " endc")
        elif k < .92: p.add(r.choice([" list off", " list on", " mlist on", " clist off", " ilist on", " dummy", " code"]))
        else: p.add(p.data())
    return p.case(id, last=r.random() < .7, **someopts(r, .2))

def warns(r, id):
    """Operands at the limits of their size, in every directive and instruction."""
    cpu = r.choice(["6502", "6800", "Z80", "6801", "65C02"])
    p = P(r, cpu)
    p.add("Qa = 255", "Qb = 256", "Qc = -1")
    p.org(r.choice([0x10, 0x1000, 0x12345]))
    lim = [0, 127, 128, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, 0x1FFFF, 0x100FF, 0xFFFFFF, 0xFFFFFF00, 0xFFFFFFFF]
    v = lambda: r.choice(["Qa", "Qb", "Qa+1", "Qc", "-1", "-128", "-129", "-256", "-65536", "'a'", "'ab'", "'abc'", "Qf", "1<<32", "1<<16", "LO(Qb)", "HI($1234)", "~0", "(5)", "(5)+(6)", "((7))"]) if r.random() < .35 else num(r, r.choice(lim))
    I = {"6502": ["lda #", "ldx #", "cpy #", "lda ", "sta ", "lda (%s),y", "lda (%s,x)", "adc %s,x", "ldx %s,y", "jmp ", "jmp (%s)", "stx %s,y", "sty %s,x"],
         "65C02": ["bit #", "lda (%s)", "jmp (%s,x)", "stz ", "tsb "],
         "6800": ["ldaa #", "ldx #", "cpx #", "ldaa ", "staa %s,x", "jmp %s,x", "jsr ", "inc ", "adda #"],
         "6801": ["ldd #", "addd #", "std ", "subd %s,x"],
         "Z80": ["ld a,", "ld (ix+%s),1", "ld a,(iy-%s)", "ld hl,", "add a,", "and ", "cp ", "in a,(%s)", "out (%s),a", "ld (%s),hl", "jp ", "bit 1,(ix+%s)", "ld b,", "sub a,b", "xor a", "rst "]}[cpu]
    for _ in range(r.randrange(2, 9)):
        k = r.random()
        if k < .5: s = r.choice(["db ", "db ", "dw ", "dw ", "ddb ", "dl "]) + ",".join(v() for _ in range(r.choice([1, 1, 2, 3])))
        elif k < .6: s = "ds %d,%s" % (r.randrange(3), v())
        elif k < .63: s = r.choice(["skip 101", "skip 100", "skip -1", "nam t", "page 0,70", "cpu " + cpu])
        else:
            t = r.choice(I)
            s = t % v() if "%s" in t else t + v()
        p.add(r.choice(["", "", "", p.new() ]) + " " + s)
        if r.random() < .05: p.add(r.choice([" list off", " dummy", " if 0", " endc", " code", " db 1\x01"]))
    p.add("Qf " + NOP[cpu])
    return p.case(id, l=r.random() < .15, s=r.random() < .12, x=False, o=True)

# ------------------------------------------------------------------ the listing
def longline(r):
    k = r.randrange(7)
    if k == 0: return " db " + ", ".join(str(r.randrange(256)) for _ in range(r.randrange(12, 40)))
    if k == 1: return " db 1 ; " + " ".join(r.choice(["word", "x", "longerword", "a" * 30]) for _ in range(r.randrange(8, 30)))
    if k == 2: return ";" + "".join(r.choice("abc  ;") for _ in range(r.randrange(40, 150)))
    if k == 4: return ";" + "".join(r.choice(["ab", "c", "\t", "\t\t", " ", ";"]) for _ in range(r.randrange(10, 50)))
    if k == 5: return " db 1" + r.choice([" ", ""]) * r.randrange(30, 120) + r.choice(["\t", "\t\t", " ", ""]) + r.choice(["; then", "", ",2"])
    return " asc '" + "y" * r.randrange(30, 120) + "'  ; tail of a comment"
def listing(r, id):
    cpu = r.choice(["6502", "6800", "Z80"])
    p = P(r, cpu)
    if r.random() < .6: p.add(" page 0,%d" % r.choice([76, 76, 60, 80, 100, 132, 62, 61]))
    if r.random() < .6:
        p.add("Qm macro", *[" " + x for x in r.choice([["db 1", "ds 2"], ["nop", "if \\1", "db \\1", "else", "db 2", "endc"], ["db 1,2,3 ; \\1", "Qn"], ["dw .l", "list off", "db 1"], ["mlist on", "db 3"], ["db 1", "exitm", "db 2"]])], " endm")
        if r.random() < .12:        # calls in calls
            d = r.randrange(3, 10)
            for i in range(d): p.add("Qk%d macro" % i, *(r.choice([[" db %d" % i], [" if %d" % (i % 2), " endc"], [" mlist off"], ["; deep"], [" bogus"]]) if r.random() < .4 else []), *([" Qk%d \\1" % (i + 1)] if i < d - 1 else [" db 9"]), *([" db 8"] if r.random() < .3 else []), " endm")
            p.add(" mlist on", "* = 5", " Qk0 3")
    if any("Qn" in l for l in p.lines): p.add("Qn macro", " db 4", ".x db 5", " endm")
    hasm = any("macro" in l for l in p.lines)
    if r.random() < .95: p.org(r.choice([0x10, 0x1000, 0x12340, 0xFFF8]))
    for i in range(r.randrange(0, 2)):
        p.files.append(("i%d" % i, [r.choice([p.data(), "; in", " list off", " list on", " ilist on", " ilist off", " bogus", " clist off", " if 0", " endc"][:7]) for _ in range(r.randrange(0, 4))], r.random() < .6))
    for _ in range(r.randrange(4, 14)):
        k = r.random()
        if k < .22: p.add(p.data())
        elif k < .27: p.add(r.choice(["Qe = 5", "Qe = $12345", "Ql nop", p.new(), p.new() + " = *", "Qz = 5{1}", "* = * + 4"]))
        elif k < .47: p.add(r.choice([" list on", " list off", " list on", " mlist on", " mlist off", " clist on", " clist off", " ilist on", " ilist off"]))
        elif k < .55 and hasm: p.add(r.choice(["", p.new()]) + " Qm %d" % r.randrange(2))
        elif k < .62 and p.files: p.add(" include i%d" % r.randrange(len(p.files)) + r.choice(["", " ; go"]))
        elif k < .72: p.add(" if %d" % r.randrange(2), *r.choice([[p.data()], [" if 1"], ["; no"], ["Qs%d macro" % len(p.lines), " db 9", "; \\1", " endm"], [" include i0"], [" Qm 1"], [" bogus (", "Qx"], [" exitm", " endm"], [" nam x", " page", " skip 3"]][:9 if r.random() < .5 else 3]), " else" , p.data(), " endc")
        elif k < .78: p.add(longline(r))
        elif k < .82: p.add(" ds %d,%d" % (r.choice([20, 21, 22, 25, 40, 5, 6, 7]), r.randrange(256)))
        elif k < .86: p.add(r.choice([" dummy", " code"]))
        elif k < .9: p.add(r.choice([" bogus", " db 300", " db (", " lda", " skip 2", " fail x", " db 1\x02"]))
        elif k < .95: p.add(r.choice(["\tdb\t1\t; tab", "; c ; d", "   ", "", " db 1;c", " asc ';'"]))
        else: p.add(r.choice([" db \"\xe9\" ; \xe9t\xe9", "; %s" % "".join(chr(r.choice([0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xa1, 0xff, 0xc0, 1, 9, 11, 0x41])) for _ in range(r.choice([2, 5, 60]))), " asc '\x80\xa0\x7f\xff'"]))
    if any(l == " if 1" for l in p.lines): p.add(" endc")
    return p.case(id, last=r.random() < .7, **someopts(r, .12))

def pages(r, id):
    p = P(r, "6502")
    n = 0
    def pg():
        return r.choice([" page %d,%d" % (r.choice([0, 0, 10, 11, 12, 15, 20, 66, 200]), r.choice([61, 62, 70, 76, 100, 123, 200])),
                         " page %d,%d" % (r.choice([9, 10, 200, 201, 5, -1]), r.choice([38, 39, 40, 50, 63, 64, 999, 1000, 130]))]) if r.random() < .9 else r.choice([" page 20", " page 20,70,3", " page x,1", " page ,70"])
    if r.random() < .8: p.add(pg() if r.random() < .5 else " page %d,%d" % (r.choice([10, 12, 15, 20]), r.choice([62, 70, 76, 130])))
    if r.random() < .6: p.add(" nam " + r.choice(["Title", "A longer title", "T" * 30, "T" * 31, "x;y"]))
    p.org(0x1000)
    if r.random() < .2: p.files.append(("p.inc", [r.choice([p.data(), " page", " nam Inc", " skip 3", longline(r)]) for _ in range(3)], True))
    for _ in range(r.randrange(5, 25)):
        k = r.random()
        if k < .4: p.add(p.data())
        elif k < .52: p.add(" page")
        elif k < .68: p.add(" skip " + r.choice(["0", "1", "2", "3", "5", "9", "20", "100", "101", "-1", "1+1"]))
        elif k < .73: p.add(" nam " + r.choice(["Second", "Z" * 29, ""]))
        elif k < .76: p.add(pg())
        elif k < .86: p.add(longline(r))
        elif k < .9: p.add(r.choice([" list off", " list on"]))
        elif k < .93 and p.files: p.add(" include p.inc", )
        elif k < .96: p.add(" bogus")
        else: p.add(" if 0", r.choice([" page", " skip 4", " page 10,70", " nam No"]), " endc")
    return p.case(id, **someopts(r, .12))

# ------------------------------------------------------------------ the symbol table
def xref(r, id):
    cpu = r.choice(["6502", "6800", "Z80", None])
    p = P(r, cpu)
    p.add(" page %d,%d" % (r.choice([0, 0, 0, 66, 20]), r.choice([76, 62, 100, 122, 123, 124, 130, 183, 184, 185, 190, 243, 244, 245, 250, 310, 999])))
    letters = "abcxyzABCXYZ_"
    pool = list(dict.fromkeys("".join(r.choice(letters) for _ in range(r.choice([1, 2, 3, 8, 20] if r.random() < .8 else [40, 45, 46, 47, 48]))) + r.choice(["", "1", ".", "_", "9"]) for _ in range(r.randrange(2, 16))))
    known = {"A", "B", "C", "X", "Y", "Z"}
    pool = [s for s in pool if s.upper() not in known]
    p.org(r.choice([0, 0x100, 0x12345]))
    up = {}
    for s in pool: up.setdefault(s.upper(), s)
    for s in up.values():
        refs = lambda: [p.add(" dw " + r.choice([s, s.upper(), s.lower()])) for _ in range(r.randrange(0, 2))]
        if r.random() < .4: refs()
        k = r.random()
        if k < .35: p.add(s + r.choice(["", " db 1", " ds 2"]))
        elif k < .6: p.add("%s %s %s" % (s, r.choice(["=", "equ"]), r.choice(["5", "-1", "$12345", "*", "1<<31", "1<<33"])))
        elif k < .65: p.add("%s = %s" % (s, r.choice(["bit(3)", "%s{%d}" % (r.choice(["5", "0", "0", "256", "$10000"]), r.choice([0, 1, 7, 9, 15, 31, 32, -1])), "$1234{7}", "(1<<33){2}", "-1{3}"])))
        elif k < .7 and cpu: p.add("%s = %s" % (s, {"6502": "x", "6800": "x", "Z80": "hl"}[cpu]))
        elif k < .78: p.add(s + " macro", " db 1", " endm")
        elif k < .83: p.add(" if 0", s + " = 1", " endc")
        elif k < .88: p.add("." + s + " db 1", " dw ." + s)
        elif k < .92: p.add(s + " = 1", s + " = 2")
        else: p.add(" dummy", s + " ds 1", " code")
        if r.random() < .5: refs()
        if r.random() < .1 and k >= .7 and k < .78: p.add(" " + s)
    if r.random() < .25: p.add(r.choice([" dw undefined1", " bogus", " dw " + (r.choice(pool) if pool else "5")]))
    return p.case(id, o=r.random() < .5, l=r.random() < .25, s=r.random() < .3, x=r.random() < .6)

# ------------------------------------------------------------------ CPU and OUTPUT
SUFFIXED = [" neg.w", " NEG.l", " ldir.", " ld.b a,5", " bit.x 0,a", " rlc.b (hl)", " nop.w", " set.1.2 1,b", " neg.w 5", " call.w 5", " neg.w.x", " Ql neg.w", " .neg", " srl.q (ix+1)", " lda.w #5", " staa.b $20",
            " db.w 5", " ds.b 3", " adc.x a,b", " otir.x", " daa.b", " reti.", " res.b 7,h", " phx.w", " ldd.w #5"]
def cpus(r, id):
    p = P(r)
    lines = {"6800": [" ldaa #5", " staa $20", " bsr *", " rti"], "6801": [" ldd #5", " abx", " pshx", " mul"], "6502": [" lda #5", " sta ($20),y", " inx", " ror a"],
             "65C02": [" phx", " bra *", " stz $20", " inc a"], "Z80": [" ld a,5", " exx", " ld (ix+1),a", " djnz *"], "x": [" nop", " inc 5", " jmp $1234", " clc", " ror 5", " cp 5", " dec b", " lda (5,x)", " bit 5"]}
    def pre():
        k = r.random()
        if k < .3: p.add(r.choice(["nop = 5", "lda = 7", "inx db 1", "a = 3", "b = 3", "hl = 1", "x = 2", "ldd macro", "ix = 4", "phx = 1", "c = 9"]))
        elif k < .5: p.add(" dw 1,$1234")
        elif k < .6: p.add(r.choice(lines[r.choice(list(lines))]))
        elif k < .75: p.add(" output " + r.choice(["hex", "scode", "HEX", "Scode", "bin", ""]))
        elif k < .85: p.add(" dl $12345678")
        else: p.add(" db 1")
        if p.lines and p.lines[-1].endswith("macro"): p.add(" db 1", " endm")
    if r.random() < .6: p.org(r.choice([0x10, 0x1000, 0x12345, 0xFFFFF0]))
    for _ in range(r.randrange(0, 3)): pre()
    cpu = r.choice(CPUS + ["6809", "z80", "65c02", "", "6502 x"])
    k = r.random()
    if k < .8: p.add(" cpu " + cpu)
    elif k < .87: p.add(" if %d" % r.randrange(2), " cpu " + cpu, " else", " cpu " + r.choice(CPUS), " endc")
    elif k < .94:
        p.files.append(("c.inc", [" cpu " + cpu], True)); p.add(" include c.inc")
    p.org(r.choice([0x10, 0x1000, 0x12345]))
    for _ in range(r.randrange(2, 8)):
        k = r.random()
        if k < .35: p.add(r.choice(lines[r.choice(list(lines))]))
        elif k < .5: p.add(r.choice([" dw $1234", " dl $12345678", " ddb $1234", " db 5"]))
        elif k < .6: p.add(r.choice([" lda nop", " db nop+1", " dw a", " dw hl", " dw x", " db c", "nop db 1", "x = 5", "b nop", "lda = 3", "hl = 5"]))
        elif k < .66:
            l, w = " cpu " + r.choice(CPUS), r.random()
            if w < .5: p.add(l)
            elif w < .7:
                n = p.new("Mc"); p.add(n + " macro", r.choice([l, l, " output " + r.choice(["hex", "scode"])]), " endm", " " + n)
                if r.random() < .3: p.add(" " + n)
            elif w < .85:
                n = "c%d.inc" % len(p.files); p.files.append((n, [r.choice([l, l, " output hex"])], True)); p.add(" include " + n)
            else: p.add(" if %d" % r.randrange(2), l, " else", " output " + r.choice(["hex", "scode"]), " endc")
        elif k < .68: p.add(r.choice(SUFFIXED), r.choice(["neg.w nop", "neg.w = 5", "neg macro", " db 1"]) if r.random() < .2 else " db 2")
        elif k < .74: p.add(" output " + r.choice(["hex", "scode", "HEX ; c", "none"]))
        elif k < .8: p.org()
        else: p.add(r.choice(lines[cpu if cpu in lines else "x"]))
    return p.case(id, o=True, l=False, s=r.random() < .2, x=r.random() < .3)

# ------------------------------------------------------------------ garbage
def garbage(r, id):
    """Texts of no particular meaning, nesting, long lines and unbalanced blocks."""
    p = P(r, r.choice(CPUS + [None]))
    words = ["if", "else", "endc", "macro", "endm", "exitm", "db", "dw", "ds 3", "asc", "include", "cpu", "org", "page", "nam", "skip", "list", "code", "dummy", "equ", "fail", "align",
             "*", "=", "(", ")", "'", '"', "\\", "\\1", "\\*", "\\#", ",", ";", "#", "$", "%", "@", "{", "}", "<<", ">>", "-", "~", "+", "lo(", "bit(", "hi", "5", "$FF", "Qa", ".b", "x", "a", "hl", "(ix+",
             "nop", "lda", "ld", "mlist on", "on", "off", "\t", "  ", "0", "1", "'a'", "e.inc", "e.inc", "\x7f", "\x01", "\xe9", "?", "_", "!", "&", "|", "^", "/", ":"]
    def junk():
        k = r.random()
        if k < .6: return r.choice(["", " ", " ", "Qa ", ".b "]) + r.choice(["", " "]).join(r.choice(words) for _ in range(r.randrange(1, 7)))
        if k < .75: return " " + r.choice(words[:22]) + " " + "".join(r.choice(words) for _ in range(r.randrange(0, 5)))
        if k < .85: return "".join(chr(r.choice([r.randrange(1, 10), r.randrange(11, 13), r.randrange(14, 256), r.randrange(32, 127), r.randrange(32, 127)])) for _ in range(r.randrange(0, 30)))
        if k < .9: return r.choice(["(" * r.randrange(1, 100), "-" * r.randrange(1, 150) + "1", " db " + "(" * 40 + "1" + ")" * 40, " db " + "lo(" * 30 + "1" + ")" * 30, "a" * r.randrange(40, 260), " db " + "1+" * 90 + "1", " asc '" + "z" * 240 + "'",
                                    " fail " + "f" * 200, " " + "y" * 249, " db '" + "q" * r.randrange(230, 260), " include " + "p" * 200, ";" + "c" * r.randrange(240, 256), " nam " + "n" * 100, "\\" * r.randrange(1, 120)])
        return r.choice([" Qrec 1", " Qrec 0", " Qn 1,2", " include e.inc", " if 1", " if 0", "Qz macro", " endm", " endc", " else", " exitm"])
    k = r.random()
    if k < .25: p.add("Qrec macro", " db 1", " if \\1", " Qrec \\1-1", " endc", " endm")
    elif k < .35: p.add("Qrec macro", r.choice([" Qrec", " include e.inc"]), " endm")
    elif k < .45: p.add("Qrec macro", *[junk() for _ in range(r.randrange(0, 4))], " endm")
    if r.random() < .6: p.org(0x100)
    if r.random() < .3: p.files.append(("e.inc", r.choice([[" include e.inc"], [" Qrec 1"], [junk(), junk()], [" if 1"], [" endm"], [], ["Qz macro"]]), r.random() < .5))
    for _ in range(r.randrange(1, 8)): p.add(junk())
    if r.random() < .2: p.add(" Qrec %d" % r.choice([0, 1, 2, 3, 7, 8, 9, 12]))
    return p.case(id, last=r.random() < .5, **someopts(r, .2))

# ------------------------------------------------------------------ variants of a program
LISTDIR = [" list off", " list on", " mlist on", " mlist off", " clist on", " clist off", " ilist on", " ilist off", " page", " page 0,70",
           " page 20,100", " page 10,62", " nam Title", " nam other title ; c", " skip 1", " skip 5", " skip 101", " list off", " clist off", " LIST OFF"]
def texts(f):
    return ["".join(map(chr, l)) for l in f["lines"]]
def options(r, id):
    """A program, and the same with other options, and with listing directives where it has comments."""
    t = r.choice([core, conds, macros, includes, errs, scopes, symbols, passes, warns, core, macros, errs, mixed, mixed, mixed])
    while True:
        b = t(r, "x")
        main = texts(b["files"][0])
        last = main[-1] == ""
        if last: main.pop()
        if len(main) < 60: break
    spots = sorted(r.sample(range(len(main) + 1), min(len(main) + 1, r.choice([1, 2, 3, 5, 8]))))
    inc = [(f, sorted(r.sample(range(len(f["lines"])), min(len(f["lines"]), r.choice([0, 0, 1]))))) for f in b["files"][1:]]
    def put(ls, at, what):
        out = []
        for i in range(len(ls) + 1):
            if i in at: out.append(what())
            if i < len(ls): out.append(ls[i])
        return out
    def variant(k):
        what = (lambda: "; plain") if k == 0 else (lambda: r.choice(LISTDIR))
        fs = [("".join(map(chr, f["name"])), put(texts(f), at, what), False) for f, at in inc]
        o = dict(o=True) if k == 0 else dict(o=True, l=r.random() < .4, s=r.random() < .4, x=r.random() < .4)
        return dict(case("%s.%d" % (id, k), put(main, spots, what), fs, last=last, **o), map=[])
    return [variant(k) for k in range(r.choice([3, 4]))]

class Lex:
    """Statements as tokens, written out in many ways."""
    STR = ["'a;b'", "\"x,y\"", "'('", "\")\"", "'\\''", "';'", "\"a'b\"", "'(,'", "' '", "'aBc'", "\"Qz; \"", "'a\"b'", "'\"'", "\"'\"", "'\\\"'", "\"\\\"\"", "\"\\\\\"", "'\"\";'", "'\\\\'", "'\\';'", "\"\\\";\"", "'=', '", "\"a\\tB\""]
    def __init__(self, r):
        self.r = r
        self.lines = []         # (label, word, operand tokens) or a str
        self.n = 0
    def operand(self, syms):
        r = self.r
        def atom(d):
            k = r.random()
            if k < .3: return [num(r, val(r))]
            if k < .5 and syms: return [r.choice(syms)]
            if k < .6: return [r.choice(["'a'", "'B'", "';'", "'('", "','", "' '", "\"'\"", "'\\n'", "'ab'", "'\"'", "'\\''", "\"\\\"\"", "'\\\\'", "'\";'", "\"';\"", "')'", "'='", "'+'", "\"_\"", "'?'"])]
            if k < .7 and d: return ["(", *ex(d - 1), ")"]
            if k < .76 and d: return [r.choice(["LO", "hi", "Addr"]), "(", *ex(d - 1), ")"]
            if k < .82 and d: return [r.choice("-~"), *atom(d - 1)]
            return [str(r.randrange(10))]
        def ex(d):
            out = atom(d)
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                out += [r.choice(["+", "-", "*", "|", "&", "^", "<<", ">>"])] + atom(d)
            return out
        return ex(2)
    def generate(self):
        r = self.r
        L = self.lines
        cpu = r.choice(["6502", "6800", "Z80"])
        L.append(("", "cpu", [cpu]))
        if r.random() < .4:
            L.append(("Qmac", "macro", []))
            L += [("", "db", ["\\1", ",", "1"]), ("", "if", ["\\2", ">", "1"]), ("", "dw", ["\\2"]), ("", "endc", [])][:r.choice([1, 4])]
            L.append(("", "endm", []))
        hasm = len(L) > 1
        L.append(("*", "=", [r.choice(["$100", "$FFF8", "$12345"])]))
        syms = ["Qab", "qCD", "Qe_1"]
        good = r.random() < .8
        depth = 0
        for _ in range(r.randrange(3, 10)):
            k = r.random()
            lab = ""
            if r.random() < .25:
                self.n += 1; lab = "Lb%d" % self.n; syms.append(lab)
            if k < .35:
                ops = self.operand(syms)
                for _ in range(r.choice([0, 0, 1, 2])): ops += [","] + self.operand(syms)
                L.append((lab, r.choice(["db", "dw", "dl", "ddb"]), ops))
            elif k < .45: L.append((lab, "asc", [r.choice(self.STR)]))
            elif k < .52: L.append((r.choice(syms[:3]), r.choice(["=", "equ"]), self.operand(syms)))
            elif k < .6: L.append(("", "if", self.operand([] if good else syms) + r.choice([[], ["=", "5"], ["<=", "$100"], ["!=", "0"], ["<>", "1"], [">", "2"]]))); depth += 1
            elif k < .66 and depth: L.append(("", r.choice(["else", "endc"]), [])); depth -= L[-1][1] == "endc"
            elif k < .73 and hasm: L.append((lab, "Qmac", [*self.operand(syms[:3]), ",", str(r.randrange(4))]))
            elif k < .78: L.append((lab, "ds", [str(r.randrange(5)), ",", "7"]))
            elif k < .9:
                x = r.choice({"6502": [("lda", ["#", *self.operand(syms)]), ("sta", [*self.operand(syms), ",", "x"]), ("lda", ["(", "$20", ")", ",", "y"]), ("nop", []), ("asl", ["a"]), ("jmp", ["(", "$1234", ")"])],
                              "6800": [("ldaa", ["#", *self.operand(syms)]), ("staa", ["5", ",", "x"]), ("ldx", self.operand(syms)), ("nop", []), ("bra", ["*"])],
                              "Z80": [("ld", ["a", ",", "(", "ix", "+", "5", ")"]), ("ld", ["hl", ",", *self.operand(syms)]), ("nop", []), ("add", ["a", ",", "b"]), ("ex", ["af", ",", "af'"]), ("jr", ["nz", ",", "*"]), ("push", ["hl"])]}[cpu])
                L.append((lab, *x))
            elif k < .94: L.append((lab, *(r.choice([("align", ["odd"]), ("code", []), ("dummy", []), ("code", [])]) if good else (r.choice(["bogus", "align", "db", "code"]), r.choice([[], ["odd"], ["(", "1"]])))))
            else: L.append((lab, "", []))
        while L[-1][:2] == ("", ""): L.pop()
        if good:
            L += [("", "endc", [])] * depth + [(s, "=", [str(r.randrange(256))]) for s in syms[:3] if not any(x[0] == s for x in L)]
        return self
    def write(self, style):
        """style 0: one way; others: blanks, case, comments and blank lines at random."""
        r = self.r
        out, mp = [], []
        cr, dirt = r.random() < .08, r.choice([0, 0, 0, .1])
        sp = lambda: r.choice([" ", "  ", "\t", " \t ", "\t\t"]) if style else " "
        def tok(t, recase=True):
            if not style or not recase or t[:1] in "'\"": return t
            k = r.random()
            return t.upper() if k < .3 else t.lower() if k < .6 else "".join(r.choice([c.upper(), c.lower()]) for c in t) if k < .7 else t
        gap = lambda: r.choice(["", "", "", " ", "  ", "\t"]) if style else ""
        for i, x in enumerate(self.lines):
            while style and r.random() < .12:
                out.append(r.choice(["", "   ", "; comment", "\t; it's (a comment", ";;"])); mp.append(0)
            lab, w, ops = x
            s = tok(lab)
            if w == "=": s += gap() + "=" + gap()
            elif w: s += ("" if style and not lab and w != "bogus" and r.random() < .08 else sp()) + tok(w) + (sp() if ops else "")
            for j, t in enumerate(ops):
                s += tok(t, w != "nam")
                if j + 1 < len(ops):
                    # blanks around commas, operators and parentheses
                    glue = t in ("-", "~", "#") or ops[j + 1] == "#"
                    s += "" if glue else gap()
            if style:
                s += r.choice(["", "", " ", "\t", " ;c", ";c", " ; don't (stop", "\t;\"", " ; a, b = c"])
            if style and cr: s += "\r"
            elif style and r.random() < dirt:
                j = r.randrange(len(s) + 1); s = s[:j] + r.choice("\x01\x02\x0b\x0c\r\x1b\x1f\x7f") + s[j:]
            out.append(s); mp.append(i + 1)
        return out, mp
def lexical(r, id):
    """A program in several spellings."""
    lx = Lex(r).generate()
    g = []
    for k in range(r.choice([3, 4])):
        ls, mp = lx.write(k)
        last = k == 0 or r.random() < .5
        g.append(dict(case("%s.%d" % (id, k), ls, last=last), map=mp + [len(lx.lines) + j for j in range(1, 41)]))
    return g

def options1(r, id):
    return dict(options(r, id)[-1], id=id)

# ------------------------------------------------------------------ data directives
def datas(r, id):
    """Every data directive with operands of all kinds, mostly without errors."""
    cpu = r.choice(CPUS + [None, None])
    p = P(r, cpu)
    p.add("Qa = 300", "Qb = -2")
    p.org(r.choice([0, 0x1001, 0xFFFE, 0x12345]))
    bad = r.random() < .25
    if r.random() < .2: p.add(" align " + r.choice(["even", "odd", "EVEN", "Odd"]))
    v = lambda: r.choice([num(r, r.choice([0, 1, 127, 128, 255, 256, 257, 0x1234, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x12345678, 0xFFFFFFFF])), "Qa", "Qb", "-1", "Qf", "'a'", "'ab'", "'abc'", "*", "*+1", "(1+2)*3", "~5", "';'", "','", "'\\n'", "lo(Qa)", "hi(Qa)"])
    for _ in range(r.randrange(2, 7)):
        k = r.random()
        lab = p.new() if r.random() < .2 else ""
        if k < .6:
            n = r.choice([1, 1, 2, 3, 4, 5, 8, 16, 17, 30])
            ops = [v() for _ in range(n)]
            if bad and r.random() < .4: ops[r.randrange(n)] = r.choice(["", "x,", "'a", "(1", "undefd", "5 5", "\"q", "bit(1)", "#1", "1/0", "$", "99999999999"])
            p.add(lab + " " + r.choice(["db", "dw", "dl", "ddb", "DB", "Dw"]) + " " + r.choice([",", ",", ", ", " ,"]).join(ops))
        elif k < .85:
            s = string(r, r.choice([0, 1, 2, 5, 15, 16, 17, 40]))
            if bad and r.random() < .5: s = mangle(r, s)
            elif r.random() < .15: s = r.choice(["'\\''", '"\\""', "'\"'", '"\'"', "'\\\\'", "'\\0'", "'\\r\\n\\t'", "';'", "'a;b' ; c", "'\xe9\xff'", "'\\q'", "'\\'", "'a''b'", "'a' 'b'", "''", '""'])
            p.add(lab + " asc " + s)
        elif k < .92: p.add(lab + " ds %d,%s" % (r.choice([0, 1, 2, 16, 33]), v()))
        else: p.add(lab + " align " + r.choice(["even", "odd"]))
    p.add("Qf db 1")
    return p.case(id, s=r.random() < .3)

# ------------------------------------------------------------------ damaged programs
def mutants(r, id):
    """A program of another theme with lines removed, repeated, exchanged and damaged."""
    t = r.choice([core, records, symbols, passes, scopes, conds, macros, includes, isa6800, isa6502, isaz80, errs, warns, listing, pages, xref, cpus, garbage, datas, mixed, mixed])
    b = t(r, id)
    for f in b["files"]:
        ls = f["lines"]
        for _ in range(r.choice([1, 1, 2, 3, 6]) if f is b["files"][0] else r.randrange(2)):
            if not ls: break
            i, k = r.randrange(len(ls)), r.randrange(8)
            if k == 0: del ls[i]
            elif k == 1: ls.insert(i, list(ls[r.randrange(len(ls))]))
            elif k == 2:
                j = r.randrange(len(ls)); ls[i], ls[j] = ls[j], ls[i]
            elif k == 3: ls[i] = ls[i] + ls[r.randrange(len(ls))]
            elif k == 4: ls[i] = ls[i][1:] if ls[i][:1] == [32] else [32] + ls[i]
            else: ls[i] = [x & 255 or 32 for x in codes(mangle(r, "".join(map(chr, ls[i]))))]
        f["lines"] = [[x for x in l if x not in (0, 10)] for l in ls]
    while len(b["files"][0]["lines"]) > 90: b["files"][0]["lines"].pop()
    return b

# ------------------------------------------------------------------ everything at once
INSN = {"6502": ["lda #5", "sta $20", "ror a", "jmp *", "bne *", "lda ($20),y"], "6500": ["lda #5", "asl a", "beq *+2"], "65C02": ["phx", "bra *", "stz 5", "inc a", "lda ($20)"],
        "6800": ["ldaa #5", "staa 5,x", "bsr *", "jmp *", "clr ,x"], "6801": ["ldd #$1234", "mul", "std 5", "brn *"], "6803": ["abx", "subd #5", "jsr 5"],
        "Z80": ["ld a,5", "ld (ix+1),a", "jr *", "djnz *", "ld hl,(5)", "set 1,(iy-2)", "jp nz,*"]}
def mixed(r, id):
    """All features in one program: macros calling macros, conditions and includes within them and around
    them, sections, origins, listing switches, local labels, errors and warnings, in any combination."""
    p = P(r)
    cpu = r.choice(CPUS)
    bad, sw = r.choice([0, 0, .06, .15]), r.choice([0, .05, .15, .3])
    if r.random() < .5: p.add(" page 0,%d" % r.choice([76, 76, 100, 132, 63]))
    for x in (" mlist on", " clist off", " ilist on", " list off"):
        if r.random() < (.4 if x == " mlist on" else .2) * (sw > 0): p.add(x)
    p.add(" cpu " + cpu)
    macs, incs, syms = [], [], ["Qv", "Qfwd"]
    seq = [0]
    def uniq(pfx="L"):
        seq[0] += 1
        return "%s%d" % (pfx, seq[0])
    def datum(ctx):
        A = lambda: r.choice(["\\1", "\\2", "\\#", "\\1+\\2", "3"]) if ctx == "m" and r.random() < .6 else r.choice([str(r.randrange(256)), "Qv", "LO(*)", "'a'", "Qv+1"])
        k = r.randrange(10)
        if k < 4: return "db " + ",".join(A() for _ in range(r.choice([1, 1, 2, 3, 7, 16, 17])))
        if k == 4: return "dw " + r.choice(["*", "Qfwd", "Qv*2", "$1234", ".l" if r.random() < .2 else "7"])
        if k == 5: return "ds %d,%d" % (r.choice([0, 1, 2, 3, 19, 20, 21, 22, 23, 40]), r.randrange(256))
        if k == 6: return r.choice(["dl *", "ddb $1234", "asc 'a;b\\n'", "align even", "align odd"])
        return r.choice(INSN[cpu])
    def lab(ctx):
        if r.random() > .35: return ""
        if ctx == "m": return r.choice([".l", ".m", "Qg\\1", "Qk\\#"])
        if ctx == "i": return r.choice([".i", ".j"])
        s = uniq() if r.random() < .7 else ".t%d" % r.randrange(3)
        if s[0] != ".": syms.append(s)
        return s
    def cond(ctx):
        return r.choice(["0", "1", "1", "Qv", "Qv=1", "Qv<2", "Qv>=1", "*>$1004", "*!=*"] + (["\\#", "\\#>1", "\\1=\\2", "\\1+0", "\\#=0"] if ctx == "m" else []) + (["Qfwd", "undef1", "1+"] if r.random() < bad else []))
    def stmt(ctx, depth):
        k = r.random()
        if r.random() < bad:
            return [r.choice([" bogus", " db", " db (", "9x db 1", " dw undefd", " ds -1", " endm 5", " include none", " else", " endc", " db 300", " db 1,256", " fail stop", "lab code", " skip x", " db 1\x01", " nop 5",
                              "Qm0 macro", "* nop", "db = 1", " db 1\x02,2", " exitm 1", "L1", "Qv db 1", " bne" if cpu != "Z80" else " jr 5000", " db \"a", " dw 65536", " cpu z80", " page 1,1"])]
        if r.random() < sw:
            return [r.choice([" list on", " list off", " list on", " mlist on", " mlist off", " clist on", " clist off", " ilist on", " ilist off"])]
        if k < .34: return [lab(ctx) + " " + datum(ctx) + r.choice(["", "", "", " ; note", "\t; it's"])]
        if k < .38: return [r.choice([".l", uniq(), uniq() + " nop", uniq() + ":"[:0]]) if ctx == "" else "Qg\\1" if ctx == "m" and r.random() < .3 else " nop"]
        if k < .46: return [r.choice(["* = * + %d" % r.choice([0, 1, 3, 16, 100]), "* = $%X" % r.choice([0x10, 0x1000, 0x1010, 0xFFF8, 0x11000, 0x12340]), "*=*-1"])]
        if k < .52: return [r.choice([" dummy", " code", " code"])]
        if k < .58: return ["Qv = %s" % r.choice(["0", "1", "2", "Qv+1", "* - *", "\\#" if ctx == "m" else "3"])]
        if k < .62: return [r.choice(["", "; text", "   ", "\t", "; x ; y"]), ][:1]
        if k < .74 and depth > 0:
            b = [" if " + cond(ctx)] + block(ctx, depth - 1, r.randrange(0, 4))
            if r.random() < .5: b += [" else"] + block(ctx, depth - 1, r.randrange(0, 4))
            return b + [r.choice([" endc", " endc ; x", "\tENDC"])]
        if k < .88 and macs:
            m = r.choice(macs)
            args = [r.choice(["0", "1", "2", "5", "Qv", "*", "\\1" if ctx == "m" else "7", "\\2" if ctx == "m" else "(1,2)", "", "'x'"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 9]))]
            return [(lab(ctx) if r.random() < .4 else "") + " " + r.choice([m, m.lower()]) + (" " + ",".join(args) if args else "") + r.choice(["", "", " ; call"])]
        if k < .94 and incs: return [" include " + r.choice(incs)]
        if k < .97 and ctx == "m": return [" exitm"]
        return [longline(r) if r.random() < .3 else " " + r.choice(INSN[cpu])]
    def block(ctx, depth, n):
        out = []
        for _ in range(n): out += stmt(ctx, depth)
        return out
    nm, ni = r.randrange(0, 4), r.randrange(0, 3)
    for i in range(ni):
        f = "f%d.inc" % i
        p.files.append((f, block("i", 1, r.randrange(0, 5)), r.random() < .6))
        incs.append(f)
    early = r.random() < .3
    if early: p.add("* = $1000")
    p.add("Qv = %d" % r.randrange(3))
    for i in range(nm):
        b = block("m", 2, r.randrange(1, 6))
        if r.random() < .25: b += [r.choice([" exitm", " if \\#", " bogus" if r.random() < bad else " nop"])]
        if b[-1] == " if \\#": b += [" exitm", " endc", " db 9"]
        p.add("Qm%d" % i + r.choice([" macro", "\tMACRO ; m"]), *b, r.choice([" endm", " endm ; e"]))
        macs.append("Qm%d" % i)
        if r.random() < .3: incs2 = incs
    if not early and r.random() > bad: p.add("* = $%X" % r.choice([0x10, 0x1000, 0xFFF8]))
    p.add(*block("", 3, r.randrange(3, 10)))
    if r.random() < .9: p.add("Qfwd nop" if r.random() < .8 else "Qfwd = $1234")
    return p.case(id, last=r.random() < .7, **someopts(r, .1))

# ------------------------------------------------------------------ near the limits of crasm's tables
def limits(r, id):
    """Long lines, arguments, names and pages; deep nesting; many arguments."""
    p = P(r, r.choice(["6502", "6800", "Z80"]))
    if r.random() < .5: p.add(" page %s,%d" % (r.choice([0, 0, 10, 200, 201, 9]), r.choice([38, 39, 40, 61, 200, 254, 255, 256, 300, 998, 999, 1000, 1001, 1500, 4000, 10000, 65535, -1])))
    p.org(r.choice([0, 0x100, 0xFFF0, 0x12340]))
    long = lambda lo, hi: "".join(r.choice("abcdef ,'(") if r.random() < .1 else "y" for _ in range(r.randrange(lo, hi)))
    plain = lambda lo, hi: "y" * r.randrange(lo, hi)
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(14)
        q = "Q%s" % r.choice("abc")
        if k == 0:          # expansions about as long as a line may be
            n = r.choice([1, 60, 120])
            p.add(q + "m macro", " asc '\\1" + plain(1, 240 - n) + "'", " db 1 ; \\1 \\1 \\1", " endm")
            p.add(" %sm %s" % (q, plain(max(1, n - 3), n + 4)), r.choice([" db 7", " %sm 2" % q]))
        elif k == 1:
            a = r.randrange(230, 250)
            p.add("Qt macro", r.choice([" db 1;\\1", ";\\1x", " db '\\1'", ";\\*\\*", ";\\#\\1\\#\\1"]), r.choice([" db 2", ";" + plain(230, 248) + "\\1"]), " endm", " Qt " + plain(a - 10, a))
        elif k == 2:        # arguments
            n = r.choice([8, 9, 10, 11, 20])
            p.add("Qn macro", " db \\#,\\9,\\1", " asc '\\*'", " endm", " Qn " + ",".join(r.choice(["1", "22", "(3,4)"]) for _ in range(n)))
        elif k == 3:        # names
            n = r.choice([30, 32, 46, 47, 48, 48, 49, 50, 60, 200])
            s = "Q" + "".join(r.choice("ab_.") for _ in range(n - 2))
            if r.random() < .4 and not any(l == " code" for l in p.lines):      # the scope's number takes several digits
                s = "." + s[1:]
                p.add(*[" code"] * r.choice([8, 9, 10, 98, 99, 100, 120]))
            p.add(s + "z = 1", r.choice([s + "w = 2", s + "z = 3", s.lower() + "w db 1"]), " db %s%s" % (s, r.choice(["z", "w", "zz", ""])))
            if r.random() < .4: p.add(s + "m macro", " db 5", " endm", " " + s + r.choice(["m", "mm", "m."]))
        elif k == 4: p.add(";" + "\t" * r.randrange(1, 250), " db 1\t" + "\t" * r.randrange(1, 240) + ";c")
        elif k == 5: p.add(r.choice([";", " db 1;", " "]) + plain(236, 251)[:r.randrange(238, 256)])
        elif k == 6: p.add(" nam " + plain(25, 70), " page")
        elif k == 7:        # nesting
            d = r.randrange(6, 12)
            if not any(l.startswith("Qd macro") for l in p.lines):
                p.add("Qd macro", " db \\1", " if \\1", r.choice([" Qd \\1-1", " include d.inc"]) if r.random() < .7 else " Qd \\1-1", " endc", " endm")
                if not p.files: p.files.append(("d.inc", ["Qi set 1", " db 3"] if r.random() < .7 else [" Qd 1"], r.random() < .5))
            p.add(" Qd %d" % d)
        elif k == 8:
            d = r.randrange(20, 120)
            p.add(" dw " + r.choice(["(", "-", "~", "lo(", "2*("]) * d + "1" + ")" * r.choice([d, d, d - 1, 0]))
        elif k == 9: p.add(" db " + "1," * r.randrange(60, 122) + "1", " dw " + ",".join(["$1234"] * r.randrange(20, 40)))
        elif k == 10: p.add(" include " + plain(30, 240), " fail " + plain(100, 240), q + " = '" + plain(1, 10) + "'")
        elif k == 11: p.add(*[" if 1"] * (n := r.randrange(10, 40)), " db 1", *[" endc"] * r.choice([n, n, n + 1, n - 1]))
        elif k == 12: p.add("Ql macro", *[";" + plain(240, 252)] * r.randrange(1, 3), " db '" + plain(230, 244) + "'", " endm", " Ql")
        else: p.add(" ds %d,1" % r.choice([1, 23, 24, 25, 26, 255, 300]), " skip %d" % r.choice([0, 99, 100, 101, 1000]), " db \"" + long(1, 200) + "\"")
    return p.case(id, last=r.random() < .7, **someopts(r, .2))

# ------------------------------------------------------------------ values at which an instruction changes
VALUE_FORMS = {
 "6800": ["#%s", "%s", "%s,x"],
 "6502": ["#%s", "%s", "%s,x", "%s,y", "(%s,x)", "(%s),y", "(%s)", "@%s", "@%s,x"],
 "Z80": ["ld a,%s", "ld (hl),%s", "ld (ix+%s),5", "ld b,(iy-%s)", "ld (ix+%s),%s", "ld bc,%s", "ld ix,%s", "ld (%s),a", "ld hl,(%s)", "ld (%s),de", "add a,%s", "cp %s", "sub (ix+%s)", "inc (iy+%s)", "rl (ix+%s)",
         "bit 3,(ix+%s)", "set 7,(iy-%s)", "bit %s,a", "in a,(%s)", "out (%s),a", "rst %s", "im %s", "jp %s", "call nz,%s", "push ix"],
}
def value_cases(cpu, per=20):
    """Instructions of each kind with values around every power of two, with warnings on the listing."""
    fam = "6800" if cpu[:2] == "68" else "Z80" if cpu == "Z80" else "6502"
    vals = BITS + V8
    ls = []
    if fam == "Z80": ls = [" " + f.replace("%s", v) for f in VALUE_FORMS[fam] if "%s" in f for v in vals]
    else:
        seen = set()
        for mn, kind, _ in mnemonics(cpu):
            if kind in ("inherent", "branch") or (kind, fam == "6502" and mn in ("stx", "bit", "jmp", "ldy")) in seen: continue
            seen.add((kind, fam == "6502" and mn in ("stx", "bit", "jmp", "ldy")))
            ls += [" %s %s" % (mn, f % v) for f in VALUE_FORMS[fam] for v in vals]
    return [case("val-%s-%d" % (cpu, i), [" cpu " + cpu] + ISAPRE + [" page 0,76", "* = $1000", "Qh nop"] + ls[i:i + per] + ["Qf nop"]) for i in range(0, len(ls), per)]

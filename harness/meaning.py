"""Programs by construction.  A random program is built as a tree whose meaning - bytes at
addresses - follows from the documentation alone, by a few rules below that share
nothing with the specification.  It is written out twice: as a source text that uses symbols, expressions,
local names, conditionals, macros, include files, sections and blocks; and flat, as nothing but
origins and DB lines.  The specification has to give both the same image (module Pairs)."""
import gen

M64 = 1 << 64
def wrap(v):
    v %= M64
    return v - M64 if v >> 63 else v
LEVEL = {"+": 1, "-": 1, "*": 2, "/": 2, "|": 3, "&": 3, "^": 3, "<<": 4, ">>": 4}
def div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: div(a, b) if b else a,
       "|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
FN = {"HI": lambda a: a >> 8 & 255, "LO": lambda a: a & 255, "-": lambda a: -a, "~": lambda a: ~a}
CMP = {"=": lambda a, b: a == b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b,
       ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}

class Known(Exception): pass        # the value of a symbol defined later was needed: the program is dropped

class Meaning:
    """Bytes at addresses of a program tree: two walks, the first for the addresses of labels."""
    def __init__(self, prog, macros, files, lohi):
        self.prog, self.macros, self.files, self.lohi = prog, macros, files, lohi
        self.names, self.fwd = {}, set()
        self.walk(1); self.walk(2)
    def walk(self, n):
        self.n, self.pc, self.code, self.out, self.scope, self.scopes, self.seen = n, 0, True, [], 0, 0, set()
        self.eq, self.eqfwd = {}, set()
        self.do(self.prog, None, None)
    # expressions
    def val(self, e, args, need=False):
        k = e[0]
        if k == "n": return e[1]
        if k == "*": return self.pc
        if k == "arg": return self.val(args[e[1]], None, need)
        if k == "narg": return len(args)
        if k == "bin": return wrap(OPS[e[1]](self.val(e[2], args, need), self.val(e[3], args, need)))
        if k == "un": return wrap(FN[e[1]](self.val(e[2], args, need)))
        key = (self.scope, e[1]) if k == "loc" else e[1].upper()
        if key in self.eq: return self.eq[key]
        self.fwd.add(key)
        if need or self.n == 2 and key not in self.names: raise Known(key)
        return self.names.get(key, 0)
    def forward(self, e, args):
        """Does it refer to a label that some reference precedes, or to what was set to one?"""
        k = e[0]
        if k == "arg": return self.forward(args[e[1]], None)
        if k == "bin": return self.forward(e[2], args) or self.forward(e[3], args)
        if k == "un": return self.forward(e[2], args)
        if k not in ("sym", "loc"): return False
        key = (self.scope, e[1]) if k == "loc" else e[1].upper()
        return key in self.fwd or key in self.eqfwd
    def put(self, bs):
        for b in bs:
            if self.code: self.out.append((self.pc & 0xFFFFFFFF, b & 255))
            self.pc += 1
    def define(self, key):
        if key in self.seen: raise Known(key)
        self.seen.add(key); self.eq[key] = self.names[key] = self.pc
    # statements; False: the macro is left
    def do(self, ss, args, depth):
        for s in ss:
            k = s[0]
            if k == "label": self.define((self.scope, s[1]) if s[1][0] == "." else s[1].upper())
            elif k == "equ":
                v = self.val(s[2], args, True)
                key = (self.scope, s[1]) if s[1][0] == "." else s[1].upper()
                self.eq[key] = v
                (self.eqfwd.add if self.forward(s[2], args) else self.eqfwd.discard)(key)
            elif k == "org": self.pc = self.val(s[1], args, True) & 0xFFFFFFFF
            elif k in ("db", "dw", "dl", "ddb"):
                n = {"db": 1, "dl": 4}.get(k, 2)
                start = self.pc
                for e in s[1]:
                    here, self.pc = self.pc, start      # the star is the address of the statement
                    v = self.val(e, args)
                    self.pc = here
                    b = [(v >> 8 * i) & 255 for i in range(n)]
                    self.put(b if self.lohi != (k == "ddb") else b[::-1])
            elif k == "asc": self.put(s[1])
            elif k == "ds":
                v = self.val(s[1], args, True)
                self.put([self.val(s[2], args) if s[2] else 0] * v)
            elif k == "align":
                if (self.pc & 1) != s[1]: self.put([0])
            elif k in ("code", "dummy"):
                self.code = k == "code"
                self.scopes += 1; self.scope = self.scopes
            elif k == "if":
                a = self.val(s[2], args, True)
                t = CMP[s[1]](a, self.val(s[3], args, True)) if s[1] else a != 0
                if self.do(s[4] if t else s[5], args, depth) is False: return False
            elif k == "exitm": return False
            elif k == "call":
                old = self.scope
                self.scopes += 1; self.scope = self.scopes
                # arguments are texts: they mean something only where they stand, here names of the whole program
                self.do(self.macros[s[1]], s[2], (depth or 0) + 1)
                self.scope = old
            elif k == "include":
                if self.do(self.files[s[1]], args, depth) is False: return False
            elif k == "insn": self.insn(s, args)
            else: assert k == "text"
        return True
    def word(self, v): return [v & 255, v >> 8 & 255] if self.lohi else [v >> 8 & 255, v & 255]
    def insn(self, s, args):
        _, kind, op, e, _ = s
        if kind == "none": self.put(op); return
        v, fwd = self.val(e, args), self.forward(e, args)
        if kind == "imm": self.put(op + [v])
        elif kind == "wide": self.put(op + self.word(v))
        elif kind == "zp":          # short form when the value is known and fits
            self.put([op[1]] + self.word(v) if fwd or v & 0xFF00 else [op[0], v])
        elif kind == "rel":
            d = v - self.pc - 2
            if self.n == 2 and not -128 <= d <= 127: raise Known("branch")
            self.put(op + [d])

# what a processor's instructions give: (how the operand is written, opcodes)
INSN = {
 "6502": [("none", [0xEA], "nop"), ("imm", [0xA9], "lda #%s"), ("imm", [0xA2], "ldx #%s"), ("zp", [0xA5, 0xAD], "lda %s"), ("zp", [0x85, 0x8D], "sta %s"), ("zp", [0xF6, 0xFE], "inc %s,x"),
          ("wide", [0x4C], "jmp %s"), ("wide", [0x20], "jsr %s"), ("rel", [0xD0], "bne %s"), ("wide", [0xB9], "lda %s,y"), ("none", [0x0A], "asl a"), ("zp", [0x66, 0x6E], "ror %s")],
 "6800": [("none", [0x01], "nop"), ("imm", [0x86], "ldaa #%s"), ("wide", [0xCE], "ldx #%s"), ("zp", [0x96, 0xB6], "ldaa %s"), ("zp", [0xD7, 0xF7], "stab %s"), ("wide", [0x7C], "inc %s"),
          ("wide", [0x7E], "jmp %s"), ("wide", [0xBD], "jsr %s"), ("rel", [0x26], "bne %s"), ("rel", [0x8D], "bsr %s"), ("none", [0x08], "inx"), ("zp", [0x9C, 0xBC], "cpx %s")],
 "Z80": [("none", [0x00], "nop"), ("imm", [0x3E], "ld a,%s"), ("wide", [0x21], "ld hl,%s"), ("wide", [0x3A], "ld a,(%s)"), ("wide", [0xED, 0x43], "ld (%s),bc"), ("wide", [0xDD, 0x21], "ld ix,%s"),
         ("wide", [0xC3], "jp %s"), ("wide", [0xCD], "call %s"), ("rel", [0x10], "djnz %s"), ("rel", [0x20], "jr nz,%s"), ("none", [0xED, 0xB0], "ldir"), ("imm", [0xFE], "cp %s"), ("wide", [0xDA], "jp c,%s")],
}
INSN["6801"], INSN["65C02"], INSN["6803"], INSN["6500"] = INSN["6800"] + [("none", [0x3D], "mul"), ("wide", [0xCC], "ldd #%s")], INSN["6502"] + [("rel", [0x80], "bra %s"), ("none", [0xDA], "phx")], INSN["6800"], [x for x in INSN["6502"] if "ror" not in x[2]]

class Writer:
    """The tree as a source text, and how the words are spelled."""
    def __init__(self, r): self.r, self.longest = r, 0
    def cas(self, s): return s if self.r.random() < .6 else s.upper() if self.r.random() < .5 else "".join(c.upper() if self.r.random() < .5 else c for c in s)
    def sp(self): return self.r.choice(["", "", "", " ", "\t"])
    def ex(self, e, lev=0, right=False):
        k = e[0]
        if k == "n": return gen.num(self.r, e[1]) if e[1] >= 0 else "(-%d)" % -e[1]
        if k == "*": return "*" if not right and lev < 2 else "(*)"
        if k == "arg": return "\\%d" % (e[1] + 1)
        if k == "narg": return "\\#"
        if k in ("sym", "loc"): return self.cas(e[1]) if self.r.random() < .3 else e[1]
        if k == "un":
            if e[1] in ("HI", "LO"): return "%s(%s%s%s)" % (self.cas(e[1]), self.sp(), self.ex(e[2]), self.sp())
            s = e[1] + self.sp() + self.ex(e[2], 9)
            return "(%s)" % s if right or lev > 4 else s
        l = LEVEL[e[1]]
        # a level's operators group in an order of crasm's own: parentheses, but for sums and repetitions
        def side(x, is_right):
            t = x[0] == "bin" and LEVEL[x[1]] == l and not (x is e[2] and (l == 1 or x[1] == e[1]))
            s = self.ex(x, 9 if t else l, is_right)
            return s
        paren = lev > l or lev == 9
        s = side(e[2], right and not paren) + self.sp() + e[1] + self.sp() + side(e[3], True)
        return "(" + self.sp() + s + self.sp() + ")" if paren else s
    def arg(self, e):
        """An argument of a macro, to stand in any expression."""
        if e[0] == "*": return "(*)"
        return self.ex(e, 9) if e[0] in ("bin", "un") and e[1] not in ("HI", "LO") else self.ex(e)
    def lines(self, ss):
        r, out, lab = self.r, [], ""
        def st(word, oper=""):
            nonlocal lab
            out.append(lab + r.choice([" ", " ", "\t", "  "]) + self.cas(word) + (r.choice([" ", " ", "\t"]) + oper if oper else "") + (r.choice([" ; c", ";x", " ;'"]) if r.random() < .1 else ""))
            lab = ""
        for s in ss:
            k = s[0]
            if lab and k not in ("db", "dw", "dl", "ddb", "asc", "ds", "insn") or lab and r.random() < .3: out.append(lab); lab = ""
            if k == "label": lab = s[1]
            elif k == "equ": out.append(s[1] + r.choice([" = ", "=", " equ "]) + self.ex(s[2]))
            elif k == "org": out.append("* = " + self.ex(s[1]))
            elif k in ("db", "dw", "dl", "ddb"): st(k, r.choice([",", ",", " , "]).join(self.ex(e) for e in s[1]))
            elif k == "asc": st(k, s[2])
            elif k == "ds": st(k, self.ex(s[1]) + (r.choice([",", ", "]) + self.ex(s[2]) if s[2] else ""))
            elif k == "align": st(k, self.cas(["even", "odd"][s[1]]))
            elif k == "if":
                st("if", self.ex(s[2]) + (self.sp() + s[1] + self.sp() + self.ex(s[3]) if s[1] else ""))
                out += self.lines(s[4])
                if s[5] or r.random() < .2:
                    st("else"); out += self.lines(s[5])
                st("endc")
            elif k == "call":
                a = [self.arg(e) for e in s[2]]
                self.longest = max([self.longest] + [len(x) for x in a])
                st(s[1], r.choice([",", ",", " , "]).join(a))
            elif k == "include": out.append(" include " + s[1])
            elif k == "insn":
                w = s[4].split(" ", 1)
                x = self.ex(s[3]) if s[3] else ""
                if s[3] and (x[0] == "(" or x[0] == "\\"): x = "0+" + x       # a parenthesis would ask for another mode
                st(w[0], w[1] % x if len(w) > 1 and "%s" in w[1] else w[1] if len(w) > 1 else "")
            elif k == "text": out.append(s[1])
            else: st(k)
        if lab: out.append(lab)
        return out

class Builder:
    def __init__(self, r, focus):
        self.r, self.focus = r, focus
        self.cpu = r.choice(["6502", "6800", "Z80", "6801", "65C02", "6803", "6500"])
        self.n, self.syms, self.eqs, self.macros, self.files, self.later = 0, [], [], {}, {}, []
        self.depth = 0
    def w(self, **kw):
        """A kind of statement; the focus is three times as frequent."""
        ks = list(kw)
        return self.r.choices(ks, [kw[k] * (3 if k in self.focus else 1) for k in ks])[0]
    def number(self, small=False):
        r = self.r
        return ("n", r.choice([r.randrange(8), r.randrange(256)]) if small else gen.val(r))
    def expr(self, d, syms=(), nargs=0, small=False):
        r = self.r
        if d == 0 or r.random() < .3:
            k = r.random()
            if nargs and k < .35: return ("arg", r.randrange(nargs))
            if nargs and k < .4: return ("narg",)
            if syms and k < .75: return (lambda s: ("loc" if s[0] == "." else "sym", s))(r.choice(syms))
            return self.number(small)
        if r.random() < .08: return r.choice([("*",), ("bin", r.choice("+-"), ("*",), self.expr(0, syms, nargs, small))])
        k = r.random()
        if k < .7:
            op = r.choice(list(OPS))
            b = ("n", r.randrange(0, 20)) if op in ("<<", ">>") else self.expr(d - 1, syms, nargs, small)
            return ("bin", op, self.expr(d - 1, syms, nargs, small), b)
        return ("un", r.choice(["HI", "LO", "-", "~"]), self.expr(d - 1, syms, nargs, small))
    def deep(self): return self.r.choice([0, 0, 0, 1, 1, 2, 3] if "expr" in self.focus else [0, 0, 0, 1])
    def name(self, pfx="Q"):
        self.n += 1
        return pfx + self.r.choice(["", "_", ".", "x"]) + "%d" % self.n
    def block(self, n, nargs, inmac, locs, inif=False, infile=False):
        """n statements; locs: the local names of the scope so far, and those promised."""
        r, out = self.r, []
        promised = []
        for _ in range(n):
            syms = (self.syms if not inmac else self.gl) + self.eqs + locs
            fw = syms + (self.later if not inmac else []) + promised
            k = self.w(data=5, insn=3, label=2, local=2, equ=2, org=.6, ds=1, align=.7, section=.6 if not inmac and not inif else 0, cond=2, call=2, include=1, exitm=.5 if inmac and inif else 0, asc=1, noise=.5)
            if k == "data":
                kind = r.choice(["db", "dw", "dl", "ddb"])
                out.append((kind, [self.expr(self.deep(), fw, nargs, kind == "db") for _ in range(r.choice([1, 1, 2, 3, 9]))]))
            elif k == "insn":
                kind, op, txt = r.choice(INSN[self.cpu])
                e = self.expr(0 if kind in ("rel", "zp") else self.deep(), fw if kind != "rel" or r.random() < .5 else [x for x in fw if x not in self.eqs] or ["*"], nargs)
                if kind == "rel" and e[0] not in ("sym", "loc", "arg"): e = ("bin", r.choice("+-"), ("*",), ("n", r.randrange(100)))
                if kind == "none": e = None
                out.append(("insn", kind, op, e, txt))
            elif k == "label" and not inmac and not inif:
                s = self.later.pop(0) if self.later and r.random() < .5 else self.name()
                out.append(("label", s)); self.syms.append(s)
                if r.random() < .5: self.later.append(self.name())
            elif k == "local" and not inif:
                if promised and r.random() < .6: s = promised.pop()
                else: s = self.name("." + r.choice("ab")) if r.random() < .4 else r.choice([".a", ".b", ".loop", ".x"])
                if s in locs: continue
                if r.random() < .3 and s not in promised:
                    promised.append(s); continue
                out.append(("label", s)); locs.append(s)
            elif k == "equ" and not inmac:
                s = r.choice(self.eqs) if self.eqs and r.random() < .4 else self.name("E")
                out.append(("equ", s, self.expr(self.deep(), self.eqs + (self.syms if r.random() < .3 else []))))
                if s not in self.eqs and not inif: self.eqs.append(s)
            elif k == "org": out.append(("org", ("n", r.choice(gen.EDGES[:19])) if r.random() < .3 and not inmac else ("bin", "+", ("*",), ("n", r.randrange(1, 40)))))
            elif k == "ds": out.append(("ds", ("n", r.choice([0, 1, 2, 3, 15, 16, 17, 33])) if not self.eqs or r.random() < .7 else ("un", "LO", ("sym", r.choice(self.eqs))), r.choice([None, self.number(True)])))
            elif k == "align": out.append(("align", r.randrange(2)))
            elif k == "section":
                if promised: continue
                out.append((r.choice(["code", "code", "dummy"]),)); locs.clear()
                if out[-1][0] == "dummy" and r.random() < .7:
                    out += self.block(r.randrange(1, 4), 0, False, locs)[0]
                    out.append(("code",)); locs.clear()
            elif k == "cond" and self.depth < 4:
                self.depth += 1
                a, b = self.expr(r.choice([0, 0, 1]), self.eqs, nargs, True), self.number(True)
                if r.random() < .3: b = a
                out.append(("if", r.choice([""] + list(CMP)), a, b, *[self.block(r.randrange(0, 4), nargs, inmac, list(locs), True)[0] for _ in range(2)]))
                self.depth -= 1
            elif k == "call" and self.depth < 4:
                if self.macros and r.random() < .8:
                    m = r.choice(list(self.macros))
                    if inmac and list(self.macros).index(m) >= self.order: continue
                    out.append(("call", m, [self.expr(r.choice([0, 0, 1]), [s for s in self.syms + self.eqs if not inmac], 0, True) for _ in range(self.macros[m][1] + r.choice([0, 0, 0, 1]))]))
            elif k == "include" and self.depth < 3 and not infile and not inmac:
                self.depth += 1
                f = "f%d.inc" % len(self.files)
                self.files[f] = None
                self.files[f] = self.block(r.randrange(0, 5), 0, False, locs, inif)[0]
                out.append(("include", f))
                self.depth -= 1
            elif k == "exitm": out.append(("exitm",)); break
            elif k == "asc":
                q = r.choice("'\"")
                s = gen.string(r, r.randrange(1, 12), q)
                if inmac and "\\" in s: continue
                b, i, body = [], 0, s[1:-1]
                while i < len(body):
                    if body[i] == "\\":
                        i += 1
                        b.append({"n": 10, "t": 9, "r": 13, "0": 0}.get(body[i], ord(body[i])))
                    else: b.append(ord(body[i]))
                    i += 1
                out.append(("asc", b, s))
            elif k == "noise": out.append(("text", r.choice(["", "; c", " list off", " list on", " mlist on", " clist off", "\t", " skip 1", " page"])))
        for s in promised:
            if s not in locs: out.append(("label", s)); locs.append(s)
        return out, locs
    def program(self):
        r = self.r
        self.gl = []
        head = []
        for i in range(r.choice([0, 1, 1, 2, 3]) + ("call" in self.focus)):
            nargs = r.choice([0, 1, 2, 3])
            self.order = i
            body = [s for s in self.block(r.randrange(1, 6), nargs, True, [])[0]]
            self.macros["M%s%d" % (r.choice(["", "ac", "_."]), i)] = (body, nargs)
        self.later = [self.name() for _ in range(r.choice([0, 1, 3]))]
        prog = [("org", ("n", r.choice([0, 0x10, 0xF0, 0x100, 0x1000, 0x7FF0, 0xFF00, 0xFFF0, 0x12340])))]
        prog += self.block(r.randrange(4, 14), 0, False, [])[0]
        for s in self.later: prog += [("label", s), ("db", [("n", 1)])]
        return prog

def flat(m, cpu):
    """Origins and DB lines."""
    out, at = [" cpu " + cpu], None
    run = []
    for a, b in m.out:
        if at != a or len(run) >= 30:
            if run: out.append(" db " + ",".join(map(str, run)))
            if at != a: out.append("* = %d" % a)
            run = []
        run.append(b); at = (a + 1)
    if run: out.append(" db " + ",".join(map(str, run)))
    return out

def program(r, id, focus=()):
    """A group for module Pairs: the program, and the program flat."""
    while True:
        b = Builder(r, focus)
        prog = b.program()
        try: m = Meaning(prog, {k: v[0] for k, v in b.macros.items()}, b.files, b.cpu[:2] != "68")
        except (Known, IndexError, OverflowError): continue
        if len(m.out) > 1500: continue
        w = Writer(r)
        head = [" cpu " + b.cpu] + ([" output " + r.choice(["hex", "scode"])] if r.random() < .3 else [])
        for k, (body, _) in b.macros.items():
            head += [k + r.choice([" macro", "\tMACRO"])] + w.lines(body) + [r.choice([" endm", "\tENDM", " endm ; m"])]
        main = head + w.lines(prog)
        files = [(f, w.lines(ss), r.random() < .6) for f, ss in b.files.items()]
        # a line of at most 240 characters, its arguments in place
        if any(len(l) + l.count("\\") * w.longest > 240 for ls in [main] + [x[1] for x in files] for l in ls): continue
        return [dict(gen.case(id + ".0", main, files, last=r.random() < .7, **dict(gen.someopts(r, .1), o=True)), map=[], what="image"),
                dict(gen.case(id + ".1", flat(m, b.cpu)), map=[], what="image")]

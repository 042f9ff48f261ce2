"""What of a run a property is about.  A run of the specification and a run of
the implementation give observations of one shape; a property compares some
projections of them."""
import re
from impl import rows as listing_rows, OLD

def of_spec(r):
    """r: a result reported by TLC."""
    return dict(crash=None, fatal=r["fatal"] != "", rows=r["rows"],
                obj=[OLD[:-1]] if r.get("kept") else [bytes(l) for l in r["recs"]] if r["recs"] else None)

def of_impl(o):
    """o: what impl.run returned."""
    crash, fatal = None, False
    if o["rc"] == 10 and any(l.startswith(b"FATAL ERROR: ") for l in o["out"].split(b"\n")): fatal = True
    elif o["rc"] == "timeout": crash = "did not end in time"
    elif o["rc"] != 0: crash = "exit status %s" % o["rc"]
    obj = None
    if o["obj"] is not None:
        obj = o["obj"].split(b"\n")
        if obj[-1] == b"": obj.pop()
        elif len(o["obj"]): obj[-1] += b" (no newline)"
    return dict(crash=crash, fatal=fatal, rows=listing_rows(o["out"]), obj=obj)

SUM = list(b"ERRORS:")
def split(o):
    """The listing, the summary, the symbol table."""
    rows = o["rows"]
    i = next((k for k, x in enumerate(rows) if x[:7] == SUM), len(rows))
    body, rest = rows[:i], rows[i:]
    k = n = 0
    size = 5 if any(bytes(x).startswith(b"Successful") for x in rest if x and x[0] >= 0) else 3
    while k < len(rest) and n < size:
        if rest[k]: n += 1
        k += 1
    return body, rest[:k], rest[k:]

HEADER = list(b"Crasm V:")
def header(x): return x[:8] == HEADER
def message(x): return bool(x) and x[0] < 0
def plain(rows): return [x for x in rows if x and not header(x)]

def errs(o): return [x[1] for x in o["rows"] if message(x) and x[0] == -1]
def warns(o): return [x[1] for x in o["rows"] if message(x) and x[0] == -2]
def messages(o): return [x for x in o["rows"] if message(x)]

def load(obj):
    """The bytes of an object file at their addresses, in order; an error text if it is no object file."""
    if obj is None: return None
    im, hi, end = [], 0, 0
    try:
        for l in obj:
            s = l.decode("ascii")
            if s.startswith("S"):
                n = {"1": 2, "2": 3, "3": 4}.get(s[1])
                if n is None:
                    if s[1] in "789": continue
                    return "bad record " + s
                b = bytes.fromhex(s[2:])
                a = int.from_bytes(b[1:1 + n], "big"); d = b[1 + n:b[0]]
            elif s.startswith(":"):
                b = bytes.fromhex(s[1:])
                if b[3] == 4: hi = int.from_bytes(b[4:6], "big"); continue
                if b[3] == 1: continue
                if b[3] != 0: return "bad record " + s
                a = (hi << 16) + int.from_bytes(b[1:3], "big"); d = b[4:4 + b[0]]
            else: return "bad record " + s
            for i, x in enumerate(d): im.append((a + i & 0xFFFFFFFF, x))
    except (ValueError, IndexError, UnicodeDecodeError):
        return "bad record " + repr(l)
    return im
def image(o): return load(o["obj"])
def kinds(o):
    """The formats of the records in the object file."""
    return sorted({l[:1] for l in o["obj"]}) if o["obj"] else []
def obj(o): return o["obj"]
def hasobj(o): return "the old one" if o["obj"] == [OLD[:-1]] else o["obj"] is not None
def last(o): return o["obj"][-1] if o["obj"] else None

def codecols(o):
    """Addresses, values and bytes in the listing."""
    return [bytes(x[:21]) for x in plain(split(o)[0]) if not message(x) and any(ch != 32 for ch in x[:21])]
def codecols_if_errors(o): return codecols(o) if errs(o) else None
def listing(o): return plain(split(o)[0])
def paged(o): return split(o)[0]
def nospace(x): return bytes(ch for ch in x if ch != 32)
def summary(o): return [nospace(x) for x in plain(split(o)[1])]
def totals(o): return summary(o)[:2]
def errtotal(o): return summary(o)[:1]
def codelen(o): return summary(o)[4:5]
def symtab(o): return [bytes(x).rstrip() for x in plain(split(o)[2]) if not message(x)]
def widths(o): return [len(x) for x in o["rows"] if not message(x)]

def differs(s, i, projs):
    """The first projection in which the observations s of the specification and i
    of the implementation differ: (name, wanted, got); None if none does."""
    if i["crash"]: return ("end", "fatal error" if s["fatal"] else "exit status 0", i["crash"])
    if s["fatal"] != i["fatal"]: return ("end", "fatal error" if s["fatal"] else "exit status 0", "fatal error" if i["fatal"] else "exit status 0")
    if s["fatal"]: return None
    for p in projs:
        a, b = p(s), p(i)
        if a != b: return (p.__name__, a, b)
    return None

"""The library used by most session checks, and the reference model of a session."""
import os
import vlib
from vlib import Step, msg

SECRET = b"model Secret \"a library file worth protecting\"\n  Real x(start=%d);\nequation\n  der(x) = -x;\nend Secret;\n"

def std_library(gen, name="lib"):
    """A small encrypted library with a root package, a nested package, a directory without package, a plain file."""
    enc = vlib.build_encoder(gen)
    plain = vlib.sdir(name + "_plain"); lib = vlib.sdir(name)
    mo = {"package.mo": b"package Lib \"top secret root\"\nend Lib;\n", "x.mo": SECRET % 1, "A/package.mo": b"within Lib;\npackage A \"subpackage secret\"\nend A;\n",
          "A/y.mo": SECRET % 2, "D/z.mo": SECRET % 3}
    vlib.write_tree(plain, mo)
    r = vlib.encrypt_tree(enc, plain, lib, ["package.mo", "A/package.mo", "x.mo", "A/y.mo", "D/z.mo"])
    if r.returncode: raise vlib.BuildError("encrypting the standard library failed: %s" % r.stderr.decode(errors="replace")[-3000:])
    other = {"plain.txt": b"plain text, not protected by encryption 0123456789\n", "A/img.png": bytes(range(256)), "empty.txt": b""}
    vlib.write_tree(lib, other)
    content = {k + "c": v for k, v in mo.items()}; content.update(other)
    return lib, content

class Model:
    """Protocol model. step(word, ...) returns a predicate-like expectation and the next state.
    Expectations: ('ERR', code or None) | ('ERRANY',) | ('REP', word, number, data-or-None) | ('NOTERR',)"""
    def __init__(self, content, trusted=True): self.content = content; self.trusted = trusted
    def step(self, st, word, num=None, data=None, ln=1, la=1, lic_ok=False):
        E1 = ("ERR", 1)
        if word == "VERSION":
            if st != "V": return E1, st
            return (("ERR", 2), "V") if num < 1 else (("REP", "VERSION", 1, None), "T")
        if word == "TOOLS": return (("NOTERR",), "L") if st == "T" else (E1, st)
        if word == "LIB": return (("REP", "YES", None, None), "R") if st in "TL" else (E1, st)
        if word not in ("FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE", "FILE"): return E1, st
        if st != "R": return E1, st
        if word in ("LICENSE", "RETURNLICENSE"): return ("REP", "NOTSIMPLE", None, None), st
        if word in ("FEATURE", "RETURNFEATURE"):
            if not ln and not lic_ok: return ("ERR", 7), st
            if la: return ("REP", "YES", None, None), st
            return (("REP", "NO", None, None) if word == "FEATURE" else ("ERR", 7)), st
        if not self.trusted: return ("ERRANY",), st
        rel = data.decode("latin1")
        if rel in self.content: return ("REP", "FILECONT", None, self.content[rel]), st
        return ("ERRANY",), st

def match(exp, rep):
    """None if the single reply rep matches the expectation, else a description."""
    w, n, d = rep
    if exp[0] == "ERR":
        if w != "ERROR" or n != exp[1]: return "expected ERROR %s, got %s %s %r" % (exp[1], w, n, (d or b"")[:80])
    elif exp[0] == "ERRANY":
        if w != "ERROR": return "expected ERROR, got %s %s %r" % (w, n, (d or b"")[:80])
    elif exp[0] == "NOTERR":
        if w == "ERROR": return "expected a positive reply, got ERROR %s %r" % (n, (d or b"")[:80])
    elif exp[0] == "ANY": pass
    else:
        if w != exp[1]: return "expected %s, got %s %s %r" % (exp[1], w, n, (d or b"")[:80])
        if exp[2] is not None and n != exp[2]: return "expected %s %s, got %s %s" % (exp[1], exp[2], w, n)
        if exp[3] is not None and d != exp[3]: return "%s carries %d bytes %r..., expected %d bytes %r..." % (w, len(d), d[:40], len(exp[3]), exp[3][:40])
    return None

def one_reply(raw):
    """(reply, problem)"""
    try: r = vlib.parse_replies(raw)
    except ValueError as e: return None, "malformed reply: %s" % e
    if len(r) != 1: return None, "%d replies instead of one: %r" % (len(r), raw[:120])
    return r[0], None

def describe(steps, path): return [repr(steps[i]) for i in path]

def replay_data(steps, path, **kw):
    d = {"session": [steps[i].dump() for i in path]}; d.update(kw); return d

def windows(tier, around=24):
    """file sizes: every size up to 1100 (every second one in the quick tier), and every size in a window around each power of two and each multiple of a TLS record"""
    out = set(range(0, 1100, 2 if tier == "quick" else 1)); n = around if tier == "quick" else 2 * around
    for c in [2 ** k for k in range(7, 17 if tier == "quick" else 21)] + [16384 * k for k in range(1, 5 if tier == "quick" else 13)]: out |= set(range(max(0, c - n - 16), c + n))
    return sorted(out)

"""P12: the peer is cut off, corrupted, silent-dead or wrong at every point; the tool has to fail visibly and in bounded time."""
import itertools, os
import vlib
from checks import toollib as T
from checks.p10 import expect

REQ = {"version": ("version 1 1", b"VERSION 1\n"), "libpath": ("libpath 2f6c6962", b"YES\n"), "feature": ("feature 66", b"YES\n"), "file": ("file 662e6d6f 16", b"FILECONT 40\n" + T.pattern(40)),
       "returnfeature": ("returnfeature 66", b"YES\n"), "license": ("license 66", b"NO 5\nsorry"), "returnlicense": ("returnlicense 66", b"YES\n")}
SESSION = ["version", "libpath", "feature", "file", "returnfeature", "license"]

def run(tier):
    rep = vlib.Report("P12", tier, "fault_enumeration")
    gen = vlib.gen_headers("p12"); tool, fake = T.build(gen)
    W = lambda b: "W " + b.hex()
    cases = []
    tail = [REQ[c][0] for c in REQ]           # every kind of call once more after the loss
    full = ["H"] + sum([["R", W(REQ[c][1]), "M"] for c in SESSION], []) + ["T", "X 0"]
    def case(name, kind, calls, script=None, **kw):
        c = T.Case(name, calls + tail + ["stop", "stop"], script, **kw); c.kind = kind; c.ncalls = len(calls); cases.append(c); return c
    # how many raw bytes does the peer send? (constant: RSA certificate, fixed replies)
    probe = T.Case("probe", [REQ[c][0] for c in SESSION] + ["stop"], full)
    T.run(tool, fake, [probe], jobs=1)
    if T.abnormal(probe) or [r["ok"] for r in probe.res] != [1, 1, 1, 1, 1, 1, 0, 1]: rep.violation("an undisturbed session fails: %s %s" % (T.abnormal(probe), probe.res), probe.dump()); return rep.finish(evaluations=1, distinct_nontrivial=1, rule="probe")
    total = max(int(w[5:]) for w, _ in probe.log if w.startswith("total")) + 3
    stepq = 1
    sess = [REQ[c][0] for c in SESSION]
    # a. cut off after every raw byte; the peer exits, or stays and only closes its output
    for n in range(0, total, stepq):
        for linger in (0, 1):
            if tier == "quick" and linger and n % 3: continue
            case("output ends after %d raw bytes, %s" % (n, "peer stays" if linger else "peer exits"), "cut", sess, (["L"] if linger else []) + ["O %d" % n] + full)
    # b. one raw byte inverted
    for n in range(0, total, 1 if tier == "thorough" else 2):
        case("raw byte %d inverted" % n, "flip", sess, ["D 400", "I %d" % n] + full)
    # c. after each complete or partial reply of each call: exit, close, close_notify, kill
    ends = {"exit": "X 1", "close": "C", "close_notify": "K", "kill": "A"}
    for call in REQ:
        rs = {REQ[call][1], b"YES\n", b"NO 5\nsorry", b"ERROR 7 5\nsorry", b"VERSION 1\n", b"FILECONT 5\nhello"}
        for r in rs:
            for k in range(len(r) + 1):
                if len(r) > 20 and 16 < k < len(r) - 3: continue
                for en, e in ends.items():
                    if tier == "quick" and en in ("kill", "close") and k not in (0, len(r) - 1, len(r)): continue
                    c = case("%s answered with %r then %s" % (call, r[:k], en), "partial", [REQ[call][0]], ["H", "R"] + ([W(r[:k])] if k else []) + [e]); c.call, c.reply = call, r[:k]
        for r in (b"FILECONT 10\nabc", b"NO 10\nabc", b"ERROR 1 10\nabc"):       # short data, then too much, too little, nothing
            for more in (b"", b"d", b"defghi", b"defghij", b"defghijk", b"d" * 5000):
                for en, e in ends.items():
                    c = case("%s answered with %r + %d bytes then %s" % (call, r, len(more), en), "partial", [REQ[call][0]], ["H", "R", W(r)] + ([W(more)] if more else []) + [e]); c.call, c.reply = call, r + more
        for ln in (1, 100, 16384, 20000, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 12, 2 ** 63 - 2, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 30, -1, -2 ** 63):
            for w in (b"FILECONT %d\n", b"NO %d\n", b"ERROR 1 %d\n", b"TOOLLIST %d\n"):
                for d in (b"", b"abc"):
                    if len(d) and ln in (-1, 1, -2 ** 63): continue
                    c = case("%s answered with %r + %r then exit" % (call, w % ln, d), "partial", [REQ[call][0]], ["H", "R", W(w % ln + d), "X 0"]); c.call, c.reply = call, w % ln + d
    # d. arbitrary short replies
    alpha = [b"Y", b"E", b"\n", b" ", b"\0", b"1", b"-", b"%"]
    L = 4 if tier == "thorough" else 3
    for n in range(1, L + 1):
        for t in itertools.product(alpha, repeat=n):
            for call in ("feature", "file") if tier == "thorough" or n < 3 else ("feature",):
                c = case("%s answered with %r then exit" % (call, b"".join(t)), "partial", [REQ[call][0]], ["H", "R", W(b"".join(t)), "X 0"]); c.call, c.reply = call, b"".join(t)
    for n in (1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384):                   # long lines with and without an end
        for ch in (b"A", b" ", b"\0", b"1", b"%n", b"YES "):
            for e in (b"", b"\n"):
                c = case("file answered with %d x %r%r then exit" % (n, ch, e), "partial", [REQ["file"][0]], ["H", "R", W((ch * n)[:16384 - len(e)] + e), "X 0"]); c.call, c.reply = "file", (ch * n)[:16384 - len(e)] + e
    c = case("endless line", "partial", [REQ["file"][0]], ["H", "R"] + [W(b"A" * 16384)] * 40 + ["X 0"]); c.call, c.reply = "file", b"AAA"
    # e. never a valid executable
    d = vlib.sdir("p12exe")
    def f(name, data, mode):
        p = os.path.join(d, name); open(p, "wb").write(data); os.chmod(p, mode); return p
    os.symlink(d + "/none", d + "/dangling"); os.makedirs(d + "/dir")
    bad = [d + "/none", d + "/dangling", d + "/dir", f("noexec", b"#!/bin/sh\nexit 0\n", 0o644), f("empty", b"", 0o755), f("garbage", b"\x7fELF" + b"\1" * 100, 0o755), f("noscript", b"hello", 0o755),
           f("badint", b"#!/nonexistent/interpreter\n", 0o755), f("true", b"#!/bin/sh\nexit 0\n", 0o755), f("false", b"#!/bin/sh\nexit 1\n", 0o755), f("text", b"#!/bin/sh\necho hello\n", 0o755),
           f("textread", b"#!/bin/sh\nhead -c 1 >/dev/null\necho hello\n", 0o755), f("echo", b"#!/bin/sh\nexec cat\n", 0o755), f("much", b"#!/bin/sh\nexec head -c 300000 /dev/zero\n", 0o755),
           f("closed", b"#!/bin/sh\nexec >&-\nexec cat >/dev/null\n", 0o755), f("noin", b"#!/bin/sh\nexec <&-\nexit 0\n", 0o755), f("killed", b"#!/bin/sh\nkill -9 $$\n", 0o755), f("segv", b"#!/bin/sh\nkill -11 $$\n", 0o755),
           f("x" * 200, b"#!/bin/sh\nexit 0\n", 0o755), d + "/" + "y" * 5000, "/dev/null"]
    for p in bad: case("executable %s" % p[-60:], "bad", [REQ["version"][0]], None, exe=p)
    raws = [b"\0", b"hello\n", b"\x16\x03\x01\x00\x02ab", b"\x15\x03\x03\x00\x02\x02\x28", b"\x15\x03\x03\x00\x02\x01\x00", b"\x16\x03\x03\xff\xff" + b"a" * 70000, b"\x17\x03\x03\x00\x05hello", b"\x80\x2e\x01", b"HTTP/1.0 400 Bad\r\n\r\n"]
    for r in raws:
        for pre in (["H"], []):
            for e in ("X 0", "C"):
                # the raw bytes arrive instead of, or after, a handshake
                c = case("raw %r %s then %s" % (r[:12], "after the handshake" if pre else "instead of a handshake", e), "bad" if not pre else "rawafter", [REQ["version"][0]], pre + ["B " + r.hex(), e])
    # f. two executables at a time: one dies, the other one goes on
    for point in range(4):
        for en in ("X 0", "A", "C"):
            s1 = ["H"] + sum([["R", W(REQ[c_][1]), "M"] for c_ in SESSION[:point]], []) + [en]
            s2 = ["H"] + sum([["R", W(REQ[c_][1]), "M"] for c_ in SESSION[:4]], [])
            calls = ["env FAKE_SCRIPT @S2", "slot 1", "start @FAKE", "slot 0"] + [REQ[c_][0] for c_ in SESSION[:point + 1]] + ["slot 1"] + [REQ[c_][0] for c_ in SESSION[:4]] + ["slot 0", "feature 66", "slot 1", "stop", "slot 0", "feature 66", "stop"]
            c = T.Case("two executables, the first one ends (%s) after %d replies" % (en, point), calls, s1, script2=s2); c.kind = "two"; c.point = point; cases.append(c)
    # g. regular end: a closed connection is no error, the peer sees the end
    c = T.Case("regular end", sess + ["stop"], full[:-1]); c.kind = "regular"; cases.append(c)
    # without an error structure
    for r in (b"YE", b"FILECONT 10\nab", b"XYZ\n", b""):
        c = T.Case("null error, %r" % r, [REQ["file"][0], REQ["feature"][0], REQ["version"][0], "stop"], ["H", "R"] + ([W(r)] if r else []) + ["X 0"], pre=["noerr"]); c.kind = "noerr"; cases.append(c)
    # h. the system cannot start the executable now; later it can
    for fn, ks in (("pipe", (1, 2, -1)), ("fork", (1, -1)), ("access", (1, 2, -1))):
        for k in ks:
            for ne in (0, 1):
                c = T.Case("start while call %d of %s fails%s" % (k, fn, ", null error" if ne else ""), ["fail %s %d" % (fn, k), "start @FAKE", "stop", "fail - 0", "start @FAKE"] + [REQ[c_][0] for c_ in SESSION[:4]] + ["stop"], full[:-2], exe="", pre=["noerr"] if ne else []); c.kind = "nostart"; c.ne = ne; cases.append(c)
    T.run(tool, fake, cases)
    kinds = {}; checked = 0
    names = [c.split()[0] for c in tail]
    for c in cases:
        if rep.full(): break
        kinds[c.kind] = kinds.get(c.kind, 0) + 1; checked += 1
        why = T.abnormal(c)
        if c.status is None: continue      # not run after two hangs of its worker, which are reported
        if why: rep.violation("%s: %s" % (c.name, why), c.dump()); continue
        R = c.res
        if c.kind == "nostart":
            if not R[0]["ok"] and not R[0]["err"] and not c.ne: why = "the failed start sets no error"
            elif [r["ok"] for r in R[1:]] != [1] * 7: why = "the session started later: results %s" % [r["ok"] for r in R[1:]]
        elif c.kind == "noerr":
            if [r["ok"] for r in R] != [1, 0, 0, 0, 1]: why = "results %s" % [r["ok"] for r in R]
        elif c.kind == "regular":
            if [r["ok"] for r in R] != [1, 1, 1, 1, 1, 1, 0, 1] or not any(w in ("end", "eof") for w, _ in c.log): why = "results %s, peer log %s" % ([r["ok"] for r in R], c.log[-3:])
        elif c.kind == "two":
            p = c.point
            want = [1, 1] + [1] * p + [0] + [1] * 4 + [0, 1, 0, 1]
            if [r["ok"] for r in R] != want: why = "results %s, expected %s" % ([(r["call"], r["ok"]) for r in R], want)
            elif any(not r["ok"] and not r["err"] for r in R): why = "a failure without an error set"
        else:
            calls = R[1:1 + c.ncalls]; after = R[1 + c.ncalls:-2]
            sent = sum(1 for w, _ in c.log if w.startswith("sent"))
            if any(r["call"] == "none" for r in calls) and R[0]["ok"]: why = "no connection although start succeeded"
            for i, r in enumerate(R[:-2]):
                if not why and not r["ok"] and not r["err"]: why = "%s failed without an error set" % r["call"]
                if not why and not r["ok"] and r["call"] != "none" and not r.get("msg") : why = "%s failed with an empty error text" % r["call"]
                if not why and r["ok"] and r["err"]: why = "%s succeeded with an error set" % r["call"]
            if not why and c.kind == "bad" and R[0]["ok"]: why = "start succeeded"
            if not why and c.kind in ("cut", "flip"):
                failed = not R[0]["ok"]
                for i, r in enumerate(calls):
                    good = SESSION[i] != "license"
                    if r["ok"] and (failed or i >= sent): why = "%s (call %d) succeeded, but the peer never completed the reply" % (SESSION[i], i); break
                    if SESSION[i] == "license":
                        if r["ok"]: why = "license succeeded for NO"
                    elif r["ok"] and r["call"] == "file" and (r["size"], r["sha"], r["read"]) != (40, T.sha(T.pattern(40)), (40, 3, 0)): why = "wrong file content"
                    elif c.kind == "cut" and not r["ok"] and i < sent - 1: why = "%s (call %d) failed although %d replies were completed: %r" % (SESSION[i], i, sent, r.get("msg")); break
                    if good and not r["ok"]: failed = True
                if not why and (c.kind == "cut" and any(w == "cut" for w, _ in c.log)) and any(r["ok"] for r in after): why = "a call succeeded after the connection was lost: %s" % [(r["call"], r["ok"]) for r in after]
            if not why and c.kind == "partial":
                ok, text, content = expect(c.call, c.reply)
                if bool(R[1]["ok"]) != ok: why = "%s reported %s for %r" % (c.call, "success" if R[1]["ok"] else "failure", c.reply[:60])
                elif content is not None and (R[1]["size"], R[1]["sha"]) != (len(content), T.sha(content)): why = "wrong content"
                elif not ok and text and text not in R[1]["msg"]: why = "the error %r does not carry %r" % (R[1]["msg"][:60], text[:60])
                elif any(r["ok"] for r in after): why = "a call succeeded after the connection was lost: %s" % [(r["call"], r["ok"]) for r in after]
            if not why and c.kind in ("bad", "rawafter") and any(r["ok"] for r in calls + after): why = "a call succeeded: %s" % [(r["call"], r["ok"]) for r in R]
        if why: rep.violation("%s: %s" % (c.name, str(why)[:500]), c.dump())
        elif checked % 1201 == 1: rep.sample({"case": c.name, "results": [(r["call"], r["ok"]) for r in R[:8]], "error": repr(next((r.get("msg") for r in R if r.get("msg")), b"")[:60])})
    cut_all = sum(1 for c in cases if c.kind == "cut" and not any(w == "cut" for w, _ in c.log))
    if not cut_all: rep.violation("vacuous: no case lets the whole session through; raise the bound")
    rep.outcomes = kinds
    rep.assumptions = ["a peer that stays alive and silent cannot be told from a slow one and is not counted as dead", "bounded time: 20 s per case"]
    return rep.finish(evaluations=checked, distinct_nontrivial=len(cases) - cut_all, rule="one case per fault point (raw byte offset, reply prefix, end mode) of a session on the real tool code", exhaustive=True)

"""P10: every API call x every reply (and every short sequence of them), with every split of small replies into TLS records."""
import itertools
import vlib
from checks import toollib as T

YES = b"YES\n"
def no(m): return b"NO %d\n" % len(m) + m
def err(n, m): return b"ERROR %d %d\n" % (n, len(m)) + m
def fc(m): return b"FILECONT %d\n" % len(m) + m

CALLS = {"libpath": "LIB", "feature": "FEATURE", "returnfeature": "RETURNFEATURE", "license": "LICENSE", "returnlicense": "RETURNLICENSE", "file": "FILE"}

CODE = {}
def expect(call, reply, lo=1, hi=1):
    """(success?, text that the error has to carry or None, file content or None)"""
    r = None
    try:
        p = vlib.parse_replies(reply)
        if len(p) == 1: r = p[0]
    except (ValueError, IndexError): pass
    if r is None: return False, None, None
    w, n, d = r
    if call == "version": ok = w == "VERSION" and lo <= n <= hi
    elif call == "file": ok = w == "FILECONT"
    else: ok = w == "YES"
    text = None
    if w == "ERROR" or (w == "NO" and call in ("feature", "license")): text = d.split(b"\0")[0][:1900]
    return ok, text, d if ok and call == "file" else None

def judge(call, res, reply, lo=1, hi=1, noerr=False):
    ok, text, content = expect(call, reply, lo, hi)
    if bool(res["ok"]) != ok: return "reported %s for the reply %r" % ("success" if res["ok"] else "failure", reply[:80])
    if res["call"] != "file" and res["ok"] not in (0, 1): return "returned %d" % res["ok"]
    if ok and res["err"]: return "an error is set although the call succeeded (reply %r)" % reply[:80]
    if not ok and not noerr and not res["err"]: return "no error set although the call failed (reply %r)" % reply[:80]
    if not ok and not noerr and text is not None and text not in (res.get("msg") or b""): return "the error text %r does not carry the message of %r" % ((res.get("msg") or b"")[:80], reply[:80])
    if not ok and not noerr and "code" in res:
        w = None
        try: w = vlib.parse_replies(reply)[0][0]
        except (ValueError, IndexError): pass
        got = "refused" if res["code"] == CODE["NO_LICENSE"] else "not simple" if res["code"] == CODE["NOT_SIMPLIFIED"] else "other"
        want = "refused" if text is not None and w == "NO" else "not simple" if call in ("license", "returnlicense") and w == "NOTSIMPLE" else "other"
        if got != want and not (call == "returnlicense" and want == "not simple"): return "the error code says '%s' for the reply %r" % (got, reply[:80])
    if content is not None and (res.get("size") != len(content) or res.get("sha") != T.sha(content) or res["read"] != (len(content), 3, 0)):
        return "file of %d bytes delivered as size %s, read %s" % (len(content), res.get("size"), res.get("read"))
    return None

def codes(gen):
    """the values of the error codes of the public header, taken from the compiler"""
    c = vlib.sdir("p10codes") + "/c.c"
    open(c, "w").write('#include <stdio.h>\n#include "mlle_licensing.h"\nint main(void) { printf("%d %d", MLLE_TOOL_ERROR_NO_LICENSE, MLLE_TOOL_ERROR_NOT_SIMPLIFIED); return 0; }\n')
    x = vlib.must([vlib.build("codes", [c], gen, san=False)]).stdout.split()
    return {"NO_LICENSE": int(x[0]), "NOT_SIMPLIFIED": int(x[1])}

def run(tier):
    rep = vlib.Report("P10", tier, "model_checking")
    gen = vlib.gen_headers("p10"); tool, fake = T.build(gen)
    CODE.update(codes(gen))
    W = lambda b: "W " + b.hex()
    msgs = [b"", b"x", b"no licence for this", b"100%s %n %d", b"line1\nline2\n", b"a b c", b"m" * 1000, b"m" * 1900, b"\xc3\xa5\xff\x01", b"5 YES\nYES\n"]
    replies = [YES, b"NOTSIMPLE\n", b"TOOLS\n", b"VERSION 1\n", b"TOOLLIST 1\na", b"FEATURE 1\na", b"LIB 1\na", b"FILE 1\na", b"LICENSE 1\na", b"RETURNFEATURE 1\na", b"RETURNLICENSE 1\na"]
    replies += [no(m) for m in msgs] + [err(n, m) for n in (-1, 0, 1, 2, 7, 99) for m in msgs[:5]] + [err(7, m) for m in msgs[5:]] + [fc(m) for m in (b"", b"hello", b"\0\1\2", b"YES\n", b"x" * 5000)]
    replies += [no(b"m" * 5000), err(3, b"e" * 5000), err(1, b"ab\0cd"), no(b"\0")]
    malformed = [b"YES 1\n", b"YES 1 2\n", b"NO\n", b"NO x\n", b"NO -1\n", b"NO 1 1\nx", b"VERSION\n", b"VERSION x\n", b"VERSION 1 2\n", b"FILECONT\n", b"FILECONT x\n", b"FILECONT -1\n", b"FILECONT 1 1\nx",
                 b"ERROR\n", b"ERROR 1\n", b"ERROR x 3\nabc", b"ERROR 1 x\n", b"ERROR 1 -1\n", b"ERROR 1 2 3\n", b"\n", b"  \n", b"\0\n", b"yes\n", b"Yes\n", b"YESS\n", b"YE\n", b"Y ES\n", b"XYZZY 3\nabc", b"NOTSIMPLE 1\n",
                 b"1\n", b"-\n", b"%s%n%n\n", b"A" * 900 + b"\n", b"A" * 5000 + b"\n", b"YES " + b"1 " * 400 + b"\n", b"YES\nx", b"YES\nYES\n", b"VERSION 1\nx", b"FILECONT 2\nabc", b"FILECONT 0\nabc", b"NO 1\nabc", b"ERROR 1 1\nabc",
                 b"FILECONT 9223372036854775807\n", b"NO 9223372036854775807\nabc", b"ERROR 1 9223372036854775807\nabc", b"UNDEFINED\n", b"UNDEFINED 1\n"]
    cases = []
    def case(name, calls, pre=(), noerr=False):
        """calls: [(call, driver line, [records], reply, lo, hi, request or None)]"""
        c = T.Case(name, [x[1] for x in calls] + ["stop"], ["H"] + sum([["R"] + [W(r) for r in x[2]] + ["M"] for x in calls], []), pre=pre)
        c.steps = calls; c.noerr = noerr; cases.append(c)
    def api(call, reply, records=None, name=b"Lib.feat", lo=1, hi=1):
        if call == "version": return (call, "version %d %d" % (lo, hi), records or [reply], reply, lo, hi, b"VERSION %d\n" % hi)
        return (call, "%s %s" % (call, name.hex() or "-"), records or [reply], reply, lo, hi, ("%s %d\n" % (CALLS[call], len(name))).encode() + name)
    everything = replies + malformed
    # each call with each reply: in one long session, alone, and with no error structure
    for call in ["version"] + list(CALLS):
        case(call + ": all replies in one session", [api(call, r) for r in everything])
        case(call + ": all replies in one session, reversed", [api(call, r) for r in reversed(everything)])
        case(call + ": all replies, null error", [api(call, r) for r in everything], pre=["noerr"], noerr=True)
        for r in everything: case("%s: only %r" % (call, r[:30]), [api(call, r)])
    # the version window
    nums = [-9223372036854775808, -2147483649, -1, 0, 1, 2, 3, 4, 5, 100, 2147483647, 2147483648, 4294967297, 9223372036854775807]
    wins = [(1, 1), (1, 4), (2, 3), (0, 0), (-1, 1), (3, 2), (1, 2147483647), (-2147483648, 2147483647), (5, 5)]
    for lo, hi in wins: case("version window %d..%d" % (lo, hi), [api("version", b"VERSION %d\n" % n, lo=lo, hi=hi) for n in nums])
    # names are sent exactly
    names = [b"", b"a", b"%s%n%d", b"a b", b"a\nb", b"\n", b"7", b"x" * 255, b"x" * 1023, b"x" * 1024, b"x" * 4096, b"x" * 16000, b"x" * 16384, b"x" * 20000, b"y" * 70000, b"\xc3\xa5\xff", b" lead", b"trail ", b"YES\n"]
    for call in CALLS:
        case(call + ": names", [api(call, fc(b"c") if call == "file" else YES, name=n) for n in names])
    # every split of the small replies into records
    for call, r in (("version", b"VERSION 1\n"), ("feature", YES), ("feature", no(b"ab")), ("license", b"NOTSIMPLE\n"), ("file", err(7, b"ab")), ("libpath", YES), ("feature", b"XYZ 2\nab")):
        splits = []
        for m in range(2 ** (len(r) - 1)):
            recs = [b""]
            for i in range(len(r)):
                recs[-1] += r[i:i + 1]
                if i < len(r) - 1 and m >> i & 1: recs.append(b"")
            if b"\n" not in b"".join(recs[:-1]) or r != b"XYZ 2\nab": splits.append(recs)
        for i in range(0, len(splits), 200): case("%s: splits of %r #%d" % (call, r, i), [api(call, r, s) for s in splits[i:i + 200]], pre=["cap %d" % (3 if i % 400 else 0)])
    # sequences: no reply is taken for another
    few = [YES, no(b"nnn"), err(7, b"eee"), b"VERSION 1\n", fc(b"ff"), b"XYZ\n"]
    kinds = [api(c, r) for c in ["version"] + list(CALLS) for r in few]
    depth = 2
    for s in itertools.product(kinds, repeat=depth): case("sequence " + " ".join("%s<-%r" % (k[0], k[3]) for k in s), list(s))
    if tier == "thorough":
        kinds = [api(c, r) for c in ("version", "feature", "file", "license", "returnfeature") for r in few]
        for s in itertools.product(kinds, repeat=3): case("sequence " + " ".join("%s<-%r" % (k[0], k[3]) for k in s), list(s))
    T.run(tool, fake, cases)
    checked = 0; distinct = set()
    for c in cases:
        if rep.full(): break
        if c.status is None: continue
        why = T.abnormal(c)
        if why: rep.violation("%s: %s" % (c.name, why), c.dump()); continue
        if not c.res[0]["ok"]: rep.violation("%s: start failed against a well-behaved peer: %s" % (c.name, c.res[0]), c.dump()); continue
        reqs = [d for w, d in c.log if w == "req"]
        for i, st in enumerate(c.steps):
            call, _, _, reply, lo, hi, req = st; checked += 1
            r = c.res[i + 1]
            why = judge(call, r, reply, lo, hi, c.noerr)
            if not why and (i >= len(reqs) or reqs[i] != req): why = "the request sent was %r instead of %r" % ((reqs[i] if i < len(reqs) else None), req[:80])
            ok, text, _ = expect(call, reply, lo, hi); distinct.add((call, reply[:40], lo, hi))
            rep.outcome((call, "success" if ok else "failure"))
            if why: rep.violation("%s: call %d %s: %s" % (c.name, i, call, str(why)[:500]), c.dump()); break
            if checked % 4001 == 1: rep.sample({"case": c.name, "call": call, "reply": repr(reply[:40]), "result": r["ok"], "error": repr((r.get("msg") or b"")[:60])})
    rep.assumptions = ["the peer is a scripted TLS server over the real pipes; replies the protocol text leaves open (extra blanks, '+5', '01') are not judged"]
    return rep.finish(states=len(distinct), transitions=len(cases), traces_validated_against_impl=checked, exhaustive=True, sessions=len(cases))

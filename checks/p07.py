"""P07: request histories x licence-manager answers; replies and the manager's call log must agree."""
import itertools
import vlib
from vlib import Step, msg
from checks import common

def refusal(k, what):
    return {2: b"", 3: b"100%s %n percent\nsecond line\n", 4: b"e" * 1023, 5: b"e" * 2000, 6: b"e" * 5000}.get(k, b"scripted refusal " + what)

def names():
    out = [b"f", b"feature", b"", b"a b", b"\xc3\xa5", b"%s%n", b"f\0g", b"\0", b"\n", b"a\nb", b"a\rb", b"f ", b" f", b"FEATURE 3", b"\"q\"", b"\xff\xfe", b"f\0", b"feat/ure\\x"]
    out += [b"n" * k for k in list(range(2, 70)) + [127, 128, 255, 256, 1000, 1013, 1014, 1015, 1016, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 16000, 16364]]
    return out

def run(tier):
    rep = vlib.Report("P07", tier, "model_checking")
    gen = vlib.gen_headers("p07"); exe = vlib.build_explorer("lvex", gen)
    lib, content = common.std_library(gen)
    A = []
    def add(word, data, ln=1, la=1, raw=None): A.append((Step(raw or msg(word, data), ln=ln, la=la, name="%s %r" % (word, data[:20])), word, data))
    A.append((Step(msg("VERSION", num=1)), "VERSION", None)); add("LIB", lib.encode()); add("LIB", lib.encode() + b"/"); add("LIB", b"/nonexistent/dir"); add("LIB", lib.encode() + b"/x.moc")
    ends = [Step(op="C", name="close_notify"), Step(op="X", name="end of input"), Step(msg("FEATURE", b"f"), op="T", a=9, name="half a record"), Step(op="G", name="the tool has ended"),
            Step(msg("FEATURE", b"f"), op="D", name="FEATURE f, then the tool ends"), Step(msg("RETURNFEATURE", b"f"), op="D", name="RETURNFEATURE f, then the tool ends"), Step(msg("FEATURE", b"f"), op="D", ln=0, name="FEATURE f without a manager, then the tool ends"), Step(msg("FILE", b"x.moc"), op="D", name="FILE x.moc, then the tool ends")]
    A.extend((e, "END", None) for e in ends); END = list(range(len(A) - len(ends), len(A)))
    core0 = len(A)
    for w in ("FEATURE", "RETURNFEATURE"):
        for d in (b"f", b"g"):
            for ln in (1, 0):
                for la in (1, 0):
                    if (d, ln) != (b"g", 0): add(w, d, ln, la)
    add("FILE", b"x.moc"); add("LICENSE", b"Lib"); add("RETURNLICENSE", b"f"); add("BAD", b"", raw=b"FEATURE 5\nf"); add("BAD", b"", raw=b"RETURNFEATURE\n")
    nofile = len(A); add("NOFILE", b"", raw=msg("FILE", b"no such file"))
    core = list(range(core0, len(A)))
    seqs = set(); V, LB, LB2, LNX, LFILE = 0, 1, 2, 3, 4
    d = 3 if tier == "quick" else 4
    for s in itertools.product(core, repeat=d): seqs.add((V, LB) + s)
    for s in itertools.product(core, repeat=2): seqs.add((V, LB2) + s)
    seqs.add((V,)); seqs.add((V, LB))
    for s in core: seqs.add((V, s)); seqs.add((s,))
    for s in itertools.product(core, repeat=2): seqs.add((V, LB) + s * 8)
    for lb in (LB, LNX, LFILE):
        for k in (0, 1, 2) if tier == "thorough" or lb == LB else (0, 1):
            for s in itertools.product(core, repeat=k):
                for e in END: seqs.add((V, lb) + s + (e,))
    for s in itertools.product(core, repeat=2): seqs.add((V, LNX) + s); seqs.add((V, LFILE) + s)
    # other peers: whether the tool is trusted makes no difference to licence requests
    useqs = {s for s in seqs if len(s) <= (4 if tier == "quick" else 5)}
    # names and messages
    for w in ("FEATURE", "RETURNFEATURE"):
        for nm in names():
            for la in (1, 0):
                add(w, nm, 1, la); seqs.add((V, LB, len(A) - 1, core0, len(A) - 1))
        for la in (2, 3, 4, 5, 6):
            add(w, b"f", 1, la); seqs.add((V, LB, len(A) - 1, core0)); seqs.add((V, LB, core0, len(A) - 1))
        for ln in (2, 3, 4, 5, 6):
            add(w, b"f", ln, 1); seqs.add((V, LB, len(A) - 1, core0)); seqs.add((V, LB, len(A) - 1, len(A) - 1))
    # library paths
    for lp in (b"/nonexistent/dir ", b" ", b"x", b" /nonexistent", b"/nonexistent/a\tb\t", b"/nonexistent/%s%n", b"/nonexistent/\xc3\xa5", b"/" + b"n" * 300, b"/" + b"m" * 3000, b"/nonexistent\\dir", b"./x/../y", b"/nonexistent/dir//", lib.encode() + b"//", b"/nonexistent/a.", b"~", b"LIB 3"):
        add("LIB", lp); seqs.add((V, len(A) - 1, core0, core0)); seqs.add((V, len(A) - 1, core0 + 1, core0)); useqs.add((V, len(A) - 1, core0, core0))
    steps = [a[0] for a in A]
    checked = yes = no = 0; states = set()
    results = [("a", vlib.explore(exe, steps, seqs))] + [(k, vlib.explore(exe, steps, useqs, key=k)) for k in ("x", None)]
    memo = {(): (None, False)}     # (library path, manager live)
    def st_of(path):
        if path in memo: return memo[path]
        lp, live = st_of(path[:-1]); s, w, dta = A[path[-1]]
        if w == "LIB" and lp is None and V in path[:-1]: lp = dta.rstrip(b"/")
        if w in ("FEATURE", "RETURNFEATURE") and lp is not None and s.ln == 1: live = True
        memo[path] = (lp, live); return memo[path]
    for cred, res, p in ((c, r, p) for c, r in results for p in sorted(r.nodes, key=lambda p: (len(p), p))):
        if rep.full(): break
        n = res.nodes[p]
        if not p or n.status == "unreached": continue
        where = "peer %s, session %s" % (cred, common.describe(steps, p))
        rd = lambda: common.replay_data(steps, p, peer=cred)
        if n.status == "died": rep.violation("%s: the executable crashed or hung; %s" % (where, (res.asan or [""])[0][:900]), rd()); continue
        s, w, dta = A[p[-1]]; lp, live = st_of(p[:-1]); lp2, live2 = st_of(p)
        ev = [] ; exp = ("ANY",)
        if w in ("FEATURE", "RETURNFEATURE") and lp is not None:
            call = "co" if w == "FEATURE" else "ci"
            if not live: ev.append("new %d %s" % (s.ln, lp.decode("latin1")))
            if live or s.ln == 1:
                ev.append("%s %d %d %s" % (call, s.la, len(dta), dta.hex()))
                m = refusal(s.la, call.encode())
                exp = ("REP", "YES", None, None) if s.la == 1 else ("REP", "NO", None, m) if w == "FEATURE" else ("REP", "ERROR", 7, m)
            else: exp = ("REP", "ERROR", 7, refusal(s.ln, b"setup"))
        elif w in ("FEATURE", "RETURNFEATURE"): exp = ("ERRANY",)
        elif w in ("LICENSE", "RETURNLICENSE") and lp is not None: exp = ("REP", "NOTSIMPLE", None, None)
        elif w == "BAD": exp = ("ERRANY",)
        elif w == "FILE" and lp is not None: exp = ("REP", "FILECONT", None, content[dta.decode()]) if cred == "a" and lp == lib.encode() else ("ERRANY",)
        elif w == "NOFILE": exp = ("ERRANY",)
        if w == "END": r = why = None; got = []
        else:
            r, why = common.one_reply(n.reply)
            why = why or common.match(exp, r)
            got = [e.rstrip("\n") for e in n.events]
        if not why and got != ev: why = "calls of the licence manager %s, expected %s" % (got, ev)
        checked += 1; states.add((cred, lp is not None, live, p[-1]))
        if r and r[0] == "YES" and w != "LIB": yes += 1
        if r and r[0] == "NO": no += 1
        if why: rep.violation("%s: %s" % (where, why[:600]), rd()); continue
        if n.end is not None:
            ends = [e for e in n.end[1] if not e.startswith("exit")]
            if w == "END" and s.op == "D":      # the last request is still served (nobody sees the reply) or dropped; what it acquires is released
                mk = [e for e in ends if e.startswith("new ")]; live2 = live or any(e.startswith("new 1") for e in mk)
                if len(mk) > 1 or (mk and live): rep.violation("%s: at the end of the session the manager calls were %s" % (where, ends), rd())
                ends = [e for e in ends if e == "free" or not e.startswith(("new ", "co ", "ci "))]
            if [e for e in ends if e == "free"] != ["free"] * int(live2) or [e for e in ends if e not in ("free", "free null")]:
                rep.violation("%s: at the end of the session the manager calls were %s, manager live: %s" % (where, ends, live2), rd())
        if checked % 2003 == 1: rep.sample({"session": common.describe(steps, p), "calls": got, "reply": repr((n.reply or b"")[:40])})
    rep.outcomes = {"granted": yes, "refused": no}
    if not yes or not no: rep.violation("vacuous: granted=%d refused=%d" % (yes, no))
    rep.assumptions = ["the licence manager interface is replaced by a scripted manager with enumerated answers"]
    return rep.finish(states=len(states), transitions=len(A), traces_validated_against_impl=checked, exhaustive=True, sessions=len(seqs), depth=d)

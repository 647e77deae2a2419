"""P23: every kind of request, successful or failing, repeated on the real executable; nothing it uses may grow. The same for sessions of the tool."""
import itertools, os, shutil
import vlib
from vlib import Step, msg
from checks import common, p22, toollib as T

def run(tier):
    rep = vlib.Report("P23", tier, "model_checking"); thorough = tier == "thorough"
    gen = vlib.gen_headers("p23"); exe = vlib.build_explorer("lvex_use", gen, more=[vlib.HARN + "/lve_fault.c"], link=p22.WRAP)
    lib, content = common.std_library(gen)
    N = 16 if not thorough else 40
    A = [Step(msg("VERSION", num=1)), Step(msg("LIB", lib.encode()), name="LIB"), Step(msg("TOOLS"))]; core = []
    def add(*a, **k): A.append(Step(*a, **k)); core.append(len(A) - 1); return len(A) - 1
    for f in sorted(content) + ["nosuch.moc", "no/such.moc", "A", "../x.moc", "A/../x.moc", "", "nosuch.txt", "x.mo", "A/./y.moc", "a" * 5000]: add(msg("FILE", f.encode()), name="FILE " + f[:20])
    for w in ("FEATURE", "RETURNFEATURE"):
        for ln in (1, 0):
            for la in (1, 0, 6): add(msg(w, b"f"), ln=ln, la=la, name="%s manager %d answer %d" % (w, ln, la))
        add(msg(w, b""), name=w + " without name"); add(msg(w, b"n" * 3000), name=w + " long")
    for w in ("LICENSE", "RETURNLICENSE", "NO", "YES", "ERROR", "FILECONT", "LIB"): add(msg(w, b"x" * 30), name=w)
    for w in ("LICENSE", "RETURNLICENSE", "NO", "FILECONT", "LIB"): add(msg(w, b""), name=w + " empty"); add((w + " 9\nab").encode(), name=w + " too short"); add((w + " 9x\nab").encode(), name=w + " bad number"); add((w + "\n").encode(), name=w + " no number")
    for m in (b"VERSION\n", b"VERSION x\n", b"VERSION 1 2\n", b"VERSION -1\n", b"VERSION 99999999999999999999\n", b"TOOLS 1\nx", b"TOOLS x y z\n", b"LIB 3\n", b"LIB 3\na"): add(m, name=repr(m))
    add(msg("VERSION", num=1), name="VERSION again"); add(msg("VERSION", num=0), name="VERSION 0"); add(msg("TOOLS"), name="TOOLS again"); add(msg("LIB", b"l" * 6000), name="LIB long")
    for m in (b"\n", b"", b"FILE\n", b"FILE 5\nx", b"FILE 1\nxyz", b"FILE 99999999999999999999\nx", b"FILE -1\nx", b"FILE 5 5 5 5\nx", b"q" * 5000, b"q" * 5000 + b"\n", b"\0" * 30, b"FEATURE 3\nab", b"XYZZY 3\nabc"):
        if m: add(m, name=repr(m[:20]))
    for k in (1, 3, 7): add(msg("FILE", b"x.moc"), op="S", a=k, name="FILE x.moc in two records at %d" % k)
    FK = 6
    plain = list(core); faulty = []
    for f in ("x.moc", "A/y.moc", "A/package.moc", "plain.txt", "nosuch.moc"):
        for i, fn in enumerate(p22.FN):
            if fn in ("fclose",): continue
            for k in range(1, FK + 1): A.append(Step(msg("FILE", f.encode()), op="F", a=i * 1000000 + k * 100, name="FILE %s with call %d of %s failing" % (f, k, fn))); faulty.append(len(A) - 1)
    V, L, TL = 0, 1, 2
    # only positions that exist
    lb = vlib.sdir("p23big"); 
    probe = vlib.explore(exe, A, {(V, L, f) for f in faulty}, env={"FAULT_MIN": "100"})
    faulty = [p[-1] for p in probe.nodes if len(p) == 3 and "hit" in probe.nodes[p].events]
    seqs = {}
    def cyc(pre, body, name):  seqs[pre + body * (3 * N)] = (len(pre), len(body), name)
    for a in plain + faulty: cyc((V, L), (a,), "R")
    for a in plain: cyc((V,), (a,), "T"); cyc((), (a,), "V"); cyc((V, TL), (a,), "L")
    two = [a for a in plain if A[a].msg.split(b"\n")[0].split(b" ")[0] in (b"FILE", b"FEATURE", b"RETURNFEATURE")][::1 if thorough else 2]
    for a, b in itertools.permutations(two, 2): cyc((V, L), (a, b), "R")
    allr = tuple(plain + faulty); cyc((V, L), allr[:60], "R")
    checked = 0; peak = 0
    for key in ("a", "x"):
        todo = {s: v for s, v in seqs.items() if key == "a" or (v[1] == 1 and v[2] == "R")}
        res = vlib.explore(exe, A, set(todo), key=key, extra=["resources"], env={"FAULT_MIN": "100"}, timeout=60)
        def use(p):
            for e in res.nodes[p].events:
                if e.startswith("use "): return tuple(map(int, e.split()[1:]))
        for s, (np, nb, nm) in todo.items():
            if rep.full(): break
            where = "peer %s, %s repeated %d times in state %s" % (key, common.describe(A, s[np:np + nb])[:4], 3 * N, nm); rd = common.replay_data(A, s[:np + nb], times=3 * N)
            died = [s[:k] for k in range(1, len(s) + 1) if res.nodes[s[:k]].status == "died"]
            if died: rep.violation("%s: the executable crashed or hung; %s" % (where, (res.asan or [""])[0][:900]), rd); continue
            u = [use(s[:np + nb * N * k]) for k in (1, 2, 3)]
            if None in u: continue          # the session ended
            checked += 1; peak = max(peak, u[2][1])
            if u[1][1] > u[0][1] and u[2][1] > u[1][1]: rep.violation("%s: open files grow: %s" % (where, [x[1] for x in u]), rd)
            elif u[1][0] >= u[0][0] + N and u[2][0] >= u[1][0] + N: rep.violation("%s: memory in use grows: %s bytes after each %d repetitions" % (where, [x[0] for x in u], N), rd)
    # ---- the tool: sessions opened and closed, and calls within one session, again and again
    tool, fake = T.build(gen); W = lambda b: "W " + b.hex(); NT = 8 if not thorough else 20
    lve = vlib.build("lve_use", vlib.lve_sources(False) + [vlib.HARN + "/lm_log.c"], gen, san=False)
    reps = [("yes", [b"YES\n"]), ("no", [b"NO 3\nabc"]), ("error", [b"ERROR 7 5\nhello"]), ("content", [b"FILECONT 5\nhello"]), ("much content", [b"FILECONT 40000\n" + b"c" * 40000]), ("content in parts", [b"FILECONT 9\nab", b"cde", b"fghi"]), ("wrong word", [b"XYZZY\n"]), ("too short", [b"FILECONT 9\nab"]), ("not simple", [b"NOTSIMPLE\n"]), ("blank", [b"\n"]), ("long", [b"A" * 5000]),
            ("more than declared", [b"FILECONT 2\nabcdef"]), ("more than declared later", [b"FILECONT 9\nab", b"c" * 20]), ("more than declared in an error", [b"ERROR 7 9\nab", b"c" * 20]), ("header in parts", [b"FILE", b"CONT 3", b"\nabc"]), ("error in parts", [b"ERROR 7 9\nab", b"cdefghi"]),
            ("no in parts", [b"NO 9\nab", b"cdefghi"]), ("empty content", [b"FILECONT 0\n"]), ("command with data", [b"LIB 3\nabc"]), ("yes with data", [b"YES\nabc"]), ("bad number", [b"FILECONT 9x\nabcdefghi"]), ("huge number", [b"FILECONT 99999999999999999999\nabc"]), ("version", [b"VERSION 7\n"])]
    calls = [("libpath", "libpath " + T.hx("/x")), ("feature", "feature " + T.hx("f")), ("returnfeature", "returnfeature " + T.hx("f")), ("license", "license " + T.hx("l")), ("returnlicense", "returnlicense " + T.hx("l")), ("file", "file " + T.hx("x.moc"))]
    cases = []
    def rounds(name, body, script, exe="", before=(), after=(), pre=()):
        c = T.Case(name, list(before) + sum([list(body) * NT + ["use"] for _ in range(3)], []) + list(after), script, exe=exe, pre=pre); cases.append(c)
        c.longer = lambda n: T.Case(name, list(before) + sum([list(body) * n + ["use"] for _ in range(3)], []) + list(after), script if script is None or not before else script[:1] + script[1:] * (n // NT + 1), exe=exe, pre=pre)
    for cn, call in calls:
        for rn, rs in reps:
            short = rn == "too short"
            one = ["R"] + [W(r) for r in rs] + (["X 1"] if short else ["M"])
            rounds("%s answered %s, a session each" % (cn, rn), ["start @FAKE", call, "stop"], ["H"] + one)
            if not short: rounds("%s answered %s, in one session" % (cn, rn), [call], ["H"] + one * (3 * NT), before=["start @FAKE"], after=["stop"])
    for sc, nm in ((["H", "R", "X 1"], "dies before the answer"), (["H", "X 0"], "dies after the handshake"), (["X 1"], "dies at once"), (["H", "R", "K", "X 0"], "closes before the answer"), (["H", "R", "A"], "is killed"), (["O 300", "H"], "dies in the handshake"), (["H", "R", W(b"VERSION 1\n"), "X 0"], "answers and dies")):
        rounds("executable that " + nm, ["start @FAKE", "version 1 1", "stop"], sc)
    rounds("executable that does not exist", ["start /nonexistent/lve", "stop"], None)
    rounds("directory instead of an executable", ["start /tmp", "stop"], None)
    rounds("not an executable", ["start /etc/passwd", "stop"], None)
    for fn, k in (("pipe", 1), ("pipe", 2), ("fork", 1), ("access", 1), ("access", 2)):
        rounds("start while call %d of %s fails" % (k, fn), ["fail %s %d" % (fn, k), "start /bin/true", "stop", "fail - 0"], None)
        rounds("start while call %d of %s fails, then with another executable" % (k, fn), ["fail %s %d" % (fn, k), "start @FAKE", "stop", "fail - 0", "start @FAKE", "feature " + T.hx("f"), "stop"], ["H", "R", W(b"YES\n"), "M"])
    rounds("program that ends", ["start /bin/true", "stop"], None); rounds("program that writes nonsense", ["start /bin/ls", "stop"], None)
    sess = ["start " + lve, "version 1 1", "libpath " + T.hx(lib)]
    for nm, body in (("file", ["file " + T.hx("x.moc")]), ("missing file", ["file " + T.hx("nosuch.moc")]), ("feature", ["feature " + T.hx("f"), "returnfeature " + T.hx("f")]), ("denied", ["feature " + T.hx("deny")]), ("open files", ["fopen 0 " + T.hx("x.moc"), "fopen 1 " + T.hx("A/y.moc"), "fread 0 10", "ffree 1", "ffree 0"]), ("two sessions", ["slot 1"] + sess + ["slot 0", "file " + T.hx("x.moc"), "slot 1", "file " + T.hx("A/y.moc"), "stop", "slot 0"])):
        rounds("real executable: %s, a session each" % nm, sess + body + ["stop"], None, pre=["env LM_LOG @D"] if False else ())
        rounds("real executable: %s, in one session" % nm, body, None, before=sess, after=["stop"])
    T.run(tool, fake, cases); tooln = 0
    for c in cases:
        if rep.full(): break
        why = T.abnormal(c)
        if why: rep.violation("tool, %s: %s" % (c.name, why), c.dump()); continue
        u = [r["read"] for r in c.res if r["call"] == "use"]; tooln += 1
        grows = lambda u, n: len(u) == 3 and ("open files" if u[1][1] > u[0][1] and u[2][1] > u[1][1] else "memory in use" if u[1][0] >= u[0][0] + n and u[2][0] >= u[1][0] + n else None)
        what = grows(u, NT)
        for _ in range(2):     # how much is in use may differ a little with the moment at which the peer ends: only what goes on growing counts
            if what: l = c.longer(96); T.run(tool, fake, [l]); u = [r["read"] for r in l.res if r["call"] == "use"]; what = grows(u, 96)
        if what: rep.violation("tool, %s, %d times: %s grows: %s" % (c.name, 3 * 96, what, [x["o" in what[:1]] for x in u]), c.dump())
    rep.outcomes = {"failing calls": len(faulty), "tool rounds": tooln, "request rounds": checked}
    rep.assumptions = ["memory and files are compared after 1/3, 2/3 and all of the repetitions: what is kept once (caches) may stay", "terminated executables that the tool has not waited for are not counted"]
    return rep.finish(states=len(seqs) + len(cases), transitions=len(A), traces_validated_against_impl=checked + tooln, exhaustive=True, repetitions=3 * N)

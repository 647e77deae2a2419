"""P21: every interleaving of the calls of several sessions and open files of one tool; each session must behave as it does alone."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import toollib as T

def merges(lists):
    """all interleavings, as tuples of list indices"""
    n = [len(l) for l in lists]
    def rec(left):
        if not any(left): yield (); return
        for i, k in enumerate(left):
            if k:
                for r in rec(left[:i] + (k - 1,) + left[i + 1:]): yield (i,) + r
    return rec(tuple(n))

def run(tier):
    rep = vlib.Report("P21", tier, "model_checking"); thorough = tier == "thorough"
    gen = vlib.gen_headers("p21"); gen2 = vlib.gen_headers("p21b", trusted=("b",)); tool, fake = T.build(gen)
    lve = vlib.build("lve_log", vlib.lve_sources(False) + [vlib.HARN + "/lm_log.c"], gen, san=False)
    lve2 = vlib.build("lve_log_other", vlib.lve_sources(False) + [vlib.HARN + "/lm_log.c"], gen2, san=False)     # does not know this tool
    enc = vlib.build_encoder(gen); libs = []
    SZ = {"package.mo": 300, "x.mo": 1500, "S/package.mo": 40, "S/y.mo": 17000}
    data = {}
    for i in (1, 2):
        plain, lib = vlib.sdir("p21p%d" % i), vlib.sdir("p21l%d" % i)
        mo = {k: bytes([i]) + T.pattern(n + 7 * i) for k, n in SZ.items()}
        vlib.write_tree(plain, mo); r = vlib.encrypt_tree(enc, plain, lib, list(SZ))
        if r.returncode: raise vlib.BuildError("encrypting failed %s" % r.stderr[-1000:])
        open(lib + "/t.txt", "wb").write(b"text of library %d" % i)
        data[i] = {k + "c": v for k, v in mo.items()}; data[i]["t.txt"] = b"text of library %d" % i; libs.append(lib)
    H = T.hx
    def real(i, exe=None, feature="feat%d", files=("x.moc", "t.txt"), stop=True, lib=None):
        L = ["start " + (exe or lve), "version 1 1", "libpath " + H(lib or libs[i - 1]), "feature " + H(feature % i if "%" in feature else feature)]
        for f in files: L.append("file %s 4096" % H(f))
        return L + (["stop"] if stop else [])
    W = lambda b: "W " + b.hex()
    S = {
        "A": (real(1), 1, None),
        "A2": (real(1, feature="other%d", files=("S/y.moc",)), 1, None),
        "B": (real(2, feature="deny%d", files=("x.moc", "package.moc")), 2, None),
        "B2": (real(2, files=("x.moc",)), 2, None),
        "unknown tool": (real(2, exe=lve2, files=("x.moc",)), None, None),
        "no such library": (real(2, lib=libs[1] + "x", files=("x.moc",)), None, None),
        "no such executable": (["start " + lve + "x", "start /bin/false", "start /bin/true"], None, None),
        "dies": (["env FAKE_SCRIPT @S2", "start @FAKE", "version 1 1", "file %s 10" % H("x.moc"), "feature 61", "stop"], None, ["H", "R", W(b"VERSION 1\n"), "R", "O 600", "G 50000 16384 " + b"FILECONT 50000\n".hex()]),
        "garbage": (["env FAKE_SCRIPT @S2", "start @FAKE", "version 1 1", "file %s 10" % H("x.moc"), "stop"], None, ["H", "R", W(b"VERSION 1\n"), "R", "B " + (b"\xff" * 400).hex()]),
        "A without stop": (real(1, files=("x.moc",), stop=False), 1, None),
        "B without stop": (real(2, files=("x.moc",), stop=False), 2, None),
    }
    def pieces(name):
        """a session as list of groups of driver lines, one group per step"""
        out = []; pend = []
        for l in S[name][0]:
            if l.startswith("env "): pend.append(l)
            else: out.append(pend + [l]); pend = []
        return out
    cases = []
    def case(names, order, what):
        pos = [0] * len(names); lines = ["env LM_LOG @D", "env FAKE_CASE 0"]; where = []; live = [0] * len(names)
        ps = [pieces(n) for n in names]; script2 = None
        for n in names: script2 = script2 or S[n][2]
        n_live = 0
        for i in order:
            g = ps[i][pos[i]]; pos[i] += 1
            lines += ["slot %d" % i] + g; where.append(i)
            if g[-1].startswith("start") and not g[-1].endswith(("x", "false", "true")): live[i] = 1
            if g[-1] == "stop" or names[i].startswith("no such executable"): live[i] = 0
            if names[i] in ("dies", "garbage") and pos[i] >= 3: live[i] = None      # it ends (or waits for the end) by itself
            if g[-1] == "stop" and None not in live: lines.append("live %d" % sum(live)); where.append("live")
            elif g[-1] == "stop" and names[i] in ("dies", "garbage"): live[i] = 0; lines.append("live %d" % sum(live)); where.append("live")
            elif names[i].startswith("no such executable") and None not in live: lines.append("live %d" % sum(live)); where.append("live")
        lines.append("orphans")
        c = T.Case(what, lines, None, exe="", script2=script2); c.names, c.where, c.order = names, where, order; cases.append(c)
    def alone(n): case((n,), (0,) * len(pieces(n)), "session %s alone" % n)
    for n in S: alone(n)
    base_n = len(cases)
    pairs = [("A", "B"), ("A2", "unknown tool"), ("A2", "no such library"), ("A2", "no such executable"), ("A2", "dies"), ("A2", "garbage"), ("A without stop", "B without stop"), ("A2", "B2"), ("A2", "A2"), ("no such library", "no such executable")]
    for a, b in pairs:
        ms = list(merges([pieces(a), pieces(b)]))
        if not thorough:      # the longest pairs: only interleavings with few switches
            sw = lambda m: sum(m[i] != m[i - 1] for i in range(1, len(m)))
            if len(ms) > 900: ms = [m for m in ms if sw(m) <= 5 or sw(m) >= 11]
        for m in ms: case((a, b), m, "sessions %s (0) and %s (1), order %s" % (a, b, "".join(map(str, m))))
    tri = [("A without stop", "B2", "no such executable")] + ([("A2", "B2", "no such executable"), ("A without stop", "B without stop", "dies")] if thorough else [])
    for t in tri:
        for m in merges([pieces(x)[:4 if not thorough else 9] for x in t]):
            if not thorough and sum(m[i] != m[i - 1] for i in range(1, len(m))) > 4: continue
            case(t, m, "sessions %s, order %s" % (", ".join(t), "".join(map(str, m))))
    for n in (3, 4, 5, 8, 9, 16, 17) + ((32, 33) if thorough else ()):        # many sessions at once
        ns = tuple(("A2", "B2", "B")[i % 3] for i in range(n)); r = list(range(n)); ln = [len(pieces(x)) for x in ns]
        rounds = [i for k in range(max(ln)) for i in r if k < ln[i]]
        nested = [i for i in r for _ in range(ln[i] - 1)]
        case(ns, tuple(rounds), "%d sessions, step by step" % n)
        case(ns, tuple(nested + r), "%d sessions opened one after the other, closed in order" % n)
        case(ns, tuple(nested + r[::-1]), "%d sessions opened one after the other, closed in reverse" % n)
        case(ns, tuple(r + [i for i in r[::-1] for _ in range(ln[i] - 1)]), "%d sessions, used in reverse" % n)
    T.run(tool, fake, cases)
    def outcome(c, i):
        """what session i of the case saw: (call, ok, error?, message, size, sha) per call"""
        out = []
        for r, w in zip(c.res, c.where):
            if w == i: out.append((r["call"], r["ok"], r["err"], r.get("msg") if r["call"] != "start" else None, r.get("size"), r.get("read"), r.get("sha")))
        return out
    def lm(c):
        per = {}
        for l in (c.extra or "").splitlines(): p, e = l.split(" ", 1); per.setdefault(p, []).append(e)
        return sorted(per.values())
    base = {}; baselm = {}; states = set(); checked = 0
    for c in cases[:base_n]:
        why = T.abnormal(c); n = c.names[0]
        if why: rep.violation("%s: %s" % (c.name, why), c.dump()); continue
        base[n] = outcome(c, 0); baselm[n] = lm(c)
        # the sessions alone against what they must see
        lib = S[n][1]
        for l, o in zip([l for l in S[n][0] if not l.startswith("env")], base[n]):
            w = l.split()
            if w[0] == "file" and lib:
                d = data[lib][bytes.fromhex(w[1]).decode()]
                if (o[1], o[4], o[6]) != (1, len(d), T.sha(d)): rep.violation("%s: %s: %r" % (c.name, l, o), c.dump())
            elif w[0] == "file" and o[1]: rep.violation("%s: a file was delivered" % c.name, c.dump())
            elif w[0] == "start" and (o[1] == 1) != (n != "no such executable"): rep.violation("%s: start: %r" % (c.name, o), c.dump())
            elif w[0] == "feature" and lib and bool(o[1]) != (n != "B"): rep.violation("%s: feature: %r" % (c.name, o), c.dump())
        for ev in baselm[n]:
            if sum(e.startswith("new ") for e in ev) != sum(e.startswith("free ") for e in ev): rep.violation("%s: the licence manager is not released: %s" % (c.name, ev), c.dump())
    def judge(c):
        why = T.abnormal(c)
        if why: return why
        for r, w in zip(c.res, c.where):
            if w == "live" and not r["ok"]: return "after closing a session (or a failed start) %d executables keep running instead of the ones that are open" % r["err"]
        if c.orphans: return "%d executables keep running after the tool has ended" % c.orphans
        for i, n in enumerate(c.names):
            o = outcome(c, i)
            for k, (a, b) in enumerate(zip(o, base.get(n, o))):
                if a != b: return "session %s sees %r in call %d, alone it sees %r" % (n, a, k + 1, b)
        full = all(sum(x == i for x in c.order) == len(pieces(n)) for i, n in enumerate(c.names))
        if full and all(n in baselm for n in c.names):
            want = sorted(sum((baselm[n] for n in c.names), []))
            if lm(c) != want: return "the licence managers saw %r instead of %r" % (lm(c), want)
    for c in cases:
        if rep.full(): break
        if c.status is None: continue
        why = judge(c); checked += 1; states.add((c.names, c.order))
        if why: rep.violation("%s: %s" % (c.name, why), c.dump())
        elif checked % 401 == 1: rep.sample(c.name)
    rep.outcomes["interleavings of sessions"] = len(cases)
    # files kept open side by side, in one session and in two; the session may be closed while they are open
    fc = []
    def fcase(files, stops=True, orders=None):
        """files: (session, name, read sizes) each; all merges of their steps (or the given ones) x position of the end of the sessions"""
        ps = [["slot %d\nfopen %d " % (s, i) + H(f)] + ["fread %d %d" % (i, n) for n in reads] + ["ffree %d" % i] for i, (s, f, reads) in enumerate(files)]
        ns = 1 + max(s for s, f, r in files)
        for m in orders or merges(ps):
            opened = max(m.index(i) for i in range(len(ps)))
            for stop in [None] + (list(range(opened + 1, len(m) + 1, 1 if thorough else 2)) if stops else []):
                L = ["env LM_LOG @D"]; where = []
                for s, lib in ((0, 1), (1, 2))[:ns]: L += ["slot %d" % s, "start " + lve, "version 1 1", "libpath " + H(libs[lib - 1])]; where += ["pre"] * 3
                pos = [0] * len(ps)
                for j, x in enumerate(tuple(m) + (None,)):
                    if j == stop:
                        for s in range(ns): L += ["slot %d" % s, "stop"]; where.append("stop")
                        L.append("live 0"); where.append("live")
                    if x is None: break
                    l = ps[x][pos[x]]; pos[x] += 1; L += l.split("\n"); where.append((x, l.split("\n")[-1].split()))
                L.append("orphans")
                c = T.Case("%d open files of %d session(s), order %s, sessions closed %s" % (len(ps), ns, ",".join(map(str, m)) if len(ps) > 9 else "".join(map(str, m)), "at the end" if stop is None else "before step %d" % stop), L, None, exe="")
                c.where = where; c.content = [data[1 + s][f] for s, f, r in files]; fc.append(c)
    fcase(((0, "x.moc", (100, 5000, 1)), (0, "S/y.moc", (1, 5000))))
    fcase(((0, "x.moc", (100, 5000, 1)), (1, "x.moc", (700, 1000))))
    fcase(((0, "x.moc", (2000,)), (0, "t.txt", (5,)), (0, "package.moc", (400,))), stops=thorough)
    names = ("x.moc", "t.txt", "package.moc", "S/y.moc")
    for n in (4, 5, 8, 9, 16, 17, 32, 33, 60):      # many files at once: read in order, backwards, and each after the next was opened
        fs = [(i % 2, names[i % 4], (50, 20000)) for i in range(n)]; r = list(range(n)); back = r[::-1]
        fcase(fs, orders=[tuple(r * 4), tuple(r + back + back + back), tuple(r + [i for i in r for _ in range(3)]), tuple(r + [i for i in back for _ in range(3)])], stops=False)
        fcase(fs, orders=[tuple(r + r[::2] * 3 + r[1::2] * 3)], stops=False)
    if thorough: fcase(((0, "x.moc", (700, 700, 700, 1)), (1, "S/y.moc", (9000, 9000, 1)))); fcase(((0, "t.txt", (5, 20, 1)), (0, "package.moc", (5, 500, 1)))); fcase(((0, "x.moc", (2000,)), (1, "x.moc", (2000,)), (0, "x.moc", (2000,)), (1, "t.txt", ())), stops=False)
    T.run(tool, fake, fc)
    for c in fc:
        if rep.full(): break
        if c.status is None: continue
        checked += 1; why = T.abnormal(c); off = [0] * len(c.content)
        if not why and c.orphans: why = "%d executables keep running after the tool has ended" % c.orphans
        for r, w in zip(c.res, c.where):
            if why: break
            if w in ("pre", "stop", "live"):
                if not r["ok"]: why = "%s failed: %r" % (r["call"], r)
                continue
            k, l = w; d = c.content[k]
            if l[0] in ("fopen", "ffree"):
                if not r["ok"]: why = "%s failed: %r" % (l, r)
            else:
                n = int(l[2]); want = d[off[k]:off[k] + n] if off[k] < len(d) else None
                got = r.get("msg") if r["ok"] else None
                if got != want: why = "read %d of file %d at offset %d delivers %s instead of %s" % (n, k, off[k], got[:20] if got is not None else None, want[:20] if want is not None else None)
                off[k] += len(want or b"")
        if why: rep.violation("%s: %s" % (c.name, why), c.dump())
    rep.outcomes["interleavings of open files"] = len(fc)
    rep.assumptions = ["the calls of one tool are made one after the other (not in parallel threads)", "an executable counts as ended when its process has terminated"]
    return rep.finish(states=len(states), transitions=sum(len(c.res) for c in cases + fc), traces_validated_against_impl=checked, exhaustive=True)

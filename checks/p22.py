"""P22: every failing call and every change of the library between two calls of a request, within request histories on the real executable."""
import itertools, os, shutil
import vlib
from vlib import Step, msg
from checks import common

FN = ["fopen", "fread", "fclose", "stat", "malloc", "calloc", "realloc", "open", "read", "fstat", "lstat", "fseek", "ftell"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in FN + ["ferror"])]
BIG = 8192

def make(gen, name, tag):
    lib, content = common.std_library(gen, name)
    enc = vlib.build_encoder(gen); plain = vlib.sdir(name + "_more")
    big = lambda n: bytes((i * 131 + (i >> 8) * 17 + n + tag) & 255 for i in range(n))
    mo = {"package.mo": b"package L%d end L;" % tag + big(9000 + tag), "A/package.mo": b"package A%d" % tag + big(9100), "x.mo": b"model x%d" % tag + big(9200 - 300 * tag), "A/y.mo": b"model y%d" % tag + big(9400 + 200 * tag), "D/z.mo": b"z%d" % tag, "E/package.mo": b"E%d" % tag, "E/q.mo": b"q%d" % tag + big(9500)}
    vlib.write_tree(plain, mo); shutil.rmtree(lib); os.makedirs(lib)
    r = vlib.encrypt_tree(enc, plain, lib, ["package.mo", "A/package.mo", "E/package.mo", "x.mo", "A/y.mo", "D/z.mo", "E/q.mo"])
    if r.returncode: raise vlib.BuildError("encrypting failed: %s" % r.stderr.decode(errors="replace")[-3000:])
    other = {"big.txt": b"text %d " % tag + big(9700 - 500 * tag), "small.txt": b"small %d" % tag + b"s" * tag, "empty.txt": b"", "Z.txt": b"" if tag else b"not empty"}
    vlib.write_tree(lib, other)
    content = {k + "c": v for k, v in mo.items()}; content.update(other)
    return lib, content

def run(tier):
    rep = vlib.Report("P22", tier, "model_checking"); thorough = tier == "thorough"
    gen = vlib.gen_headers("p22"); exe = vlib.build_explorer("lvex_fault", gen, more=[vlib.HARN + "/lve_fault.c"], link=WRAP); env = {"FAULT_MIN": str(BIG)}
    lib, content = make(gen, "lib", 0); lib2, content2 = make(gen, "lib2", 1)        # two versions of one library: same files, other texts and key masks
    KM = 12
    checked = nhit = npath = 0; out = {}
    def alphabet(libpath):
        A = [Step(msg("VERSION", num=1)), Step(msg("LIB", libpath), name="LIB")]; word = [None, None]; req = {}
        for f in sorted(content) + ["nosuch.moc", "nosuch.txt", "A"]: req[f] = len(A); A.append(Step(msg("FILE", f.encode()), name="FILE " + f)); word.append(f)
        for w in ("FEATURE", "RETURNFEATURE", "LICENSE"): req[w] = len(A); A.append(Step(msg(w, b"f"), name=w)); word.append(w)
        return A, word, req
    def judge(A, word, fault, R, p, versions, lax=False):
        nonlocal checked, nhit
        n = R.nodes[p]; where = "session %s" % common.describe(A, p); rd = common.replay_data(A, p)
        if n.status == "died": rep.violation("%s: the executable crashed or hung; %s" % (where, (R.asan or [""])[0][:900]), rd); return
        if len(p) < 3: return
        f = word[p[-1]]; hit = "hit" in n.events; checked += 1; nhit += hit
        r, why = common.one_reply(n.reply or b"")
        if why: rep.violation("%s: %s" % (where, why), rd); return
        if f in content: exp = ("REP", "FILECONT", None, content[f])
        elif f in ("FEATURE", "RETURNFEATURE"): exp = ("REP", "YES", None, None)
        elif f == "LICENSE": exp = ("REP", "NOTSIMPLE", None, None)
        else: exp = ("ERRANY",)
        why = common.match(exp, r)
        if why and hit and f in content and r[0] == "FILECONT" and r[2] in versions(f, p[-1]): why = None
        if why and hit and r[0] == "ERROR": why = None
        if why and lax and r[0] == "ERROR": why = None
        if why: rep.violation("%s: %s" % (where, why[:500]), rd); return
        if hit:
            k = (fault[p[-1]], r[0]); out[k] = out.get(k, 0) + 1
            if nhit % 499 == 1: rep.sample({"session": common.describe(A, p), "reply": r[0]})
    def nodes(R): return [p for p in sorted(R.nodes, key=lambda p: (len(p), p)) if p and R.nodes[p].status != "unreached"]
    def hit(n): return "hit" in n.events or n.status == "died" or (n.end is not None and "hit" in n.end[1])
    # ---- failing calls: every call of every function during every request, after nothing and after every other request
    A, word, req = alphabet(lib.encode()); faulty = {}; fname = {}
    for r in list(req):
        for i, fn in enumerate(FN):
            for k in range(1, KM + 1):
                A.append(Step(A[req[r]].msg, op="F", a=i * 1000000 + k * 100, name="%s with call %d of %s failing" % (A[req[r]].name, k, fn))); word.append(r); faulty[len(A) - 1] = (r, fn, k); fname[len(A) - 1] = fn
    res = vlib.explore(exe, A, {(0, 1, f) for f in faulty}, env=env)
    pos = {}
    for p in nodes(res):
        if p[-1] in faulty and hit(res.nodes[p]): r, fn, k = faulty[p[-1]]; pos[r, fn] = max(pos.get((r, fn), 0), k)
    if any(k >= KM for k in pos.values()): rep.note = "more calls than enumerated"
    some = [f for f, (r, fn, k) in faulty.items() if k <= pos.get((r, fn), 0) + 1]      # later in a session fewer files are read
    seqs = {(0, 1, q, f) for q in req.values() for f in some}
    seqs |= {(0, 1, f, a) for f in some for a in req.values()}
    pairs = [f for f in some if faulty[f][0] in ("x.moc", "A/y.moc", "D/z.moc", "E/q.moc", "package.moc", "A/package.moc", "small.txt")]
    for f in pairs:
        for g in pairs if thorough else [g for g in pairs if faulty[g][0] in ("A/y.moc", "x.moc")]: seqs.add((0, 1, f, g, req[faulty[f][0]], req[faulty[g][0]]))
        for a, b in itertools.product([req[x] for x in ("x.moc", "A/y.moc", "D/z.moc", "A/package.moc")], repeat=2): seqs.add((0, 1, f, a, b)); seqs.add((0, 1, a, f, b))
    # the same failure again and again
    for f in some: seqs.add((0, 1) + (f,) * 4 + (req[faulty[f][0]],))
    res2 = vlib.explore(exe, A, seqs, env=env); npath += len(seqs)
    for R in (res, res2):
        for p in nodes(R):
            if rep.full(): break
            judge(A, word, fname, R, p, lambda f, s: ())
    # ---- changes: at every call of every request the file, its package file or the whole directory is exchanged, moved away or rewritten
    A, word, req = alphabet(b"."); fname = {}; W = vlib.sdir("p22w"); J = vlib.NPROC
    for i in range(J): shutil.copytree(lib, "%s/%d/cur" % (W, i)); shutil.copytree(lib2, "%s/%d/new" % (W, i))
    acts = []
    for f in ("x.moc", "A/y.moc", "A/package.moc", "package.moc", "big.txt", "small.txt", "Z.txt", "E/q.moc"):
        acts += [("x", f, "../new/" + f), ("m", f, f + ".away"), ("w", f, "../new/" + f)]
    acts += [("x", "A", "../new/A"), ("m", "A", "A.away"), ("x", "x.moc", "A/y.moc"), ("x", "A", "E"), ("x", "big.txt", "small.txt"), ("x", "A/package.moc", "E/package.moc"), ("w", "small.txt", "../new/empty.txt"), ("w", "x.moc", "../new/empty.txt"), ("w", "A/package.moc", "../new/empty.txt")]
    io = [i for i, fn in enumerate(FN) if fn in ("fopen", "fread", "fclose", "stat", "open", "read", "fstat", "lstat")]
    ch = {}
    for r in sorted(content) + ["nosuch.moc"]:
        for i in io:
            for k in range(1, 5):
                if FN[i] in ("open", "read", "fstat", "lstat") and (r, FN[i]) not in pos: continue
                for n, (t, a, b) in enumerate(acts):
                    A.append(Step(A[req[r]].msg, op="F", a=i * 1000000 + k * 100 + n + 1, name="%s, before call %d of %s: %s" % (A[req[r]].name, k, FN[i], {"x": "%s and %s are exchanged", "m": "%s is moved to %s", "w": "%s is rewritten with %s"}[t] % (a, b)))); word.append(r); ch[len(A) - 1] = (r, n); fname[len(A) - 1] = "changed at " + FN[i]
    whole = set(content.values()) | set(content2.values())        # any complete text that was at the path; a text rewritten in place can be seen half way
    def pool(f, step): return whole | {t[:k] for t in (content[f], content2[f]) for k in range(0, len(t) + 1)} if f.endswith(".txt") and acts[ch[step][1]][0] == "w" else whole
    seqs = {(0, 1, f, req[ch[f][0]]) for f in ch} | {(0, 1, req[ch[f][0]], f, req["A/y.moc"]) for f in ch} | {(0, 1, req["package.moc"], f, req["x.moc"]) for f in ch}
    if thorough: seqs |= {(0, 1, req[a], f, req[b]) for f in ch for a in ("x.moc", "A/y.moc", "A/package.moc") for b in ("x.moc", "A/y.moc", "E/q.moc")}
    res3 = vlib.explore(exe, A, seqs, env=env, extra=["chdir %s/@ID@/cur" % W] + ["act %s %s %s" % a for a in acts]); npath += len(seqs)
    for p in nodes(res3):
        if rep.full(): break
        # a key mask read from the other version stays in use: later requests may then be refused, but never give anything but the file
        judge(A, word, fname, res3, p, pool, lax=any(i in ch for i in p[:-1]))
    rep.outcomes = {"%s -> %s" % k: v for k, v in sorted(out.items())}
    if not any(k[1] == "FILECONT" for k in out) or not any(k[1] == "ERROR" for k in out): rep.violation("vacuous: %s" % out)
    rep.assumptions = ["only allocations of %d bytes and more fail (a file too large for the memory)" % BIG, "changes of the library happen between two calls of the executable"]
    return rep.finish(states=nhit, transitions=len(A), traces_validated_against_impl=checked, exhaustive=True, sessions=npath)

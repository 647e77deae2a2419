"""P20: runs the real packaging tool for enumerated command lines; a decision table gives acceptance, and accepted values are read back."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import packlib as K, p17

OPT = ["librarypath", "enabled", "title", "description", "version", "build", "date", "language", "copyright", "license", "encrypt", "icon", "tools", "dependencies"]
MAND = ("librarypath", "version", "language")
HEAD, TOOLS = p17.HEAD, b'<compatibility>\n  <tool name="A" minversion="1.0"/>\n</compatibility>\n'
DEPS = b'<dependencies>\n  <dependency id="D"/>\n</dependencies>\n'
TREE = {"package.mo": b"package P end P;", "i.png": b"x", "S/j.png": b"y"}
# names of files in a command line: (word, kind)
FILES = {"@lib": "dir", "@icon": "file", "@tools": "file", "@deps": "file", "@nolib": None, "@noicon": None, "@notools": None, "@libfile": "file", "@lib/": "dir", "@lib//": "dir", "@lib/.": None, "@rel": "dir", "@rel/": "dir", "@nodir/x": None, "@dots": "dir"}

def decide(words, lves):
    """'help', 'reject' or the accepted values; the arguments decide alone, so that this is the specification of the parser"""
    if any(w in ("-h", "--help") for w in words): return "help"
    if not words: return "reject"
    v = {}; i = 0
    while i < len(words):
        w = words[i]
        if not w.startswith("-") or w[1:] not in OPT or w[1:] in v: return "reject"
        if i + 1 >= len(words) or words[i + 1] == "": return "reject"
        v[w[1:]] = words[i + 1]; i += 2
    if any(m not in v for m in MAND): return "reject"
    if FILES.get(v["librarypath"]) != "dir": return "reject"
    for o in ("icon", "tools", "dependencies"):
        if o in v and FILES.get(v[o]) is None: return "reject"
    if v.get("encrypt", "").lower() == "true" and not lves: return "reject"
    for o in ("icon", "tools", "dependencies"):
        if o in v and FILES[v[o]] == "dir" or o == "icon" and v.get(o) in ("@tools", "@deps"): return "late"    # exists, but is not usable: found later
    return v

def run(tier):
    rep = vlib.Report("P20", tier, "model_checking"); thorough = tier == "thorough"
    P = K.Pack("p20"); checked = 0; jobs = {}; sizes = {}
    def job(cls, words, lves=("lve_linux64",)):
        k = (tuple(words), tuple(lves))
        if k not in jobs: jobs[k] = cls; sizes[cls] = sizes.get(cls, 0) + 1
    def do(k):
        words, lves = k; d = P.case(); os.makedirs(d + "/cwd"); want = decide(words, lves); rel = any(w.startswith("@rel") for w in words)
        src = d + ("/cwd/Lib" if rel else "/src/Lib")
        sub = {"@lib": src, "@lib/": src + "/", "@lib//": src + "//", "@lib/.": src + "/.", "@icon": src + "/i.png", "@tools": d + "/tools.xml", "@deps": d + "/deps.xml", "@nolib": d + "/src/Nope", "@noicon": src + "/nope.png", "@notools": d + "/nope.xml",
               "@libfile": src + "/i.png", "@rel": "Lib", "@rel/": "./Lib", "@nodir/x": d + "/nope/Lib", "@dots": d + "/src/../src/Lib"}
        if any(w.startswith("@") for w in words) or want not in ("help", "reject", "late"): vlib.write_tree(src, TREE)
        if "@tools" in words: open(d + "/tools.xml", "wb").write(HEAD + TOOLS)
        if "@deps" in words: open(d + "/deps.xml", "wb").write(HEAD + DEPS)
        r = K.run(P, d, P.conf(lves), [sub.get(w, w) for w in words])
        left = [f for f in r.files if not (rel and f == "Lib")]; why = None
        if K.CRASH(r.rc): why = "crash or hang (status %d): %s" % (r.rc, r.out[-900:])
        elif want == "help":
            if r.rc or left or r.tmp: why = "a help request ended with status %d, files %s, temporary files %s" % (r.rc, left, r.tmp)
            elif b"librarypath" not in r.out: why = "a help request printed no help: %r" % r.out[-200:]
        elif want == "reject":
            if r.rc == 0: why = "an invalid command line was accepted"
            elif left or r.tmp: why = "rejected (status %d), but files were created: %s %s" % (r.rc, left, r.tmp)
        elif want == "late":
            if r.rc == 0: why = "an unusable file was accepted"
            elif left: why = "rejected (status %d), but files were created: %s" % (r.rc, left)
        elif r.rc: why = "a valid command line was rejected (status %d): %s" % (r.rc, r.out[-300:])
        elif left != ["Lib.mol"] or r.archive is None: why = "no complete archive Lib.mol: files %s" % left
        else:
            m = [a[2] for a in r.archive if a[0] == "Lib/.library/manifest.xml"]
            enc = want.get("encrypt", "").lower() == "true"
            if len(m) != 1: why = "%d manifests" % len(m)
            elif enc != any(a[0] == "Lib/package.moc" for a in r.archive): why = "the library is %sencrypted" % ("not " if enc else "")
            else:
                given = {o: sub.get(w, w) for o, w in want.items()}
                try: why = p17.check(m[0], "Lib", given, lves if enc else (), [given["icon"].split("/Lib/")[-1]] if "icon" in want else None, [{"@tools": TOOLS, "@deps": DEPS}.get(want[o], b"") for o in ("tools", "dependencies") if o in want])
                except Exception as e: why = "unexpected structure (%s): %r" % (e, m[0][:600])
                if why: why = "accepted, but with other values: " + why
        K.clean(d); return k, want, r, why
    VAL = {"librarypath": "@lib", "icon": "@icon", "tools": "@tools", "dependencies": "@deps", "encrypt": "true", "enabled": "false"}
    val = lambda o: VAL.get(o, "v " + o)
    near = ["title", "version", "librarypath", "--title", "--version", "--librarypath", "-Title", "-VERSION", "-titles", "-titl", "-versio", "-version ", " -version", "- version", "-", "--", "---", "", "-x", "/title", "-lib", "-librarypat", "-language=3", "-version=1", "\u2013title", "-helpme", "-help", "--h", "help", "-H", "--HELP", "-?"]
    plain = ["v", "true", "@lib", "@icon", "@nolib", "x" * 3000, "-h", "--help", "%s%n"]
    W = ["-" + o for o in OPT] + near + plain
    job("no words", [])
    for w in W: job("one word", [w])
    for a, b in itertools.product(W, repeat=2): job("two words", [a, b])
    base = [["-" + o, val(o)] for o in MAND]
    full = [["-" + o, val(o)] for o in OPT]
    flat = lambda ps: [w for p in ps for w in p]
    # every order and subset of the mandatory options, with each other option
    for k in range(0, 4):
        for s in itertools.permutations(base, k):
            job("mandatory options", flat(s))
            for o in OPT:
                if o not in MAND:
                    for pos in range(k + 1): job("mandatory options", flat(list(s[:pos]) + [["-" + o, val(o)]] + list(s[pos:])))
    # every single word inserted, replaced, removed, swapped, doubled
    for ps, ws in ((base, W), (full, W if thorough else W[14:] + ["-title", "-version"])):
        b = flat(ps)
        for i in range(len(b) + 1):
            job("word inserted", b[:i] + [""] + b[i:])
            for w in ws: job("word inserted", b[:i] + [w] + b[i:])
        for i in range(len(b)):
            job("word removed", b[:i] + b[i + 1:])
            for w in ws: job("word replaced", b[:i] + [w] + b[i + 1:])
            for k in range(i + 1, len(b)): c = list(b); c[i], c[k] = c[k], c[i]; job("words exchanged", c)
        for i in range(len(ps)):
            for o in OPT:
                for v in (val(o), "other", "", "-" + o):
                    job("option added", flat(ps[:i] + [["-" + o, v]] + ps[i:]))
            job("option removed", flat(ps[:i] + ps[i + 1:]))
        for i in range(len(ps) + 1):
            for n in near: job("near-miss option added", flat(ps[:i] + [[n, "v"]] + ps[i:]))
            for h in ("-h", "--help"): job("help anywhere", flat(ps[:i] + [[h]] + ps[i:])); job("help anywhere", flat(ps[:i] + [["-title", h]] + ps[i:]))
        for k in range(len(b)): job("line cut off", b[:k])
        for r in range(1, len(ps)): job("rotated", flat(ps[r:] + ps[:r]))
    for a, b in itertools.permutations(range(len(full)), 2) if thorough else zip(range(13), range(1, 14)):
        c = list(full); c[a], c[b] = c[b], c[a]; job("options exchanged", flat(c)); job("options removed", flat([p for i, p in enumerate(full) if i not in (a, b)]))
    # every pair of an option and a special value; values that look like options
    sp = ["-title", "-version", "--title", "title", "-", "--", " ", "@nolib", "true", "0", "-h ", "--help=1", "\u00e9", "v"]
    for o in OPT:
        if o in ("librarypath",): continue
        for w in sp:
            job("special values", flat([p if p[0] != "-" + o else ["-" + o, w] for p in base] + ([] if o in MAND else [["-" + o, w]])))
    if thorough:
        for a, b in itertools.product(OPT, repeat=2):
            for w, x in itertools.product(sp[:5], repeat=2): job("special values", flat([p for p in base if p[0] not in ("-" + a, "-" + b)] + [["-" + a, w], ["-" + b, x]]))
    # files that do not exist, and the spellings of the library's path
    for l in FILES:
        if l in ("@lib/.",): continue
        for o in MAND: job("files", flat([p if p[0] != "-librarypath" else ["-librarypath", l] for p in base]))
        for perm in itertools.permutations([["-librarypath", l]] + base[1:]): job("files", flat(perm)); job("files", flat(list(perm) + [["-encrypt", "true"]]))
    for ic, t, dp in itertools.product([None, "@icon", "@noicon"], [None, "@tools", "@notools"], [None, "@deps", "@notools"]):
        for l in ("@lib", "@nolib", "@lib/"):
            ps = [["-librarypath", l]] + base[1:] + [["-" + o, v] for o, v in (("icon", ic), ("tools", t), ("dependencies", dp)) if v]
            job("files", flat(ps)); job("files", flat(ps[::-1]))
    # encryption without executables
    for e in ("true", "TRUE", "True", "tRUE", "false", "no", "truex", "t", "tru", "", "1", "yes", "true ", " true", "rue", "true,true"):
        for lv in ((), ("lve_linux64",), ("lve_win32.exe",)):
            for perm in itertools.permutations(base + [["-encrypt", e]]) if thorough else [base + [["-encrypt", e]], [["-encrypt", e]] + base]: job("encryption", flat(perm), lv)
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for k, want, r, why in ex.map(do, list(jobs)):
            checked += 1; rep.outcome("help" if want == "help" else "rejected" if want == "reject" else "unusable file reported" if want == "late" else "accepted, values read back")
            if why and not rep.full(): rep.violation("%s: packagetool %s: %s" % (jobs[k], " ".join(repr(w[:60]) for w in k[0])[:700], why), {"words": k[0], "executables": k[1]})
            elif checked % 997 == 1: rep.sample({"words": [w[:40] for w in k[0]], "exit": r.rc})
    rep.outcomes.update({"class " + k: v for k, v in sizes.items()})
    rep.assumptions = ["the zip library is replaced by a stand-in with the same calls", "files named on the command line are given by absolute paths, or relative to the working directory"]
    return rep.finish(evaluations=checked, distinct_nontrivial=checked, rule="one run of the real tool per distinct command line; acceptance decided by a table, values read back from the archived manifest", exhaustive=True)

"""P15: packages every small library tree with the real packaging tool and compares the archive with the source."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import cryptlib as C, packlib as K, toollib as TL

NAMES = ["package.mo", "a.mo", "B.MO", "data.txt", ".hidden", "noext", "Sub/package.mo", "Sub/x.mo", "Sub/pic.png", "Sub/Deep/y.mo", "Sub/Deep/package.mo", "Res/r.mo.txt",
         "dir.mo/z.mo", "w \u00e4 b.mo", ".mo", ".library/old.txt", "Sub/.library/old.txt", "Empty/", "old.moc", "zero.mo", "big.mo", "Package.mo", "Sub/PACKAGE.MO", "package.order", "Sub/mo", "x.mos", "Sub/a.moc.txt"]
DATA = {k: ("// content of %s\nmodel M end M;\n" % k).encode() for k in NAMES}
DATA["zero.mo"] = b""; DATA["big.mo"] = TL.pattern(70000); DATA["Sub/pic.png"] = bytes(range(256)) * 40; DATA["Sub/Deep/package.mo"] = b""
CASEVAR = {"Package.mo", "Sub/PACKAGE.MO"}

def run(tier, rep=None, pack=None):
    """with a report of another property: only what packaging leaves behind is judged, and the number of runs returned"""
    traces = rep is not None; rep = rep or vlib.Report("P15", tier, "model_checking"); thorough = tier == "thorough"
    P = pack or K.Pack("p15"); checked = 0; shapes = set(); TREES = {}
    big = [n for n in NAMES if n not in CASEVAR and n != "old.moc"]
    trees = [(s, "") for r in range(0, 4 if thorough else 3) for s in itertools.combinations(NAMES, r)]
    trees += [(tuple(x for x in big if x != y), "") for y in big] + [(tuple(big), "")]
    confs = [((), ()), (("lve_linux64",), ()), (("lve_linux64", "lve_win64.exe"), (("extra.dll", b"dll" * 100), ("sub/more.so", b"so"))), (tuple(K.LVES), ())]
    jobs = []
    for t, _ in trees:
        for enc in (True, False): jobs.append((t, enc, confs[1] if enc else confs[0], "0", None, "Lib", "abs"))
    # listing orders: every permutation of small directories, at one level and at two
    for t in (("package.mo", "a.mo", "Sub/x.mo"), ("package.mo", "Sub/package.mo", "Sub/x.mo"), ("Sub/Deep/package.mo", "Sub/Deep/y.mo", "Sub/package.mo", "a.mo")):
        for o in range(720 if thorough else 120): jobs.append((t, True, confs[1], str(o), None, "Lib", "abs"))
    for o in ("0", "1", "5", "r0", "r7"):
        for t in (tuple(big), tuple(big[:9])):
            for enc in (True, False):
                for dt in (None, "unknown"):
                    for cf in confs[1:]: jobs.append((t, enc, cf, o, dt, "Lib", "abs"))
    # names of the library and ways to write its path
    for nm in ("Lib", "L", "My Lib 1.0", "Lib.mo", "\u00c4lib", "n" * 150, "tmp", "package.mo"):
        for how in ("abs", "slash", "slashes", "rel", "relslash", "dot"):
            for enc in (True, False): jobs.append((("package.mo", "a.mo", "Sub/package.mo", "Sub/x.mo", "data.txt"), enc, confs[1], "0", None, nm, how))
    # every name of a few tokens, as file and as directory, in one library
    TOK = [".", "mo", "MO", "c", "a", "package", "library", "~", " ", "-", "_", "mos"]
    def names(k): return {"".join(t) for r in range(1, k + 1) for t in itertools.product(TOK, repeat=r)}
    def usable(ns): return sorted(n for n in ns if n not in (".", "..", ".library") and n.lower() != "package.mo" and not (n[-1] == "c" and os.path.splitext("x" + n[:-1])[1].lower() == ".mo"))
    allf = usable(names(4 if thorough else 3)); alld = usable(names(3 if thorough else 2))
    def addtree(files):
        t = ("#%d" % len(TREES),); TREES[t] = files; return t
    for top in (True, False):
        for pk in (True, False):
            f = {(n if top else "Sub/" + n): b"// the file " + n.encode() * 3 for n in allf}
            if pk: f["package.mo" if top else "Sub/package.mo"] = b"package P end P;"
            for enc in (True, False): jobs.append((addtree(f), enc, confs[1], "0", None, "Lib", "abs"))
    f = {}
    for n in alld: f["D%s/f.mo" % n] = f["%s/f.mo" % n] = f["Sub/%s/f.txt" % n] = b"// in directory " + n.encode() * 3
    for enc in (True, False): jobs.append((addtree(f), enc, confs[1], "0", None, "Lib", "abs"))
    # every size around the block and buffer limits
    f = {"s%d.%s" % (n, x): TL.pattern(n) for n in list(range(0, 1100)) + [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20] for x in ("mo", "txt")}
    for enc in (True, False): jobs.append((addtree(f), enc, confs[1], "0", None, "Lib", "abs"))
    LINKS, MODES = {}, {}
    if traces:      # libraries with links, with odd permissions, very deep ones
        for name, lk in (("link to a file", {"l.mo": "../../other/f.mo", "Sub/l.txt": "../../../other/f.mo"}), ("link to a directory", {"Sub/L": "../../../other", "K": "../../other"}), ("dangling link", {"no.mo": "nowhere", "Sub/no": "/nonexistent/x"}),
                         ("link to itself", {"me": "me", "Sub/up": "..", "Sub/root": "../.."}), ("link as library folder", {".library": "../../other"}), ("link in place of the package file", {"Sub/package.mo": "../a.mo"})):
            for enc in (True, False):
                t = addtree({"package.mo": b"package P end P;", "a.mo": b"model a end a;", "Sub/x.mo": b"model x end x;", "t.txt": b"text"}); LINKS[t] = lk; jobs.append((t, enc, confs[2], "0", None, "Lib", "abs"))
        for fm in (0o644, 0o444, 0o400, 0o600, 0o755, 0o4755, 0o000):
            for dm in (0o755, 0o555, 0o700, 0o500):
                for enc in (True, False): t = addtree({"package.mo": b"package P end P;", "a.mo": b"model a end a;", "Sub/package.mo": b"package S end S;", "Sub/x.mo": b"model x end x;", "Sub/t.txt": b"text"}); MODES[t] = (fm, dm); jobs.append((t, enc, confs[1], "0", None, "Lib", "abs"))
        st = {"package.mo": b"package P end P;", "a.mo": b"model a end a;", "Sub/package.mo": b"package S end S;", "Sub/x.mo": b"model x end x;", "icon.png": b"icon"}
        for old in ({k + "c": b"an older encrypted " + k.encode() for k in st if k.endswith("mo")}, {".library/manifest.xml": b"<old/>", ".library/lve_linux64": b"old", "Sub/.library/manifest.xml": b"<old/>"},
                    {"a.moc": b"", "manifest.xml": b"<mine/>", "Lib.mol": b"an older archive", "lve_linux64": b"mine"}, {"Lib/package.mo": b"package P end P;", "Lib/package.moc": b"old"}):
            for enc in (True, False):
                for cf in confs[1:3]:
                    for o in ("0", "r0"): jobs.append((addtree(dict(st, **old)), enc, cf, o, None, "Lib", "abs"))
        for n in (10, 40, 120):
            for enc in (True, False): jobs.append((addtree({"/".join(["d" * 20] * n) + "/" + f: b"deep " + f.encode() for f in ("a.mo", "t.txt", "package.mo")}), enc, confs[1], "0", None, "Lib", "abs"))
    # existing files in the working directory
    def do(j):
        t, enc, cf, order, dt, name, how = j
        d = P.case(); src = os.path.join(d, "src", name); os.makedirs(src); cwd = d + "/cwd"; os.makedirs(cwd)
        files = TREES[t] if t in TREES else {k: DATA[k] for k in t if not k.endswith("/")}
        vlib.write_tree(src, files)
        for k in t:
            if k.endswith("/"): os.makedirs(os.path.join(src, k))
        if t in LINKS:
            vlib.write_tree(d + "/other", {"f.mo": b"not part of the library", "sub/g.txt": b"nor this"})
            for k, to in LINKS[t].items(): os.path.lexists(os.path.join(src, k)) or os.symlink(to, os.path.join(src, k))
        if traces and P.user:
            for a, dn, fn in os.walk(d + "/src"):
                for x in [a] + [os.path.join(a, y) for y in fn]: os.chown(x, K.NOBODY, K.NOBODY, follow_symlinks=False)
        if t in MODES:
            for a, dn, fn in os.walk(d + "/src", topdown=False):
                for x in fn + dn:
                    os.chmod(os.path.join(a, x), MODES[t][x in dn])
        look = lambda: {q: K.snapshot(d + q) for q in ("/src", "/other") if os.path.isdir(d + q)} if traces else C.snapshot(d + "/src")
        before = look(); tb = K.snapshot(P.conf(*cf)) if traces else None
        lp = {"abs": src, "slash": src + "/", "slashes": src + "///", "rel": "../src/" + name, "relslash": "../src/" + name + "/", "dot": d + "/src/./" + name}[how]
        if order.endswith("1"): open(cwd + "/" + name + ".mol", "wb").write(b"an older archive" * 1000)
        env = {"PT_ORDER": order}
        if dt: env["PT_DTYPE"] = dt
        r = K.run(P, d, P.conf(*cf), ["-librarypath", lp, "-version", "1.0", "-language", "3.2"] + (["-encrypt", "true"] if enc else []), env=env, name=name)
        why = None
        exp = K.expected(files, name, enc, cf[0], cf[1])
        if K.CRASH(r.rc): why = "crash or hang (status %d): %s" % (r.rc, r.out[-900:])
        elif r.escapes: why = "it changed files outside its directories: %s" % r.escapes[:3]
        elif look() != before: why = "the source library was changed"
        elif traces:
            if K.snapshot(P.conf(*cf)) != tb: why = "the tool's own folder was changed"
            elif r.left: why = "exit %d, temporary files are left: %s" % (r.rc, r.left[:4])
            elif set(r.files) - {name + ".mol"}: why = "exit %d, other files in the working directory: %s" % (r.rc, r.files)
        elif r.rc == 0:
            why = K.compare(P, d, r.archive, exp, name)
            if why is None and r.left: why = "temporary files are left: %s" % r.left[:4]
            if why is None and r.files != [name + ".mol"]: why = "other files in the working directory: %s" % r.files
        elif not (enc and CASEVAR & set(t)): why = "exit %d: %s" % (r.rc, r.out[-300:])
        if t in MODES: os.system("chmod -R u+rwX %s" % d)
        K.clean(d)
        return j, r.rc, why
    jobs.sort(key=lambda j: j[0] not in TREES)         # the large ones first
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for (t, enc, cf, order, dt, name, how), rc, why in ex.map(do, jobs):
            checked += 1; shapes.add((t, enc))
            rep.outcome("packaged" + (" encrypted" if enc else " in clear") if rc == 0 else "refused")
            if why and not rep.full(): rep.violation("packaging %s %s, listing order %s%s, library %s (%s): %s" % (list(t)[:12], "encrypted" if enc else "in clear", order, ", entry types " + dt if dt else "", name, how, why),
                                                     {"files": list(t), "encrypted": enc, "order": order, "name": name, "path": how})
            elif checked % 401 == 1: rep.sample({"files": list(t)[:6], "encrypted": enc, "order": order, "exit": rc})
    if traces: return checked
    rep.assumptions = ["the zip library is replaced by a stand-in with the same calls", "regular files and directories only (no links or devices)", "a stale .moc next to its .mo is replaced"]
    return rep.finish(evaluations=checked, distinct_nontrivial=len(shapes), trees=len(trees), exhaustive=True,
                      rule="every set of up to %d names of %d, all names, all but one; every listing order of three small trees; names and spellings of the library path; every name of up to %d tokens of %d, as file and as directory; every size up to 1100; distinct = (tree, encryption)" % (3 if thorough else 2, len(NAMES), 4 if thorough else 3, len(TOK)))

"""P09: every command line up to a length over a word alphabet x licence manager answers, run on the real main()."""
import glob, itertools, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib

def classify(argv, isdir):
    """The documented meaning: ('feature', f, path) | 'info' | 'session' | 'bad'."""
    f = p = None; i = 0
    while i < len(argv):
        w = argv[i]
        if w in (b"--checkout-feature", b"--libpath"):
            if i + 1 >= len(argv): return "bad"
            v = argv[i + 1]; i += 2
            if w == b"--checkout-feature":
                if f is not None: return "bad"
                f = v
            else:
                if p is not None: return "bad"
                p = v
        elif w in (b"--version", b"--help"): return "info" if len(argv) == 1 else "bad"
        else: return "bad"
    if f is None: return "session"
    if p is None or not isdir(p): return "bad"
    return ("feature", f, p)

def run(tier):
    rep = vlib.Report("P09", tier, "model_checking")
    gen = vlib.gen_headers("p09")
    wd = vlib.sdir("p09cwd"); os.makedirs(wd + "/sub dir"); open(wd + "/file", "w").write("x"); os.symlink(wd + "/sub dir", wd + "/link"); os.symlink(wd + "/none", wd + "/dangling")
    nl = wd + "/a\nb"; os.makedirs(nl); deep = wd + ("/" + "d" * 200) * 3; os.makedirs(deep)
    isdir = lambda p: bool(p) and b"\0" not in p and os.path.isdir(os.path.join(wd.encode(), p))
    C, L, V, H = b"--checkout-feature", b"--libpath", b"--version", b"--help"
    d = (wd + "/sub dir").encode()
    words = [C, L, V, H, b"feat", d, b"", b"--bogus"]
    maxlen = 5 if tier == "thorough" else 4
    cases = []
    def add(argv, new=1, ans=1): cases.append((tuple(argv), new, ans))
    for n in range(maxlen + 1):
        for a in itertools.product(words, repeat=n): add(a)
    # all well formed checkouts (both orders) with every value pair and every manager answer
    feats = [b"feat", b"Feat", b"f", b"", b"a b", b"12", b"12\nx", b"\n", b"%s%n", b"--libpath", b"--help", b"-", b"x" * 255, b"x" * 1024, b"y" * 5000, b"\xc3\xa5\xff", b" feat ", b"feat\n"]
    paths = [d, d + b"/", d + b"///", b"sub dir", b".", b"./", b"..", b"file", b"file/", b"none", b"", b"link", b"link/", b"dangling", b"a\nb", deep.encode(), b"--help", b"/nonexistent-x/y", b"/", b"x" * 5000]
    answers = [(1, 1), (1, 0), (0, 1), (0, 0), (1, 2), (1, 3), (1, 6), (3, 1), (6, 1), (2, 0)]
    for f in feats:
        for p in paths:
            for k in answers:
                add((C, f, L, p), *k); add((L, p, C, f), *k)
    # one extra, one missing, one duplicated word around a well formed checkout
    good = (C, b"feat", L, d)
    for i in range(5):
        for w in words + [b"--checkout-feature=feat", b"--LIBPATH", b"-h"]:
            for k in answers[:3]: add(good[:i] + (w,) + good[i:], *k)
    for i in range(4):
        for k in answers[:3]: add(good[:i] + good[i + 1:], *k)
    for k in answers[:3]:
        for x in ((C, b"feat"), (C, b"other"), (L, d), (L, b"none"), (V,), (H,)):
            for pos in (0, 2, 4): add(good[:pos] + x + good[pos:], *k)
        for w in (V, H, b"--bogus", b"feat"): 
            add((w,), *k); add((w, w), *k)
        for a in (("--Version",), ("--versio",), ("--help ",), ("-help",), ("--libpathx", d), ("--checkout-featurex", "f", "--libpath", d)):
            add([x.encode() if isinstance(x, str) else x for x in a], *k)
    cases = list(dict.fromkeys(cases))
    checked = 0; distinct = set()
    for tag, flags, glob_feat in (("plain", [], None), ("global", ["-DMLLE_GLOBAL_LICENSE_FEATURE=glob_feat"], "glob_feat")):
        cs = cases if tag == "plain" or tier == "thorough" else [c for c in cases if len(c[0]) == 4 and c[0][0] in (C, L)][:4000]
        exe = vlib.build("lvecli_" + tag, vlib.lve_sources() + [vlib.HARN + "/cli_run.c"], gen, flags=flags)
        parts = [cs[i::vlib.NPROC] for i in range(vlib.NPROC)]
        def one(i):
            b = vlib.sdir("p09", tag + str(i)); cf, of = b + "/cases", b + "/out"
            with open(cf, "w") as f:
                for a, n, k in parts[i]: f.write("c %d %d %s\n" % (n, k, "|".join(x.hex() for x in a) + ("|" if a and a[-1] == b"" else "")))
            r = subprocess.run([exe, cf, of], cwd=wd, env=vlib.san_env(log=b + "/asan"), stdin=subprocess.DEVNULL, capture_output=True)
            if r.returncode: raise vlib.BuildError("case runner failed %d: %s" % (r.returncode, r.stderr[-1500:]))
            out = []; ev = []
            for l in open(of, errors="surrogateescape", newline="\n").read().split("\n"):
                if l.startswith("r ") : out.append((int(l[2:]), ev)); ev = []
                elif l: ev.append(l)
            logs = [open(f, errors="replace").read()[:1200] for f in sorted(glob.glob(b + "/asan*"))]
            return out, logs
        with ThreadPoolExecutor(vlib.NPROC) as ex: res = list(ex.map(one, range(len(parts))))
        for part, (out, logs) in zip(parts, res):
            if len(out) != len(part) and not any(st == 256 + 14 for st, _ in out): raise vlib.BuildError("case runner answered %d of %d cases" % (len(out), len(part)))
            for (argv, new, ans), (st, ev) in zip(part, out):
                checked += 1
                m = classify(argv, isdir); ev = [e for e in ev if e[:3] in ("co ", "ci ")]
                why = None
                if st > 255 or st == 99: why = "crash or hang (status %d) %s" % (st, (logs or [""])[0])
                elif isinstance(m, tuple):
                    f = m[1]; want = "co %d %s" % (len(f), f.hex())
                    calls = [e.strip() for e in ev if not (glob_feat and e.strip() == "co %d %s" % (len(glob_feat), glob_feat.encode().hex()) and f != glob_feat.encode())]
                    granted = new == 1 and ans == 1
                    if st == 0 and not (granted and calls == [want.strip()]): why = "exit 0, but the manager was asked %s (set-up answer %d, answer %d), expected exactly %s granted" % (calls, new, ans, want)
                    elif st != 0 and granted and f: why = "exit %d although the feature would be granted; calls %s" % (st, calls)
                    elif any(c != want.strip() for c in calls): why = "the manager was asked %s instead of %s" % (calls, want)
                    rep.outcome("granted" if st == 0 else "refused")
                elif m == "info":
                    if st != 0 or ev: why = "a lone %s exits %d, licence calls %s" % (argv[0], st, ev)
                    rep.outcome("info")
                elif m == "session":
                    if ev: why = "a session start without any request asks the licence manager: %s" % ev
                    rep.outcome("session")
                else:
                    if st == 0: why = "exit 0"
                    elif ev: why = "an invalid command line asks the licence manager: %s" % ev
                    rep.outcome("rejected")
                distinct.add((m if isinstance(m, str) else "feature", st, len(ev), new, ans))
                if why: rep.violation("%s build, command line %s, manager (%d,%d): %s" % (tag, [a.decode("latin1")[:60] for a in argv], new, ans, why), {"argv": [a.hex() for a in argv], "new": new, "ans": ans})
                elif checked % 2503 == 1: rep.sample({"argv": [a.decode("latin1")[:60] for a in argv], "new": new, "ans": ans, "exit": st, "calls": [e[:60] for e in ev]})
    rep.assumptions = ["scripted licence manager", "exit status of a session start is not claimed"]
    return rep.finish(states=len(distinct), transitions=len(cases), traces_validated_against_impl=checked, exhaustive=True, max_words=maxlen)

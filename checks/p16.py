"""P16: packages small libraries with every single fault injected; a reported success must come with a complete, correct archive."""
import os, shutil, stat
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import cryptlib as C, packlib as K, toollib as TL
import xml.etree.ElementTree as ET

TREE = {"package.mo": b"package P \"the root\" end P;\n", "a.mo": TL.pattern(700), "data.txt": b"data\n" * 50, "Sub/package.mo": b"within P; package Sub end Sub;\n", "Sub/x.mo": b"model X Real x; end X;\n",
        "Sub/pic.png": bytes(range(256)) * 3, "Sub/Deep/y.mo": TL.pattern(5000), "Res/icon.png": b"icon" * 20, "Res/n.txt": b""}

def run(tier, pid="P16"):
    """P16 judges exit status against archive, P24 (the same executions) what is left behind and changed"""
    rep = vlib.Report(pid, tier, "fault_enumeration"); thorough = tier == "thorough"; traces = pid == "P24"; lib_marks = {}
    P = K.Pack(pid.lower()); checked = 0; classes = {}
    lists = vlib.sdir("p16lists"); os.chmod(lists, 0o755)
    open(lists + "/tools.xml", "w").write('<?xml version="1.0"?>\n<compatibility>\n' + "".join('  <tool name="t%d" minversion="1.%d"/>\n' % (i, i) for i in range(9)) + "</compatibility>\n")
    open(lists + "/deps.xml", "w").write('<?xml version="1.0"?>\n<dependencies>\n  <dependency id="D"/>\n</dependencies>\n')
    extra = (("extra.dll", b"dll" * 100), ("sub/more.so", b"so"))
    jobs = []
    def job(what, enc=True, opts="full", fi=None, limit=None, prep=None, expect=None, order="0", name="Lib", more={}, dt=None): jobs.append(dict(dt=dt, name=name, more=more, what=what, enc=enc, opts=opts, fi=fi, limit=limit, prep=prep, expect=expect, order=order))
    def do(j):
        d = P.case(); src = d + "/src/Lib"; os.makedirs(src); cwd = d + "/cwd"; os.makedirs(cwd)
        vlib.write_tree(src, TREE); ex = extra if j["opts"] == "full" else ()
        lves = ("lve_linux64", "lve_win64.exe") if j["enc"] else ()
        argv = ["-librarypath", src, "-version", "1.0", "-language", "3.2", "-title", "T & t"] + (["-encrypt", "true"] if j["enc"] else [])
        if j["opts"] == "full":
            for f in ("tools", "deps"): shutil.copy(lists + "/%s.xml" % f, d)
            argv += ["-icon", src + "/Res/icon.png", "-tools", d + "/tools.xml", "-dependencies", d + "/deps.xml"]
        conf = P.conf(lves, ex)
        if j["prep"]:
            conf2 = d + "/conf"; shutil.copytree(conf, conf2, copy_function=lambda a, b: os.link(a, b) if os.path.basename(a) == "packagetool" else shutil.copy(a, b)); conf = conf2
            argv = j["prep"](d, src, argv, conf) or argv
        if traces and P.user:
            for a, dn, fn in os.walk(d):
                for x in [a] + [os.path.join(a, y) for y in fn]:
                    if not x.endswith("/packagetool"): os.chown(x, K.NOBODY, K.NOBODY, follow_symlinks=False)
        places = [d + "/src", conf] + [d + "/%s.xml" % f for f in ("tools", "deps")]
        before = {q: K.snapshot(q) if os.path.isdir(q) else open(q, "rb").read() if os.path.exists(q) and os.access(q, os.R_OK) else None for q in places} if traces else {}
        r = K.run(P, d, conf, argv, env=dict({"PT_ORDER": j["order"]}, **({"FI": j["fi"]} if j["fi"] else {}), **({"PT_DTYPE": j["dt"]} if j["dt"] else {})), limit=j["limit"], name=j["name"])
        why = None
        if K.CRASH(r.rc): why = "crash or hang (status %d): %s" % (r.rc, r.out[-900:])
        elif r.escapes: why = "it changed files outside its directories: %s" % r.escapes[:3]
        elif traces:
            after = {q: K.snapshot(q) if os.path.isdir(q) else open(q, "rb").read() if os.path.exists(q) and os.access(q, os.R_OK) else None for q in places}
            ch = [os.path.relpath(q, d) + "/" + k if isinstance(before[q], dict) else os.path.relpath(q, d) for q in places if before[q] != after[q] for k in (set(before[q]) | set(after[q]) if isinstance(before[q], dict) and isinstance(after[q], dict) else [""]) if not isinstance(before[q], dict) or before[q].get(k) != after[q].get(k)]
            fn, k = (j["fi"] or "none:0").split(":")[:2] if ":" in (j["fi"] or "") else ("none", 0)
            removal = fn in ("unlink", "rmdir", "remove") or (str(k).endswith("+") and fn in ("opendir", "readdir", "stat", "lstat")) or int(str(k).rstrip("+")) > lib_marks.get((j["enc"], j["opts"], j["order"], fn), 1 << 30)
            if ch: why = "exit %d, files of the source or of the tool were changed: %s" % (r.rc, ch[:5])
            elif r.left and not removal: why = "exit %d, the temporary area still holds %s" % (r.rc, r.left[:6])
            elif [x for x in r.files if x != j["name"] + ".mol"]: why = "exit %d, other files in the working directory: %s" % (r.rc, r.files)
            elif not r.tmp and r.rc == 0: why = None
            if r.left: rep.outcome("removal failed")
        elif r.rc == 0 and j["expect"] == 1: why = "exit 0"
        elif r.rc and j["expect"] == 0: why = "exit %d without any fault: %s" % (r.rc, r.out[-300:])
        elif r.rc == 0:
            N = j["name"]; exp = K.expected(dict(TREE, **j["more"]), N, j["enc"], lves, ex)
            soft = (j["fi"] or "").startswith("stat:")   # the support files next to the tool are optional: a failing query for one of them means "not there"
            if soft and r.archive: exp = {k: v for k, v in exp.items() if not k.startswith(N + "/.library/") or k.endswith("manifest.xml") or k in {a[0] for a in r.archive}}
            why = K.compare(P, d, r.archive, exp, N)
            if why is None:
                m = {a[0]: a[2] for a in r.archive}[N + "/.library/manifest.xml"]
                try: t = ET.fromstring(m)
                except ET.ParseError as e: why = "the manifest is damaged: %s: %r" % (e, m[-100:])
                else:
                    if t.find("library/title") is None or t.find("library/title").text != "T & t" or j["opts"] == "full" and (len(t.findall(".//tool")) != 9 or len(t.findall(".//dependency")) != 1 or t.find("library/icon") is None) \
                       or len(t.findall(".//executable")) != sum("/.library/lve_" in k for k in exp): why = "the manifest is incomplete: %r" % m
            if why is None and r.files != [N + ".mol"]: why = "other files in the working directory: %s" % r.files
            if why: why = "exit 0, but " + why
        for a, dn, fn in os.walk(d):
            for x in dn:
                if not os.access(os.path.join(a, x), os.R_OK | os.X_OK): os.chmod(os.path.join(a, x), 0o755)
        K.clean(d); return j, r, why
    def go():
        nonlocal checked
        out = []
        with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
            for j, r, why in ex.map(do, jobs):
                checked += 1; out.append((j, r)); g = j["what"].split(":")[0]; classes[g] = classes.get(g, 0) + 1
                rep.outcome("exit 0, archive complete" if r.rc == 0 else "exit %d" % r.rc)
                if why and not rep.full(): rep.violation("packaging %s (%s options): %s: %s" % ("encrypted" if j["enc"] else "in clear", j["opts"], j["what"], why), {k: str(v) for k, v in j.items()})
                elif checked % 211 == 1: rep.sample({"fault": j["what"], "encrypted": j["enc"], "exit": r.rc})
        jobs.clear(); return out
    variants = [(True, "full"), (False, "full")] + ([(True, "few"), (False, "few")] if thorough else [])
    orders = ["0", "r0"] if thorough else ["0"]
    for enc, opts in variants:
        for o in orders: job("none", enc, opts, expect=0, fi="none", order=o)
        job("none, entry types unknown", enc, opts, expect=0, fi="none", dt="unknown")
    sizes = set()
    for j, r in go():
        if j["dt"] is None:
            for f, n in r.marks.items(): lib_marks[(j["enc"], j["opts"], j["order"], f)] = n
        for f, n in r.counts.items():
            if f == "remove" or (f == "lstat") != (j["dt"] is not None): continue
            ks = range(1, n + 1) if n <= 400 or thorough else sorted(set(range(1, 16)) | set(range(n - 5, n + 1)) | set(range(16, n - 5, max(1, n // 20))))
            for k in ks: job("failing call: %s number %d of %d" % (f, k, n), j["enc"], j["opts"], fi="%s:%d" % (f, k), order=j["order"], dt=j["dt"])
            for k in ks if thorough else list(ks)[::3]: job("failing from call: %s number %d of %d on" % (f, k, n), j["enc"], j["opts"], fi="%s:%d+" % (f, k), order=j["order"], dt=j["dt"])
        if r.archive:
            sizes |= {len(a[2]) for a in r.archive}; sizes.add(sum(len(a[2]) + len(a[0]) for a in r.archive))
    # the disk is full after n bytes of a file
    top = max(sizes) if sizes else 12000
    ns = set(range(0, top + 600, 1 if thorough else 157)) | {s + x for s in sizes for x in (-1, 0, 1)} | set(range(0, 80, 1 if thorough else 13))
    for n in sorted(x for x in ns if x >= 0):
        for enc, opts in variants[:2 if thorough or n % 2 == 0 else 1]: job("disk full: after %d bytes" % n, enc, opts, limit=n)
    # unusable inputs
    def p(fn): return lambda d, src, argv, conf: fn(d, src, argv, conf)
    def noread(rel): return p(lambda d, src, argv, conf: os.chmod(src + "/" + rel, 0o000))
    def noreadc(rel): return p(lambda d, src, argv, conf: os.chmod(conf + "/" + rel, 0o000))
    for enc, opts in variants:
        if P.user:
            for rel in list(TREE) + ["Sub", "Sub/Deep", "Res"]: job("unreadable: %s" % rel, enc, opts, prep=noread(rel), expect=1)
            for rel in (["LVE/lve_linux64", "LVE/lve_win64.exe", "LVE"] if enc else []) + ([".library/extra.dll", ".library/sub", ".library"] if opts == "full" else []):
                job("unreadable support file: %s" % rel, enc, opts, prep=noreadc(rel), expect=1)
            job("unreadable: the library", enc, opts, prep=p(lambda d, src, argv, conf: os.chmod(src, 0)), expect=1)
            job("unwritable archive", enc, opts, prep=p(lambda d, src, argv, conf: (os.makedirs(d + "/cwd/Lib.mol/keep"), None)[1]), expect=1)
            if opts == "full":
                for f in ("tools.xml", "deps.xml"): job("unreadable list: %s" % f, enc, opts, prep=p(lambda d, src, argv, conf, f=f: os.chmod(d + "/" + f, 0)), expect=1)
        for rel in ("package.mo", "Sub/package.mo"):
            def mk(d, src, argv, conf, rel=rel): os.remove(src + "/" + rel); os.mkdir(src + "/" + rel); open(src + "/" + rel + "/q.mo", "w").write("model q")
            if enc: job("a directory in place of %s" % rel, enc, opts, prep=mk, expect=1)
        if opts == "full":
            for f in ("tools.xml", "deps.xml"):
                def mk(d, src, argv, conf, f=f): os.remove(d + "/" + f); os.mkdir(d + "/" + f)
                job("a directory in place of the list %s" % f, enc, opts, prep=mk, expect=1)
            job("icon outside the library", enc, opts, prep=p(lambda d, src, argv, conf: (open(d + "/other.png", "w").close(), [a if a != src + "/Res/icon.png" else d + "/other.png" for a in argv])[1]), expect=1)
        for n in (60, 180, 195, 196, 199, 200, 230, 255):
            def mk(d, src, argv, conf, n=n):
                t = d + "/src/" + "N" * n; os.rename(src, t); return [a.replace(src, t) for a in argv]
            job("library name of %d characters" % n, enc, opts, prep=mk, name="N" * n)
        for depth in (1, 5, 6, 7, 8, 9, 10, 12):
            def mk(d, src, argv, conf, depth=depth):
                q = src
                for i in range(depth): q += "/" + "d" * 240; os.mkdir(q)
                fd = os.open(q, os.O_RDONLY); f = os.open("deep.mo", os.O_WRONLY | os.O_CREAT, 0o644, dir_fd=fd); os.write(f, b"model deep"); os.close(f); os.close(fd)
            job("nested: %d directories of 240 characters" % depth, enc, opts, prep=mk, more={("d" * 240 + "/") * depth + "deep.mo": b"model deep"})
    go()
    if traces:
        from checks import p15
        n = p15.run(tier, rep, P); checked += n; classes["library trees without a fault"] = n
    rep.outcomes.update({"class " + k: v for k, v in classes.items()})
    rep.assumptions = ["the zip library is replaced by a stand-in with the same calls", "allocation failures are not injected", "closing the archive cannot fail (the zip library's call returns nothing)"]
    return rep.finish(evaluations=checked, distinct_nontrivial=checked, rule="one run of the real tool per fault: every counted library call failing once, the disk full after n bytes, every unusable input of a list", exhaustive=True)

"""P26: two packaging runs that overlap in time, in every way with up to two switches between them, each end as if they were alone."""
import itertools, os, shutil, signal, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import fcntl
import vlib
from checks import packlib as K

LIST = b'<?xml version="1.0"?>\n<compatibility><tool name="T"/></compatibility>\n'

class Run:
    """one run of the real tool, which can be stopped at its n-th step, resumed and collected"""
    def __init__(self, P, d, conf, argv, name, env):
        self.P, self.d, self.name = P, d, name; self.cwd = d + "/cwd"; os.makedirs(self.cwd, exist_ok=True)
        self.rfd, wfd = os.pipe2(os.O_CLOEXEC); fcntl.fcntl(wfd, 1031, 1 << 20); fcntl.fcntl(wfd, fcntl.F_SETFL, os.O_NONBLOCK)
        e = {"FI": "none", "PT_ROOT": self.cwd, "FI_LOGFD": str(wfd), "FI_RAND": "/".join("%064x" % (7919 * (i + 1) ** 5) for i in range(40))}; e.update(env)
        if P.user: os.chown(self.cwd, K.NOBODY, K.NOBODY); e["LIMIT_UID"] = str(K.NOBODY)
        self.out = open(d + "/out", "w+b")
        self.p = subprocess.Popen([P.limit, "-1", conf + "/packagetool"] + argv, cwd=self.cwd, env=vlib.san_env(e), stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT, pass_fds=(wfd,))
        os.close(wfd); self.dog = threading.Timer(60, self.p.kill); self.dog.start()
    def paused(self):
        """waits until it is stopped (True) or has ended (False)"""
        return os.waitid(os.P_PID, self.p.pid, os.WSTOPPED | os.WEXITED | os.WNOWAIT).si_code == os.CLD_STOPPED
    def resume(self): self.p.send_signal(signal.SIGCONT)
    def end(self):
        rc = self.p.wait(); self.dog.cancel(); raw = b""
        fcntl.fcntl(self.rfd, fcntl.F_SETFL, os.O_NONBLOCK)
        try:
            while True:
                b = os.read(self.rfd, 1 << 16)
                if not b: break
                raw += b
        except BlockingIOError: pass
        os.close(self.rfd); log = raw.decode(errors="surrogateescape").splitlines(); self.out.seek(0); self.text = self.out.read(); self.out.close()
        self.steps = next((int(l.split()[1]) for l in log if l.startswith("steps ")), 0)
        tmp = [l[4:] for l in log if l.startswith("tmp ")]; left = []
        for t in tmp:
            if os.path.exists(t):
                left += [os.path.relpath(os.path.join(a, f), t) for a, dn, fn in os.walk(t) for f in fn] or ["an empty folder"]
                if t.startswith("/tmp/") and ".." not in t and len(t) > 8: K.wipe(t)
        a = K.parse(self.cwd + "/" + self.name + ".mol")
        self.archive = a
        self.result = (rc, None if a is None else sorted(a), sorted(left), sorted(os.listdir(self.cwd)), [l for l in log if l.startswith("escape ")])
        return self.result

def run(tier):
    rep = vlib.Report("P26", tier, "schedule_enumeration"); thorough = tier == "thorough"; P = K.Pack("p26", san=False)
    conf = P.conf(("lve_linux64",)); root = vlib.sdir("p26"); src = root + "/src"
    trees = {"big": {"package.mo": b"package Lib \"the first library\" end Lib;", "x.mo": b"model X end X;" * 9, "A/package.mo": b"within Lib; package A end A;", "A/i.png": b"picture", "d.txt": b"text one"},
             "same name": {"package.mo": b"package Lib \"quite another library\" end Lib;", "y.mo": b"model Y Real y; end Y;", "d.txt": b"text two", "A/package.mo": b"within Lib; package A \"other\" end A;"},
             "small": {"x.mo": b"model only end only;"}}
    for t, f in trees.items(): vlib.write_tree(src + "/" + t + "/Lib", f)
    vlib.write_tree(src + "/other/Other", trees["same name"])
    open(root + "/list", "wb").write(LIST); os.system("chmod -R a+rX %s" % root)
    man = ["-version", "1", "-language", "3"]
    def argv(t, *more, name="Lib"): return ["-librarypath", src + "/" + t + "/" + name] + man + list(more)
    icon = ["-icon", src + "/big/Lib/A/i.png"]
    kinds = {"encrypted": (argv("big", "-encrypt", "true", "-title", "one", *icon), "Lib"), "encrypted, other library of the name": (argv("same name", "-encrypt", "true", "-title", "two", "-tools", root + "/list"), "Lib"),
             "plain": (argv("same name", "-title", "three"), "Lib"), "other name": (argv("other", "-encrypt", "TRUE", name="Other"), "Other"), "small": (argv("small", "-encrypt", "true"), "Lib"),
             "refused": (argv("big", "-icon", root + "/none"), "Lib")}
    n = itertools.count(); lock = threading.Lock()
    def start(kind, env):
        with lock: d = root + "/r%d" % next(n)
        os.makedirs(d); a, name = kinds[kind]; return Run(P, d, conf, a, name, env)
    def drop(*rs):
        for r in rs: shutil.rmtree(r.d, ignore_errors=True)
    # each alone: what it does, and whether that is the same every time
    alone, steps, files = {}, {}, {}
    fi = {"encrypted": {}, "small": {}}
    variants = [(k, {}) for k in kinds] + [("encrypted", {"FI": "zip_entry_fwrite:3"}), ("encrypted", {"FI": "fopen:9"}), ("small", {"FI": "mkdir:1"})]
    key = lambda k, e: (k, e.get("FI", ""))
    before = K.snapshot(src); det = True
    for k, e in variants:
        rs = []
        for _ in range(2): r = start(k, e); rs.append(r.end()); steps[key(k, e)] = r.steps; alone[key(k, e)] = rs[0]; arch = r.archive; text = r.text; drop(r)
        if rs[0] != rs[1]: det = False
        if not e and k != "refused":
            t = kinds[k]; tr = {"encrypted": "big", "plain": "same name", "small": "small"}.get(k, "same name")
            enc = k != "plain"; w = K.compare(P, vlib.sdir("p26", "cmp%d" % len(alone)), arch, K.expected(trees[tr], t[1], enc, ("lve_linux64",)), t[1]) if rs[0][0] == 0 else "exit %d: %s" % (rs[0][0], text[-300:])
            if w or rs[0][2] or rs[0][4]: rep.violation("%s, alone: %s %s %s" % (k, w, rs[0][2], rs[0][4]), {"kind": k})
    def judge(r, k, e):
        """None or how the run differs from the run alone"""
        have, want = r.result, alone[key(k, e)]
        if have[0] != want[0]: return "exit %d, alone %d: %s" % (have[0], want[0], r.text[-200:])
        if det and have[1] != want[1] or (not det) and [x[0] for x in have[1] or ()] != [x[0] for x in want[1] or ()]:
            h, w = dict((x[0], x[2]) for x in have[1] or ()), dict((x[0], x[2]) for x in want[1] or ())
            return "the archive differs from the one made alone: missing %s, more %s, other content %s" % (sorted(set(w) - set(h))[:3], sorted(set(h) - set(w))[:3], sorted(x for x in h if x in w and h[x] != w[x])[:3])
        for i, what in ((2, "temporary files left"), (3, "files in the working directory"), (4, "writes elsewhere")):
            if have[i] != want[i]: return "%s %s, alone %s" % (what, have[i][:4], want[i][:4])
        return None
    jobs = []
    def pair(a, ea, b, eb, na, nb): jobs.append((a, ea, b, eb, na, nb))
    names = [("encrypted", {}), ("encrypted, other library of the name", {}), ("plain", {}), ("other name", {}), ("small", {}), ("refused", {}), ("encrypted", {"FI": "zip_entry_fwrite:3"}), ("encrypted", {"FI": "fopen:9"}), ("small", {"FI": "mkdir:1"})]
    # B runs as a whole inside A
    for (x, (a, ea)), (y, (b, eb)) in itertools.product(enumerate(names), repeat=2):
        if a == "refused" or not thorough and (x in (1, 3, 8) or y in (2, 3, 6) or (x in (2, 6, 7) and y not in (0, 4))): continue
        for i in range(1, steps[key(a, ea)] + 1): pair(a, ea, b, eb, i, 0)
    # A to n, B to m, A to its end, B to its end
    two = [("small", "small")] + ([("encrypted", "encrypted, other library of the name"), ("plain", "encrypted"), ("encrypted", "encrypted")] if thorough else [])
    for a, b in two:
        for i in range(1, steps[key(a, {})] + 1):
            for j in range(1, steps[key(b, {})] + 1): pair(a, {}, b, {}, i, j)
    # B was killed at m: before A starts, and within A
    for a, b in (("small", "small"), ("encrypted", "small"), ("encrypted", "encrypted")):
        for j in range(1, steps[key(b, {})] + 1):
            pair(a, {}, b, {"FI_KILL": str(j)}, 0, 0)
            for i in sorted({2, 3, 4, steps[key(a, {})] // 3, steps[key(a, {})] // 2, steps[key(a, {})] - 1}): pair(a, {}, b, {"FI_KILL": str(j)}, i, 0)
    def one(j):
        a, ea, b, eb, na, nb = j; kill = "FI_KILL" in eb; A = B = None; ok = True
        if na: A = start(a, dict(ea, FI_STOP=str(na))); ok = A.paused()
        B = start(b, dict(eb, FI_STOP=str(nb)) if nb else eb)
        if nb and B.paused():
            A.resume(); A.end(); B.resume(); B.end()
        else:
            B.end()
            if A is None: A = start(a, ea)
            elif ok: A.resume()
            A.end()
        why = [x for x in (("the first: " + (judge(A, a, ea) or "")) if judge(A, a, ea) else None, ("the second: " + judge(B, b, eb)) if not kill and judge(B, b, eb) else None) if x]
        drop(A, B); return j, why
    checked = 0
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for lo in range(0, len(jobs), 400):
            if rep.full(): break
            for j, why in ex.map(one, jobs[lo:lo + 400]):
                checked += 1; a, ea, b, eb, na, nb = j
                rep.outcome("disturbed" if why else "killed inside" if "FI_KILL" in eb else "as alone")
                if why and not rep.full(): rep.violation("%s%s stopped at step %d, %s%s %s: %s" % (a, " (%s fails)" % ea["FI"] if ea else "", na, b, " (%s)" % eb if eb else "", "run to step %d, then the first to its end, then the second" % nb if nb else "run to its end", "; ".join(why)),
                    {"first": kinds[a][0], "first_env": ea, "second": kinds[b][0], "second_env": eb, "stop_first": na, "stop_second": nb})
                elif checked % 701 == 1: rep.sample({"first": a, "second": b, "switches": [na, nb]})
    if K.snapshot(src) != before: rep.violation("a source library was changed", {})
    rep.assumptions = ["the runs have different working directories", "a switch happens before a call that opens, creates, changes or removes a file or folder or asks for its state"] + ([] if det else ["runs are not reproducible: archives are compared by their names"])
    return rep.finish(states=sum(steps.values()), transitions=checked, schedules=checked, steps={"%s%s" % (k[0], " " + k[1] if k[1] else ""): v for k, v in steps.items()}, traces_validated_against_impl=checked, exhaustive=True,
                      rule="every schedule of two real runs with the switch points listed, each compared with the run alone")

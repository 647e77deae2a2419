"""Building and running the packaging tool of the repository in a contained environment (checks P15, P16, P17, P20)."""
import fcntl, itertools, os, shutil, subprocess, threading
import vlib
from checks import cryptlib as C

NOBODY = 65534
WRAPS = C.WRAPS + ["mkdtemp", "chmod", "unlink", "closedir", "rename"]
LVES = ["lve_win32.exe", "lve_win64.exe", "lve_linux32", "lve_linux64", "lve_darwin64"]

class Pack:
    def __init__(self, name, san=True):
        self.gen = vlib.gen_headers(name)
        src = vlib.repo_c("common") + vlib.repo_c("decryptors/default/src")
        self.dec = vlib.build("dec_tree", src + [vlib.HARN + "/dec_tree.c"], self.gen)
        self.exe = vlib.build("packagetool" if san else "packagetool_fast", src + vlib.repo_c("packagetool") + [(vlib.HARN + "/fi.c", ["-DFI_PACK"]), vlib.HARN + "/zip_standin.c"], self.gen,
                              flags=["-Dlinux=1"] if False else [], link=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)], extra_inc=[vlib.HARN + "/zip"], san=san)
        self.limit = vlib.build("limit", [vlib.HARN + "/limit.c"], self.gen, san=False)
        os.chmod(vlib.scratch(), 0o755)
        self.n = itertools.count(); self.root = vlib.sdir("pack"); self.confs = {}; self.lock = threading.Lock()
        self.user = os.geteuid() == 0
        if self.user:
            try: subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
            except Exception: self.user = False
    def conf(self, lves=("lve_linux64",), extra=()):
        """a directory with the tool, an LVE folder and (optionally) extra support files next to it"""
        k = (tuple(lves), tuple(extra))
        with self.lock: return self._conf(k, lves, extra)
    def _conf(self, k, lves, extra):
        if k not in self.confs:
            d = vlib.sdir("packconf", str(len(self.confs)))
            os.link(self.exe, d + "/packagetool")
            if lves: os.makedirs(d + "/LVE")
            for l in lves: open(d + "/LVE/" + l, "wb").write(b"\x7fELF executable " + l.encode() + bytes(range(256)) * 3); os.chmod(d + "/LVE/" + l, 0o755)
            for e, data in extra: os.makedirs(os.path.dirname(d + "/.library/" + e), exist_ok=True); open(d + "/.library/" + e, "wb").write(data)
            self.confs[k] = d
        return self.confs[k]
    def case(self): d = os.path.join(self.root, str(next(self.n))); os.makedirs(d); return d

class Result: pass

def parse(path):
    """archive -> list of (name, mode, data), or None if it is not complete"""
    if not os.path.isfile(path): return None
    b = open(path, "rb").read(); out = []; i = 0
    while b[i:i + 2] == b"E ":
        e = b.find(b"\n", i); h = b[i:e].split()
        if e < 0 or len(h) != 4: return None
        _, nl, sz, mode = h; nl, sz = int(nl), int(sz); i = e + 1
        if i + nl + sz > len(b): return None
        out.append((b[i:i + nl].decode("utf-8", "surrogateescape"), int(mode, 8), b[i + nl:i + nl + sz])); i += nl + sz
    return out if b[i:] == b"END\n" else None

def run(P, d, conf, argv, env=None, limit=None, name="Lib", umask=None):
    """runs the tool in d/cwd; d/src holds the sources. Returns status, output, archive, temporary files left, escapes."""
    r = Result(); cwd = os.path.join(d, "cwd"); os.makedirs(cwd, exist_ok=True)
    e = {"FI": "none", "PT_ROOT": cwd}; e.update(env or {})
    cmd = [conf + "/packagetool"] + argv
    rfd, wfd = os.pipe2(os.O_CLOEXEC); fcntl.fcntl(wfd, 1031, 1 << 20); fcntl.fcntl(wfd, fcntl.F_SETFL, os.O_NONBLOCK)
    e["FI_LOGFD"] = str(wfd)
    cmd = [P.limit, str(-1 if limit is None else limit)] + cmd; kw = {}
    if P.user:
        for w in (d, cwd): os.chown(w, NOBODY, NOBODY)
        e["LIMIT_UID"] = str(NOBODY)
    if C.HANGS[0] >= 3: r.rc = -998; r.out = b"not run: earlier runs hang"
    else:
        try:
            p = subprocess.run(cmd, cwd=cwd, env=vlib.san_env(e), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, pass_fds=(wfd,), **kw)
            r.rc, r.out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x: C.HANGS[0] += 1; r.rc, r.out = -999, b"timeout"
    os.close(wfd); raw = b""
    fcntl.fcntl(rfd, fcntl.F_SETFL, os.O_NONBLOCK)       # a process left behind must not block us
    try:
        while True:
            b = os.read(rfd, 1 << 16)
            if not b: break
            raw += b
    except BlockingIOError: pass
    os.close(rfd)
    r.log = raw.decode(errors="surrogateescape").splitlines()
    r.tmp = [l[4:] for l in r.log if l.startswith("tmp ")]; r.left = []
    r.escapes = [l for l in r.log if l.startswith("escape ")]
    r.hit = "hit" in r.log
    r.counts = {l.split()[1]: int(l.split()[2]) for l in r.log if l.startswith("count ")}
    r.marks = {l.split()[1]: int(l.split()[2]) for l in r.log if l.startswith("mark ")}
    for t in r.tmp:
        if os.path.exists(t):
            r.left += [t] + [os.path.relpath(os.path.join(a, f), t) for a, dn, fn in os.walk(t) for f in fn]
            if t.startswith("/tmp/") and ".." not in t and len(t) > 8: wipe(t)
    r.files = sorted(os.listdir(cwd))
    r.archive = parse(os.path.join(cwd, name + ".mol"))
    return r

def snapshot(root):
    """everything under root: name -> (type and permissions, content)"""
    out = {}
    for a, dn, fn in os.walk(root):
        for x in dn + fn:
            q = os.path.join(a, x); st = os.lstat(q); rel = os.path.relpath(q, root)
            out[rel] = (st.st_mode, os.readlink(q) if os.path.islink(q) else open(q, "rb").read() if os.path.isfile(q) else None)
    return out

CRASH = lambda rc: rc < 0 or rc in (95, 96, 97, 98, 99, 134, 139)

def wipe(t):
    shutil.rmtree(t, ignore_errors=True)
    try: os.remove(t)
    except OSError: pass

def clean(d): shutil.rmtree(d, ignore_errors=True)

def expected(files, name, enc, lves, conf_extra=()):
    """source files {rel: data} -> {archive name: (kind, data)}"""
    out = {}
    for k, data in files.items():
        if ".library" in k.split("/"): continue
        if enc and os.path.splitext("x" + k.rsplit("/", 1)[-1])[1].lower() == ".mo": out[name + "/" + k + "c"] = ("moc", data)
        else: out.setdefault(name + "/" + k, ("raw", data))
    out[name + "/.library/manifest.xml"] = ("manifest", None)
    if enc:
        for l in lves: out[name + "/.library/" + l] = ("lve", b"\x7fELF executable " + l.encode() + bytes(range(256)) * 3)
    for e, data in conf_extra: out[name + "/.library/" + e] = ("raw", data)
    return out

def compare(P, d, arch, exp, name):
    """None, or why the archive is not the expected one"""
    if arch is None: return "there is no complete archive"
    names = [a[0] for a in arch]
    if len(set(names)) != len(names): return "entries appear twice: %s" % sorted(n for n in names if names.count(n) > 1)[:3]
    have = {a[0]: a for a in arch}
    miss = sorted(set(exp) - set(have)); extra = sorted(set(have) - set(exp))
    if miss: return "the archive misses %s" % miss[:5]
    if extra: return "the archive contains %s" % extra[:5]
    mocs = []
    for k, (kind, data) in exp.items():
        if kind in ("raw", "lve") and have[k][2] != data: return "%s differs from the source (%d of %d bytes)" % (k, len(have[k][2]), len(data))
        if kind == "lve" and have[k][1] & 0o500 != 0o500: return "%s is not executable in the archive" % k
        if kind == "moc":
            mocs.append(k)
            if data and len(data) >= 16 and data in have[k][2]: return "%s contains the cleartext" % k
    if mocs:
        b = os.path.join(d, "x"); o = os.path.join(d, "o"); os.makedirs(o, exist_ok=True)
        for k in have:
            if k.startswith(name + "/") and k.lower().endswith(".moc"): q = os.path.join(b, k[len(name) + 1:]); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(have[k][2])
        mocs.sort(reverse=True)
        r = subprocess.run([P.dec, b, o] + [k[len(name) + 1:] for k in mocs], capture_output=True, env=vlib.san_env())
        if r.returncode: return "decrypting the archive: status %d %s" % (r.returncode, r.stderr[-300:])
        for i, k in enumerate(mocs):
            q = os.path.join(o, str(i))
            if not os.path.exists(q): return "%s cannot be decrypted" % k
            if open(q, "rb").read() != exp[k][1]: return "%s does not decrypt to the source" % k
    return None

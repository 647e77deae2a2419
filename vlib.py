"""Shared machinery: scratch directories, building from /repo, session trees, evidence, violations."""
import atexit, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
KEYS = os.path.join(VERIF, "keys")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
CC = "gcc"
ASAN_OPTS = ("detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=171:"
             "detect_stack_use_after_return=0:handle_abort=1:abort_on_error=0:exitcode=99:max_allocation_size_mb=1024:strict_string_checks=0:quarantine_size_mb=4:malloc_context_size=6")
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
CFLAGS = ["-g", "-O0", "-w", "-DNDEBUG", "-fno-common", "-Wno-error"]

_scratch = None
def scratch():
    """One scratch directory per run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="semla-mc-")
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    return _scratch

def sdir(*p):
    d = os.path.join(scratch(), *p); os.makedirs(d, exist_ok=True); return d

class BuildError(Exception): pass

def sh(cmd, **kw):
    kw.setdefault("capture_output", True)
    r = subprocess.run(cmd, **kw)
    return r

def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise BuildError("%s\n%s\n%s" % (" ".join(map(str, cmd)), (r.stdout or b"")[-2000:], (r.stderr or b"")[-4000:]))
    return r

INCS = ["encrypt_decrypt", "decryptors/include", "license_managers/include", "obfuscators/include", "embedfile",
        "common", "lve", "tool", "packagetool", "decryptors/default/src"]

def incs(gen):
    return ["-I" + os.path.join(SRC, i) for i in INCS] + ["-I" + os.path.join(REPO, "ThirdParty", "uthash"), "-I" + gen]

def repo_c(*dirs, drop=()):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(SRC, d, "*.c"))):
            if os.path.basename(f) in drop or "windows" in os.path.basename(f): continue
            out.append(f)
    return out

def compile_all(units, nproc=None):
    """units: list of (source, object, flags). Compiles in parallel."""
    def one(u):
        s, o, fl = u
        r = sh([CC] + CFLAGS + fl + ["-c", s, "-o", o])
        if r.returncode: raise BuildError("compile %s\n%s" % (s, r.stderr.decode(errors="replace")[-4000:]))
        return o
    with ThreadPoolExecutor(nproc or NPROC) as ex: return list(ex.map(one, units))

def build(name, sources, gen, flags=(), san=True, defs=None, link=(), libs=("-lssl", "-lcrypto", "-lpthread"), extra_inc=()):
    """sources: list of path or (path, extra flags). Returns the executable."""
    od = sdir("obj", name)
    fl = list(flags) + (SAN if san else []) + ["-I" + i for i in extra_inc] + incs(gen)
    units = []
    for i, s in enumerate(sources):
        s, ex = s if isinstance(s, tuple) else (s, [])
        units.append((s, os.path.join(od, "%d_%s.o" % (i, os.path.basename(s)[:-2])), ex + fl))
    objs = compile_all(units)
    exe = os.path.join(od, name)
    must([CC] + (SAN if san else []) + ["-o", exe] + objs + list(link) + list(libs))
    return exe

_embed = {}
def embed_tools(san=False):
    if san not in _embed:
        g = sdir("gen_none"); d = []
        obf = repo_c("obfuscators/dummy/src")
        n = "_san" if san else ""
        a = build("obfuscate" + n, [os.path.join(SRC, "embedfile/obfuscate.c"), os.path.join(SRC, "embedfile/obfuscate_utils.c")] + obf, g, san=san)
        b = build("randomize_key" + n, [os.path.join(SRC, "embedfile/randomize_key.c"), os.path.join(SRC, "embedfile/obfuscate_utils.c")] + obf, g, san=san)
        _embed[san] = (a, b)
    return _embed[san]

def gen_headers(name, trusted=("a",), lve="lve", tool="a"):
    """Generates the key headers the way the repository's build does, with the repository's own tools."""
    g = sdir("gen_" + name)
    obf, rnd = embed_tools()
    must([obf, os.path.join(g, "private_key_lve.h"), os.path.join(KEYS, lve + ".pem"), "PRIVATE_KEY_LVE", "LVE_PRIVATE"])
    must([obf, os.path.join(g, "private_key_tool.h"), os.path.join(KEYS, tool + ".pem"), "PRIVATE_KEY_TOOL", "TOOL_PRIVATE"])
    for i, t in enumerate(trusted):
        must([obf, os.path.join(g, "public_key_tool%d.h" % i), os.path.join(KEYS, t + ".pub"), "PUBLIC_KEY_TOOL%d" % i, "TOOL_PUBLIC"])
    must(["cmake", "-D", "PUBLIC_KEY_TOOL_NUM=%d" % len(trusted), "-D", "PUBLIC_KEY_TOOL_H=" + os.path.join(g, "public_key_tool.h"),
          "-P", os.path.join(SRC, "GenPublicKeyToolH.cmake")])
    rk = os.path.join(scratch(), "random_key_file.h")   # one key per run, shared by all generated sets
    if not os.path.exists(rk): must([rnd, rk, "MLLE_CR_KEY"])
    shutil.copy(rk, os.path.join(g, "random_key_file.h"))
    return g

LVE_DEFS = ["-DLVETARGET=lve_linux64", "-DCMAKE_PROJECT_NAME=SEMLA", "-DCMAKE_PROJECT_VERSION=0.0.0"]

def lve_sources(rename_main=True):
    fl = LVE_DEFS + (["-Dmain=lve_main"] if rename_main else [])
    return ([(s, fl) for s in repo_c("lve")] + repo_c("common") + repo_c("decryptors/default/src"))

def build_explorer(name, gen, flags=(), more=(), link=()):
    return build(name, lve_sources() + [os.path.join(HARN, "lve_explore.c")] + list(more), gen, flags=flags, link=link)

# ---------------------------------------------------------------------------------------------- libraries
def build_encoder(gen, name="enc_tree"):
    return build(name, repo_c("common") + repo_c("decryptors/default/src") + [os.path.join(HARN, "enc_tree.c")], gen)

def write_tree(root, files):
    for rel, data in files.items():
        p = os.path.join(root, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(data)

def san_env(extra=None, log=None):
    e = dict(os.environ); e["ASAN_OPTIONS"] = ASAN_OPTS + ((":log_path=" + log) if log else "")
    e["LC_ALL"] = "C"
    e.pop("SEMLA_LVE_LOG_FILE", None)
    if extra: e.update(extra)
    return e

def encrypt_tree(enc, plain, dest, order):
    """Encrypts plain/<f>.mo to dest/<f>.moc for the relative .mo paths in order, in one encryption context."""
    for r in order: os.makedirs(os.path.dirname(os.path.join(dest, r)) or dest, exist_ok=True)
    return sh([enc, plain, dest] + list(order), env=san_env(), timeout=120)

# ---------------------------------------------------------------------------------------------- sessions
class Step:
    __slots__ = ("op", "msg", "a", "ln", "la", "name")
    def __init__(self, msg=b"", op="M", a=0, ln=1, la=1, name=None):
        self.op, self.msg, self.a, self.ln, self.la = op, msg, a, ln, la
        self.name = name or (op + ":" + repr(msg[:60]))
    def __repr__(self): return "%s%s" % (self.name, "" if (self.ln, self.la) == (1, 1) else "[new=%d ans=%d]" % (self.ln, self.la))
    def dump(self): return {"op": self.op, "msg": self.msg.hex(), "a": self.a if not isinstance(self.a, bytes) else self.a.hex(), "ln": self.ln, "la": self.la, "name": self.name}
    @staticmethod
    def load(d):
        a = d["a"] if not isinstance(d["a"], str) else bytes.fromhex(d["a"])
        return Step(bytes.fromhex(d["msg"]), d["op"], a, d["ln"], d["la"], d["name"])

class Node:
    __slots__ = ("path", "reply", "events", "status", "end")
    def __init__(self, path): self.path = path; self.reply = None; self.events = []; self.status = "unreached"; self.end = None

class Sessions:
    """Result of exploring a session tree."""
    def __init__(self): self.nodes = {}; self.asan = []; self.root = None; self.n_forks = 0

_runno = 0
def explore(exe, steps, seqs, key="a", chain=None, env=None, timeout=30, jobs=None, extra=(), maxproto=None):
    """Executes every sequence (tuple of indices into steps) on the real LVE. Returns Sessions: nodes keyed by path."""
    global _runno
    _runno += 1
    base = sdir("run", str(_runno))
    jobs = jobs or NPROC
    roots = {}
    for s in seqs: roots.setdefault(s[:4], []).append(s)
    # deal the subtrees under the first steps to the workers, biggest first
    parts = [[] for _ in range(jobs)]; load = [0] * jobs
    for k in sorted(roots, key=lambda k: -len(roots[k])):
        i = load.index(min(load)); parts[i] += roots[k]; load[i] += len(roots[k])
    parts = [p for p in parts if p] or [[()]]
    def one(i):
        return _explore_part(exe, steps, parts[i], os.path.join(base, str(i)), key, chain, env, timeout, extra, maxproto)
    res = Sessions()
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(len(parts))):
            for p, n in r.nodes.items():
                if p in res.nodes and res.nodes[p].status == "ok" and n.end is None: continue
                res.nodes[p] = n
            res.asan += r.asan
    shutil.rmtree(base, ignore_errors=True)
    return res

def keypath(key): return "none" if key is None else os.path.join(KEYS, key + ".pem")

def _explore_part(exe, steps, seqs, wd, key, chain, env, timeout, extra, maxproto):
    os.makedirs(wd)
    ids = {(): 0}; order = [()]; msgs = {}; lines = []
    def mid(b):
        if b not in msgs: msgs[b] = len(msgs)
        return msgs[b]
    for s in sorted(set(seqs)):
        for k in range(1, len(s) + 1):
            p = s[:k]
            if p in ids: continue
            ids[p] = len(order); order.append(p)
            st = steps[p[-1]]
            a = mid(st.a) if isinstance(st.a, bytes) else st.a
            lines.append("n %d %d %s %d %d %d %d" % (ids[p], ids[p[:-1]], st.op, mid(st.msg), a, st.ln, st.la))
    sc = os.path.join(wd, "sc"); out = os.path.join(wd, "out"); stf = os.path.join(wd, "st"); log = os.path.join(wd, "asan")
    with open(sc, "w") as f:
        if key and key.startswith("forge:"): f.write("forge %s\n" % os.path.join(KEYS, key[6:] + ".pub"))
        else: f.write("key %s\n" % keypath(key))
        if chain: f.write("chain %s\n" % os.path.join(KEYS, chain + ".pub"))
        f.write("timeout %d\n" % timeout)
        if maxproto: f.write("maxproto %d\n" % maxproto)
        for e in extra: f.write(e.replace("@WD@", wd).replace("@ID@", os.path.basename(wd)) + "\n")
        f.write("count %d %d\n" % (len(msgs), len(order)))
        for m, i in msgs.items(): f.write("m %d %s\n" % (i, m.hex()))
        f.write("\n".join(lines) + "\n")
    env = {k: v.replace("@ID@", os.path.basename(wd)) for k, v in (env or {}).items()}
    subprocess.run([exe, sc, out, stf], env=san_env(env, log), stdin=subprocess.DEVNULL,
                   stdout=subprocess.DEVNULL, stderr=open(os.path.join(wd, "err"), "wb"), cwd=wd)
    r = Sessions()
    state = open(stf, "rb").read() if os.path.exists(stf) else b"\0" * len(order)
    for i, p in enumerate(order):
        n = r.nodes[p] = Node(p)
        n.status = {0: "unreached", 1: "died", 2: "ok"}[state[i]]
    buf = open(out, "rb").read() if os.path.exists(out) else b""
    o = 0
    while o + 12 <= len(buf):
        nid, rl, el = struct.unpack_from("<III", buf, o); o += 12
        rep = buf[o:o + rl]; o += rl; ev = buf[o:o + el].decode("latin1").split("\n")[:-1]; o += el
        n = r.nodes[order[nid & 0x7fffffff]]
        if nid & 0x80000000: n.end = (rep, ev)
        else: n.reply, n.events = rep, ev
    for f in sorted(glob.glob(log + "*"))[:5]: r.asan.append(open(f, errors="replace").read()[:6000])
    if b"HARNESS" in open(os.path.join(wd, "err"), "rb").read():
        r.asan.append(open(os.path.join(wd, "err"), "rb").read().decode(errors="replace")[:2000])
    return r

FORMS = {"NOTSIMPLE": 0, "TOOLS": 0, "YES": 0, "VERSION": 1, "FEATURE": 2, "FILE": 2, "FILECONT": 2, "LIB": 2, "LICENSE": 2, "NO": 2,
         "RETURNFEATURE": 2, "RETURNLICENSE": 2, "TOOLLIST": 2, "ERROR": 3}
LVE_TO_TOOL = {"NOTSIMPLE", "YES", "VERSION", "FILECONT", "NO", "TOOLLIST", "ERROR"}

def parse_replies(b):
    """Splits a byte stream into replies [(word, number, data)]; raises ValueError on anything malformed."""
    out = []
    while b:
        i = b.find(b"\n")
        if i < 0: raise ValueError("reply without line end: %r" % b[:80])
        t = b[:i].decode("latin1").split(" "); b = b[i + 1:]
        if t[0] not in LVE_TO_TOOL: raise ValueError("unknown reply %r" % t[0])
        form = FORMS[t[0]]
        if len(t) != (1, 2, 2, 3)[form]: raise ValueError("reply %r has wrong arguments" % (t,))
        num = None; data = None
        if form in (1, 3):
            num = int(t[1])
        if form in (2, 3):
            ln = int(t[-1])
            if ln < 0 or ln > len(b): raise ValueError("reply %s declares %d bytes, %d follow" % (t[0], ln, len(b)))
            data, b = b[:ln], b[ln:]
        out.append((t[0], num, data))
    return out

def msg(word, data=None, num=None):
    h = word
    if num is not None: h += " %d" % num
    if data is not None: return (h + " %d\n" % len(data)).encode() + data
    return (h + "\n").encode()

# ---------------------------------------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time(); self.viol = []; self.known = []; self.cov = {}; self.assumptions = []
        self.kf = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("finding: property=%s " % pid):
                    k = l.split(" key=", 1)[1].split(" ", 1); self.kf[k[0]] = k[1].strip() if len(k) > 1 else ""
        self.samples = []; self.outcomes = {}
        self.rdir = os.path.join(VERIF, "out", "replay")

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s if isinstance(s, str) else json.dumps(s))

    def outcome(self, k): self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def violation(self, what, replay=None, key=None):
        if key is None: key = hashlib.sha1(what.encode()).hexdigest()[:12]
        if key in self.kf:
            if key not in self.known: self.known.append(key)
            return
        self.viol.append((what, replay))

    def full(self, n=int(os.environ.get("VERIF_SHOW", "40"))): return len(self.viol) >= n

    def finish(self, **cov):
        self.cov.update(cov)
        self.cov["samples"] = self.samples or ["(none)"]
        if self.outcomes: self.cov["distinct_outcomes"] = {str(k): v for k, v in sorted(self.outcomes.items(), key=lambda x: str(x[0]))[:60]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions, "violations": [w[:300] for w, _ in self.viol[:20]]}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, self.kf[k]))
        if self.viol:
            os.makedirs(self.rdir, exist_ok=True)
            for i, (w, rp) in enumerate(self.viol[:int(os.environ.get("VERIF_SHOW", "5"))]):
                p = os.path.join(self.rdir, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f: json.dump({"property": self.pid, "what": w, "replay": rp}, f, indent=1, default=repr)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  " + w[:600])
            if len(self.viol) > 5: print("  ... and %d more" % (len(self.viol) - 5))
            return 1
        print("property=%s held: %s" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, (int, str)) and k not in ("rule",))))
        return 0

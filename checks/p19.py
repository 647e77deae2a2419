"""P19: sessions on the real LVE with every outlet recorded (raw output, error stream, log, file system); secrets are searched for in all of them."""
import base64, hashlib, itertools, os, re, struct, subprocess
import vlib
from vlib import Step, msg
from checks import common

WRAPS = ["fopen", "fopen64", "freopen", "open", "open64", "openat", "creat", "mkdir", "rmdir", "unlink", "remove", "rename", "link", "symlink", "truncate", "chmod", "mkstemp", "mkdtemp", "tmpfile", "system", "popen"]

def aes(key, iv, ct): return subprocess.run(["openssl", "enc", "-d", "-aes-256-cbc", "-K", key.hex(), "-iv", iv.hex()], input=ct, capture_output=True).stdout

class Secrets:
    """windows of secret bytes, searched for literally and in printed forms"""
    def __init__(self): self.lit = {}; self.num = {}
    def text(self, name, b, n=12):
        for i in range(max(1, len(b) - n + 1)): self.lit.setdefault(n, {}).setdefault(b[i:i + n], name)
    def key(self, name, b, n=8):
        self.text(name, b, n)
        for i in range(len(b) - n + 1): self.num[b[i:i + n]] = name
        for k in range(3): self.text(name + " (base64)", base64.b64encode(b[k:])[:-4], 12)
    def find(self, data, printed=False):
        for n, s in self.lit.items():
            for i in range(len(data) - n + 1):
                if data[i:i + n] in s: return "%s at offset %d: %r" % (s[data[i:i + n]], i, data[max(0, i - 40):i + 60])
        if printed:
            h = re.sub(rb"0x|\\x|[^0-9a-f]", b"", data.lower()).decode(); names = {k.hex(): v for k, v in self.num.items()}
            for i in range(len(h) - 15):
                if h[i:i + 16] in names: return "%s (in hexadecimal): %r" % (names[h[i:i + 16]], data[-400:])
            v = [int(x) & 255 for x in re.findall(rb"-?\d+", data) if len(x) < 9]; d = bytes(v)
            for i in range(len(d) - 7):
                if d[i:i + 8] in self.num: return "%s (in decimal): %r" % (self.num[d[i:i + 8]], data[-400:])
        return None

def records(raw):
    """None if raw is a sequence of TLS records"""
    i = 0
    while i < len(raw):
        if len(raw) - i < 5: return "%d stray bytes at the end: %r" % (len(raw) - i, raw[i:])
        t, v, n = struct.unpack_from(">BHH", raw, i)
        if t not in (20, 21, 22, 23, 24) or v >> 8 != 3 or n > 16384 + 2048 or i + 5 + n > len(raw): return "unprotected bytes at offset %d: %r" % (i, raw[i:i + 80])
        i += 5 + n
    return None

def snap(*dirs):
    out = {}
    for d in dirs:
        for a, dn, fn in os.walk(d):
            for x in dn: out[os.path.join(a, x)] = "dir"
            for x in fn: p = os.path.join(a, x); out[p] = hashlib.sha256(open(p, "rb").read()).hexdigest() + " %o" % os.stat(p).st_mode
    return out

def run(tier):
    rep = vlib.Report("P19", tier, "model_checking"); thorough = tier == "thorough"
    gen = vlib.gen_headers("p19"); exe = vlib.build_explorer("lvew", gen, more=[vlib.HARN + "/fswatch.c"], link=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])
    lib, content = common.std_library(gen, "p19lib"); L = lib.encode()
    # a second library, with damaged files
    bad = vlib.sdir("p19bad"); subprocess.run(["cp", "-r", lib + "/.", bad]); 
    b = bytearray(open(bad + "/x.moc", "rb").read()); b[-1] ^= 1; open(bad + "/x.moc", "wb").write(b)
    b = bytearray(open(bad + "/A/package.moc", "rb").read()); b[-40] ^= 1; open(bad + "/A/package.moc", "wb").write(b)
    b = open(bad + "/D/z.moc", "rb").read(); open(bad + "/D/z.moc", "wb").write(b[:-16])
    S = Secrets(); K = Secrets()
    for n, d in content.items():
        if n.endswith(".moc"): S.text("the text of " + n, d)
    dump = vlib.build("keydump", [vlib.HARN + "/keydump.c"], gen, san=False)
    base = subprocess.run([dump], capture_output=True).stdout; x = lambda a, b: bytes(p ^ q for p, q in zip(a, b))
    keys = {"the library key": base}; masks = 0
    def mask(f, key):
        c = open(os.path.join(lib, f), "rb").read(); return aes(key, c[:16], c[16:-32])[-32:]
    m0 = mask("package.moc", base)
    keys["the key mask of the root package"] = m0; keys["the masked key of the root package"] = x(base, m0)
    m1 = mask("A/package.moc", x(base, m0)); keys["the key mask of A"] = m1; keys["the masked key of A"] = x(base, m1)
    c = open(os.path.join(lib, "A/y.moc"), "rb").read(); masks = aes(x(base, m1), c[:16], c[16:-32]) == content["A/y.moc"]
    for n, k in keys.items(): S.key(n, k); K.key(n, k)
    der = base64.b64decode(b"".join(l for l in open(vlib.KEYS + "/lve.pem", "rb").read().splitlines() if not l.startswith(b"-")))
    for q in (S, K): q.text("the private key of the executable", b"".join(l for l in open(vlib.KEYS + "/lve.pem", "rb").read().splitlines()[2:-2]), 20)
    priv = subprocess.run(["openssl", "pkey", "-in", vlib.KEYS + "/lve.pem", "-noout", "-text"], capture_output=True).stdout.decode()
    m = re.search(r"privateExponent:((?:\s+[0-9a-f:]+)+)", priv) or re.search(r"prime1:((?:\s+[0-9a-f:]+)+)", priv)
    if m: e = bytes.fromhex(re.sub(r"[^0-9a-f]", "", m.group(1))); S.key("the private exponent", e); K.key("the private exponent", e)
    A = []
    def add(m, op="M", a=0, **kw): A.append(Step(m, op=op, a=a, name=op + ":" + m[:40].decode("latin1").replace("\n", "|"), **kw)); return len(A) - 1
    V = add(msg("VERSION", num=1)); LB = add(msg("LIB", L)); BD = add(msg("LIB", bad.encode())); 
    files = [add(msg("FILE", f.encode())) for f in ("x.moc", "package.moc", "A/y.moc", "D/z.moc", "A/package.moc", "plain.txt", "nosuch.moc", "A/../x.moc", "../secret.moc", "X.MOC", "a/Y.moc", "")]
    other = [add(msg("FEATURE", b"feat")), add(msg("FEATURE", b"feat"), la=0), add(msg("FEATURE", b"feat"), ln=0), add(msg("RETURNFEATURE", b"feat")), add(msg("LICENSE", b"L")), add(msg("TOOLS")), add(b"XYZZY 1\n"), add(b"FILE 99\nx.moc"), add(b"FILE 5 5 5\nx"), add(b"\0" * 40), add(b"A" * 3000)]
    ends = [add(b"", "X"), add(b"", "C"), add(b"", "G"), add(msg("FILE", b"x.moc"), "D"), add(msg("FILE", b"x.moc"), "T", 9), add(msg("FILE", b"x.moc"), "T", 40), add(msg("FILE", b"x.moc"), "S", 4), add(msg("FILE", b"x.moc"), "P", msg("FILE", b"A/y.moc"))]
    core = files[:5] + [other[0], other[6]]
    def seqs(deep):
        out = set()
        for l in (LB, BD):
            for s in itertools.product(files + other, repeat=2):
                if deep or s[0] in core or s[1] in core: out.add((V, l) + s)
            for a in files + other:
                for e in ends: out.add((V, l, a, e)); out.add((V, l, e))
            if deep:
                for s in itertools.product(core, repeat=3 if not thorough else 4): out.add((V, l) + s)
            out.add((V, l) + tuple(files + other))
        for s in itertools.product([V, LB, BD] + files[:3] + other[:1] + other[5:8], repeat=3 if thorough else 2): out.add(s)
        return out
    W = vlib.sdir("p19w"); cfgs = []
    for who, key, chain, mp, cipher in (("trusted tool", "a", None, None, None), ("trusted tool, TLS 1.2", "a", None, 0x0303, None), ("unknown tool", "x", None, None, None), ("tool without certificate", None, None, None, None),
                                  ("trusted tool without encryption", "a", None, 0x0303, "eNULL"), ("anonymous tool", None, None, 0x0303, "aNULL"), ("tool with a forged key", "forge:a", None, None, None)):
        for logm in ("off", "on", "existing", "unwritable", "in the library"): 
            if logm in ("unwritable", "existing", "in the library") and who != "trusted tool": continue
            cfgs.append((who, key, chain, mp, cipher, logm))
    checked = 0; sizes = {"raw": 0, "log": 0, "stderr": 0}; sess = 0; total = 0
    if not masks: rep.assumptions = ["the key masks could not be derived from the encrypted library (another file format); they are not searched for"]
    for n, (who, key, chain, mp, cipher, logm) in enumerate(cfgs):
        d = os.path.join(W, str(n)); cwd, tmp, rec = d + "/cwd", d + "/tmp", d + "/rec"
        for y in (cwd, tmp, rec): os.makedirs(y)
        env = {"TMPDIR": tmp, "HOME": tmp, "FSWATCH": rec + "/fs@ID@"}; log = None
        if logm in ("on", "existing"): log = rec + "/log@ID@"
        if logm == "existing":
            for i in range(vlib.NPROC): open(rec + "/log%d" % i, "w").write("old content\n" * 50)
        if logm == "unwritable": log = tmp
        if logm == "in the library": log = lib + "/semla@ID@.log"
        if log: env["SEMLA_LVE_LOG_FILE"] = log
        before = snap(lib, bad, cwd, tmp)
        deep = who == "trusted tool" and logm in ("off", "on")
        Q = seqs(deep or thorough)
        res = vlib.explore(exe, A, Q, key=key, chain=chain, maxproto=mp, env=env, extra=["chdir " + cwd, "raw " + rec + "/raw@ID@", "stderr " + rec + "/err@ID@"] + (["cipher " + cipher] if cipher else []))
        after = snap(lib, bad, cwd, tmp); conf = "%s, log %s" % (who, logm); R = lambda p=(): common.replay_data(A, p, peer=key, log=logm)
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not (logm == "in the library" and re.fullmatch(re.escape(lib) + r"/semla\d+\.log", k)))
        if changed: rep.violation("%s: files changed: %s" % (conf, changed[:5]), R())
        for f in changed:
            if f in after and after[f] != "dir" and logm != "in the library": w = S.find(open(f, "rb").read()); w and rep.violation("%s: the file %s holds %s" % (conf, f, w), R())
        logs = sorted(f for f in (os.listdir(rec))) ; found = 0
        for f in logs:
            data = open(os.path.join(rec, f), "rb").read()
            if f.startswith("raw"):
                sizes["raw"] += len(data); why = records(data) or S.find(data)
                if why: rep.violation("%s: the output stream carries %s" % (conf, why), R())
            elif f.startswith("err") or f.startswith("log"):
                if f.startswith("log"): found += 1
                sizes["log" if f.startswith("log") else "stderr"] += len(data); data = bytes(data[:3000000]); why = S.find(b"\n".join(sorted(set(data.split(b"\n")))), True) or S.find(data[:300000], True)
                if why: rep.violation("%s: the %s carries %s" % (conf, "log" if f.startswith("log") else "error stream", why), R())
            elif f.startswith("fs"):
                for line in data.decode(errors="replace").splitlines():
                    op, _, p = line.partition(" ")
                    if "/run/" in p and p.startswith(vlib.scratch()) or p.startswith(rec + "/raw") or p.startswith(rec + "/err"): continue     # the harness's own files
                    if log and re.fullmatch(re.escape(log).replace("@ID@", r"\d+"), p): continue
                    if p == "/dev/null": continue
                    rep.violation("%s: the executable used %s on %s" % (conf, op, p), R()); break
        if logm == "in the library":
            for f in os.listdir(lib):
                if f.endswith(".log"): why = S.find(open(os.path.join(lib, f), "rb").read(), True); os.remove(os.path.join(lib, f)); found += 1; why and rep.violation("%s: the log carries %s" % (conf, why), R())
        rep.outcome("log written" if found else "no log")
        served = 0
        for path, nd in res.nodes.items():
            if nd.status == "died" and not rep.full(): rep.violation("%s, session %s: the executable crashed or hung: %s" % (conf, common.describe(A, path), (res.asan or [""])[0][:600]), R(path)); continue
            if nd.status != "ok": continue
            checked += 1; raw = (nd.reply or b"") + (nd.end[0] if nd.end else b"")
            w = K.find(raw[:6000], True) if raw else None
            if w and not rep.full(): rep.violation("%s, session %s: a reply carries %s" % (conf, common.describe(A, path), w), R(path))
            if b"FILECONT" in raw: served += 1
        total += served; sess += len(Q)
        rep.sample({"configuration": conf, "sessions": len(Q), "states": sum(1 for v in res.nodes.values() if v.status == "ok"), "replies with content": served})
    rep.assumptions = (getattr(rep, "assumptions", None) or []) + ["build without DEBUG (a debug build is documented to log keys)", "secrets are searched for literally, in base64, hexadecimal and decimal print, at least 8 consecutive bytes of a key or 12 of a text"]
    rep.outcomes["replies with file content"] = total; rep.outcomes.update({"bytes searched: " + k: v for k, v in sizes.items()})
    return rep.finish(states=checked, sessions=sess, evaluations=checked, distinct_nontrivial=checked, rule="one visit per session prefix and configuration; raw output parsed as TLS records, every outlet searched for every secret", exhaustive=True)

"""P25: every cut, change, loss, repetition and exchange of the bytes a tool sends, every TLS version and cipher suite, on the real executable (and the suites on the tool side)."""
import glob, multiprocessing, os, select, ssl, subprocess, time
import vlib
from checks import common, toollib
from vlib import msg

STALL, HANG = 0.25, 25
VERS = {"1.2": ssl.TLSVersion.TLSv1_2, "1.3": ssl.TLSVersion.TLSv1_3, "1.1": ssl.TLSVersion.TLSv1_1, "1.0": ssl.TLSVersion.TLSv1}
G = {}

def context(ver, suites=None, cert=True):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
    import warnings; warnings.simplefilter("ignore")
    c.minimum_version = ssl.TLSVersion.MINIMUM_SUPPORTED; c.maximum_version = VERS[ver]; c.minimum_version = VERS[ver]
    c.set_ciphers((suites or "DEFAULT") + (":@SECLEVEL=0" if suites else ""))
    if cert: c.load_cert_chain(G["cert"], vlib.KEYS + "/a.pem")
    return c

def records(b):
    out = []
    while len(b) >= 5:
        n = 5 + int.from_bytes(b[3:5], "big"); out.append(b[:n]); b = b[n:]
    if b: out.append(b)
    return out

CLEAR = {"text": b"VERSION 1\n", "appdata": b"\x17\x03\x03\x00\x0aVERSION 1\n", "empty-appdata": b"\x17\x03\x03\x00\x00", "ccs": b"\x14\x03\x03\x00\x01\x01", "close": b"\x15\x03\x03\x00\x02\x01\x00",
         "fatal": b"\x15\x03\x03\x00\x02\x02\x28", "warning": b"\x15\x03\x03\x00\x02\x01\x5a", "empty-handshake": b"\x16\x03\x03\x00\x00", "hello-request": b"\x16\x03\x03\x00\x04\x00\x00\x00\x00",
         "finished": b"\x16\x03\x03\x00\x10\x14\x00\x00\x0c" + b"\0" * 12, "heartbeat": b"\x18\x03\x03\x00\x03\x01\x40\x00", "sslv2": b"\x80\x2e\x01\x03\x01\x00\x15\x00\x00\x00\x10", "zeros": b"\0" * 64,
         "huge": b"\x16\x03\x03\xff\xff" + b"\1" * 300, "unknown": b"\xff\x03\x03\x00\x01\x00"}

class Wire:
    """Passes the tool's bytes on, with one fault in them."""
    def __init__(self, fault): self.f = fault; self.off = 0; self.rec = 0; self.hit = None; self.last = b""; self.total = b""; self.recs = []; self.held = None; self.talk = False
    def feed(self, b, nmsg):
        """bytes to deliver, True: end of the input after them"""
        f = self.f; self.recs += [len(r) for r in records(b)]
        if f is None or self.hit is not None and f[0] not in ("swap",): return b, False
        k = f[0]
        if k in ("cut", "flip"):
            o = self.off; self.off += len(b)
            if not (o <= f[1] < o + len(b)): return b, False
            self.hit = nmsg; i = f[1] - o
            if k == "cut": return b[:i], True
            return b[:i] + bytes([b[i] ^ f[2]]) + b[i + 1:], False
        out = b""
        for r in records(b):
            i = self.rec; self.rec += 1
            if k == "swap" and self.held is not None: out += r + self.held; self.held = None; continue
            if i != f[1] or self.hit is not None: out += r; continue
            self.hit = nmsg
            if k == "drop": pass
            elif k == "dup":
                out += r + r
                if r[0] == 23 and self.talk: self.hit += 1     # the first copy is intact
            elif k == "swap": self.held = r
            elif k == "ins": out += CLEAR[f[2]] + r
            elif k == "frag":   # the same content in smaller records (plain records only)
                n = f[2]; body = r[5:]
                out += b"".join(r[:3] + len(body[j:j + n]).to_bytes(2, "big") + body[j:j + n] for j in range(0, len(body), n))
        return out, False

def session(job):
    """Runs one session; returns what came of it."""
    ver, fault, opt = job
    d = G["dir"]; tag = "%d" % os.getpid(); lm = "%s/lm%s" % (d, tag)
    if os.path.exists(lm): os.unlink(lm)
    for f in glob.glob("%s/asan%s*" % (d, tag)): os.unlink(f)
    env = vlib.san_env({"LM_LOG": lm}, "%s/asan%s" % (d, tag))
    p = subprocess.Popen([G["exe"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=d, bufsize=0)
    w = Wire(fault); inp, out = ssl.MemoryBIO(), ssl.MemoryBIO()
    res = {"replies": [], "calls": [], "hand": False, "cipher": None, "why": None, "after": []}; raw = [b""]; state = {"in": True}; nmsg = 0
    def close_in():
        if state["in"]: state["in"] = False; p.stdin.close()
    def flush():
        b = out.read()
        if not b: return
        b, end = w.feed(b, nmsg)
        if state["in"]:
            try:
                o = opt.get("piece", 0)
                if o:
                    for j in range(0, len(b), o): os.write(p.stdin.fileno(), b[j:j + o])
                else:
                    while b: b = b[os.write(p.stdin.fileno(), b):]
            except (BrokenPipeError, ConnectionResetError): pass
            if end:
                if opt.get("deaf"): p.stdout.close()
                close_in()
    def pump():
        if p.stdout.closed: return False
        t = STALL if w.hit is not None and state["in"] else HANG
        if not select.select([p.stdout], [], [], t)[0]:
            if t == STALL:
                close_in(); return pump()
            res["why"] = "the executable neither answers nor ends"; return False
        b = os.read(p.stdout.fileno(), 65536)
        if not b: return False
        raw[0] += b; inp.write(b); return True
    try:
        s = context(ver, opt.get("suites"), opt.get("cert", True)).wrap_bio(inp, out, server_side=False)
        if opt.get("raw") is not None:
            try: os.write(p.stdin.fileno(), opt["raw"])
            except BrokenPipeError: pass
            close_in(); w.hit = 0
        else:
            while True:
                try: s.do_handshake(); res["hand"] = True; res["cipher"] = s.cipher(); break
                except ssl.SSLWantReadError:
                    flush()
                    if not pump(): break
            flush()
            if res["hand"]:
                w.talk = True
                for m in G["msgs"]:
                    nmsg = len(res["replies"])
                    s.write(m); flush(); nmsg += 1; buf = b""; got = None
                    while got is None:
                        try:
                            x = s.read(65536)
                            if not x: break
                            buf += x
                        except ssl.SSLWantReadError:
                            flush()
                            if not pump(): break
                        got = reply(buf)
                    if got is None: break
                    res["replies"].append(got); res["after"].append(len(calls(lm)))
    except (ssl.SSLError, OSError) as e: res["error"] = str(e)[:80]
    close_in()
    while pump(): pass
    if not p.stdout.closed: p.stdout.close()
    try: st = p.wait(HANG)
    except subprocess.TimeoutExpired: p.kill(); st = None; p.wait()
    c = calls(lm); res["calls"] = [x for x in c if x[0] != "free"]
    res["balance"] = len([x for x in c if x[0] == "new"]) - len([x for x in c if x[0] == "free"])
    if st is None: res["why"] = "the executable did not end after its input ended"
    elif st < 0 or st == 99: res["why"] = "the executable crashed (status %s) %s" % (st, "".join(open(f, errors="replace").read()[:700] for f in glob.glob("%s/asan%s*" % (d, tag))[:1]))
    for sec in G["secrets"]:
        if sec in raw[0]: res["why"] = "library content is on the wire in the clear: %r" % sec[:40]
    res["hit"] = w.hit; res["recs"] = w.recs; res["len"] = sum(w.recs)
    return job, res

def reply(b):
    if b"\n" not in b: return None
    h, r = b.split(b"\n", 1); t = h.split()
    n = int(t[-1]) if len(t) > 1 and t[0] in (b"FILECONT", b"ERROR", b"NO", b"YES") and t[-1].isdigit() and t[0] != b"YES" else 0
    return (h, r) if len(r) >= n else None

def calls(lm):
    if not os.path.exists(lm): return []
    return [tuple(l.split(" ", 2)[1:]) for l in open(lm).read().splitlines()]

def judge(res, base):
    """None, or how the outcome differs from 'what came before the fault, or everything'."""
    if res["why"]: return res["why"]
    if res["balance"]: return "%d licence manager(s) never released" % res["balance"]
    full = res["replies"] == base["replies"] and res["calls"] == base["calls"]
    if full: return None
    k = res["hit"] if res["hit"] is not None else len(base["replies"])
    if res["replies"] != base["replies"][:len(res["replies"])]: return "replies %r are not those of the undisturbed session" % (res["replies"][:5],)
    if len(res["replies"]) > k: return "%d requests are answered although the bytes of request %d were damaged" % (len(res["replies"]), k + 1)
    lim = base["after"][k - 1] if k else 0
    if len(res["calls"]) > lim or res["calls"] != base["calls"][:len(res["calls"])]: return "licence calls %r after %d whole requests" % (res["calls"], k)
    return None

def strong(c):
    return c["strength_bits"] >= 128 and "Au=None" not in c["description"] and "Au=DSS" not in c["description"] and "Enc=None" not in c["description"]

def run(tier):
    rep = vlib.Report("P25", tier, "model_checking"); deep = tier == "thorough"
    gen = vlib.gen_headers("p25")
    lib, content = common.std_library(gen)
    G["exe"] = vlib.build("lve_p25", vlib.lve_sources(False) + [vlib.HARN + "/lm_log.c"], gen)
    G["dir"] = vlib.sdir("p25"); G["cert"] = G["dir"] + "/cert.pem"
    vlib.must(["openssl", "req", "-x509", "-new", "-key", vlib.KEYS + "/a.pem", "-subj", "/CN=tool", "-days", "3000", "-set_serial", "1", "-out", G["cert"]])
    G["msgs"] = [msg("VERSION", num=1), msg("LIB", lib.encode()), msg("FEATURE", b"feat"), msg("FILE", b"x.moc"), msg("RETURNFEATURE", b"feat")]
    G["secrets"] = [v for v in content.values() if len(v) > 20] + [b"VERSION 1\n", b"FILECONT"]
    pool = multiprocessing.get_context("fork").Pool(vlib.NPROC)
    counts = {}; shapes = set()
    def note(kind, job, res, base):
        counts[kind] = counts.get(kind, 0) + 1
        shapes.add((job[0], kind, res["hand"], len(res["replies"]), len(res["calls"])))
        rep.outcome("%s: %s, %d replies" % (kind, "handshake" if res["hand"] else "no handshake", len(res["replies"])))
        why = judge(res, base)
        if why: rep.violation("TLS %s, %s: %s" % (job[0], (job[1], job[2]), why), {"version": job[0], "fault": job[1], "options": job[2]})
        elif counts[kind] in (2, 701): rep.sample({"tls": job[0], "fault": str(job[1]), "options": str(job[2]), "handshake": res["hand"], "replies": len(res["replies"])})
    try:
        bases = {}
        for ver in ("1.3", "1.2"):
            _, b = session((ver, None, {})); bases[ver] = b
            ok = b["hand"] and not b["why"] and len(b["replies"]) == 5 and b["replies"][3][1] == content["x.moc"] and b["balance"] == 0 and b["replies"][2][0] == b"YES"
            if not ok:
                rep.violation("TLS %s: an undisturbed session of a trusted tool fails: %s" % (ver, {k: str(v)[:300] for k, v in b.items()}), None)
        if not rep.viol:
            for ver, b in bases.items():
                n = b["len"]; nr = len(b["recs"]); jobs = []
                for i in range(n):
                    jobs.append((ver, ("cut", i), {}))
                    if deep: jobs.append((ver, ("cut", i), {"deaf": 1}))
                    for m in ((1, 2, 4, 8, 16, 32, 64, 128, 255) if deep else (0x01,) if i % 2 else (0x80,)): jobs.append((ver, ("flip", i, m), {}))
                starts = [sum(b["recs"][:j]) for j in range(nr)]
                for st in starts:
                    for j in range(-1, 7):
                        if 0 <= st + j < n: jobs.append((ver, ("cut", st + j), {"deaf": 1}))
                        if 0 <= st + j < n:
                            for m in (1, 2, 4, 8, 16, 32, 64, 128, 255): jobs.append((ver, ("flip", st + j, m), {}))
                for r in range(nr):
                    jobs += [(ver, ("drop", r), {}), (ver, ("dup", r), {}), (ver, ("swap", r), {})]
                    jobs += [(ver, ("ins", r, k), {}) for k in CLEAR]
                    jobs += [(ver, ("frag", r, z), {}) for z in ((1, 2, 3, 7, 64, 200) if deep else (1, 64))]
                for z in (1, 2, 5, 100): jobs.append((ver, None, {"piece": z}))
                jobs = list(dict((str(j), j) for j in jobs).values())
                for job, res in pool.imap_unordered(session, jobs, 8):
                    if job[1] is None:
                        if res["replies"] != b["replies"]: rep.violation("TLS %s, %s: the session differs although only the pieces it arrives in do" % (ver, job[2]), {"job": str(job)})
                        counts["pieces"] = counts.get("pieces", 0) + 1
                    else: note(job[1][0], job, res, b)
            # input that is not TLS at all
            plain = b"".join(G["msgs"])
            raws = [b"", b"\n", plain, plain.replace(b"\n", b"\r\n"), b"\0" * 20000, b"\x16", b"A" * 70000, b"GET / HTTP/1.0\r\n\r\n"] + list(CLEAR.values()) + [plain[:i] for i in range(1, 40)] + [m for m in G["msgs"]]
            raws += [c * k for c in list(CLEAR.values())[:8] for k in (2, 50)]
            for job, res in pool.imap_unordered(session, [("1.3", None, {"raw": r}) for r in raws], 4): note("not TLS", (job[0], "raw", {"raw": job[2]["raw"][:40].hex()}), res, bases["1.3"])
            # versions and suites, offered one by one
            names = {c["name"]: c for c in context("1.2", "ALL:COMPLEMENTOFALL").get_ciphers()}
            old = [c for c in names.values() if c["protocol"] != "TLSv1.3"]
            sj = [(v, None, {"suites": c["name"]}) for v in ("1.2",) + (("1.1", "1.0")) for c in old if v == "1.2" or c["protocol"] in ("TLSv1.0", "SSLv3", "TLSv1")]
            sj += [(v, None, {"suites": "ALL:COMPLEMENTOFALL"}) for v in VERS] + [("1.2", None, {"suites": "eNULL"}), ("1.2", None, {"suites": "aNULL"}), ("1.2", None, {"suites": "eNULL:aNULL:ALL"})]
            taken = set()
            for job, res in pool.imap_unordered(session, sj, 4):
                counts["suite"] = counts.get("suite", 0) + 1
                what = "TLS %s offering only %s" % (job[0], job[2]["suites"]); why = res["why"]
                if res["hand"]:
                    c = names[res["cipher"][0]]; taken.add((job[0], res["cipher"][0])); shapes.add(("suite", job[0], res["cipher"][0]))
                    if not strong(c): why = why or "a connection with the weak suite %s is accepted" % res["cipher"][0]
                    if job[0] in ("1.0", "1.1"): why = why or "a connection older than TLS 1.2 is accepted"
                    if res["replies"] != bases["1.2"]["replies"]: why = why or "the session fails after the handshake"
                elif res["replies"] or res["calls"]: why = why or "requests are acted on without a handshake"
                if why: rep.violation("%s: %s" % (what, why), {"job": str(job)})
            for ver, must in (("1.2", "ECDHE-RSA-AES256-GCM-SHA384"), ("1.2", "ECDHE-RSA-AES128-GCM-SHA256")):
                if (ver, must) not in taken: rep.violation("TLS %s with %s is refused" % (ver, must), None)
            rep.outcome("suites accepted: %d" % len(taken))
            # the tool refuses the same suites from its side
            tool, fake = toollib.build(gen)
            cases = []
            for v, lst in (("0x0303", old), ("0x0302", [None]), ("0x0301", [None])):
                for c in lst:
                    cs = toollib.Case("%s %s" % (v, c and c["name"]), ["version 1 1"], ["H", "R", "W " + toollib.hx("VERSION 1\n"), "E"], pre=["env FAKE_SUITES %s:@SECLEVEL=0" % (c["name"] if c else "ALL:COMPLEMENTOFALL"), "env FAKE_VERSION " + v])
                    cs.c = c; cases.append(cs)
            toollib.run(tool, fake, cases); ok = 0
            for c in cases:
                counts["tool suite"] = counts.get("tool suite", 0) + 1
                ab = toollib.abnormal(c); started = bool(c.res) and c.res[0]["ok"]
                if ab: rep.violation("tool against an executable offering %s: %s" % (c.name, ab), c.dump())
                elif started and (c.c is None or not strong(c.c)): rep.violation("the tool accepts an executable that offers only %s" % c.name, c.dump())
                elif started: ok += 1
            if not ok: rep.violation("the tool accepts no suite at all", None)
            rep.outcome("tool suites accepted: %d" % ok)
    finally:
        pool.terminate(); pool.join()
    rep.assumptions = ["OpenSSL implements TLS correctly for the configuration it is given", "one fault per session", "a peer that stalls is closed after %.2f s; the executable may then have acted on nothing" % STALL]
    return rep.finish(states=len(shapes), transitions=sum(counts.values()), traces_validated_against_impl=sum(counts.values()), exhaustive=True, runs=str(counts))

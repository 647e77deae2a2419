"""Running the tool-side API against scripted peers (checks P10, P11, P12)."""
import glob, hashlib, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib

def build(gen):
    tool = vlib.build("tool_run", vlib.repo_c("tool") + vlib.repo_c("common") + [vlib.HARN + "/tool_run.c"], gen, link=["-Wl,--wrap=pipe,--wrap=pipe2,--wrap=fork,--wrap=vfork,--wrap=access"])
    fake = vlib.build("fake_lve", [vlib.HARN + "/fake_lve.c"], gen, san=False)
    return tool, fake

def pattern(n):
    return bytes((i * 131 + (i >> 8) * 17 + 5) & 0xff for i in range(n))

class Case:
    """calls: driver lines after start; script: peer lines (None: no scripted peer, exe is started as it is)"""
    def __init__(self, name, calls, script=None, exe=None, pre=(), script2=None):
        self.script2 = script2
        self.name, self.calls, self.script, self.exe, self.pre = name, calls, script, exe, list(pre)
        self.res = []; self.status = None; self.log = []; self.done = False; self.asan = ""; self.orphans = None; self.extra = None
    def dump(self): return {"name": self.name, "pre": self.pre, "calls": self.calls[:40], "script": [l[:400] for l in (self.script or [])][:80], "exe": self.exe}

_n = 0
def run(tool, fake, cases, jobs=None):
    """Runs all the cases; fills in res = [{call, ok, err, msg, size, read, sha}], status, log."""
    global _n
    _n += 1
    base = vlib.sdir("tool", str(_n)); jobs = jobs or 2 * vlib.NPROC
    parts = [cases[i::jobs] for i in range(jobs) if cases[i::jobs]]
    def one(pi):
        d = os.path.join(base, str(pi)); os.makedirs(d)
        with open(d + "/scripts", "w") as fs, open(d + "/cases", "w") as fc:
            for i, c in enumerate(parts[pi]):
                off = fs.tell()
                fs.write("".join(l + "\n" for l in (c.script or [])) + ".\n")
                off2 = fs.tell()
                if c.script2: fs.write("".join(l + "\n" for l in c.script2) + ".\n")
                fc.write("case %d\n" % i)
                if c.script is not None: fc.write("env FAKE_SCRIPT %s/scripts:%d\nenv FAKE_CASE %d\n" % (d, off, i))
                for l in c.pre: fc.write(l + "\n")
                if c.exe != "": fc.write("start %s\n" % (c.exe or fake))
                for l in c.calls: fc.write(l.replace("@FAKE", fake).replace("@S2", "%s/scripts:%d" % (d, off2)).replace("@D", d + "/c%d" % i) + "\n")
                fc.write(".\n")
        log = d + "/log"
        env = vlib.san_env({"FAKE_LOG": log, "FAKE_KEY": os.path.join(vlib.KEYS, "lve.pem")}, d + "/asan")
        r = subprocess.run([tool, d + "/cases", d + "/out"], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode: raise vlib.BuildError("tool driver failed %d %s" % (r.returncode, r.stderr[-1000:]))
        cur = None
        for l in open(d + "/out"):
            w = l.split()
            if w[0] == "case": cur = parts[pi][int(w[1])]
            elif w[0] == "res": cur.res.append({"call": w[1], "ok": int(w[2]), "err": int(w[3])})
            elif w[0] == "msg": cur.res[-1]["msg"] = bytes.fromhex(w[1]) if len(w) > 1 else b""
            elif w[0] == "code": cur.res[-1]["code"] = int(w[2])
            elif w[0] == "nomsg": cur.res[-1]["msg"] = None
            elif w[0] == "size": cur.res[-1]["size"] = int(w[1])
            elif w[0] == "read": cur.res[-1]["read"] = tuple(map(int, w[1:]))
            elif w[0] == "sha": cur.res[-1]["sha"] = w[1]
            elif w[0] == "notfreed": cur.res[-1]["notfreed"] = True
            elif w[0] == "orphans": cur.orphans = int(w[1])
            elif w[0] == "done": cur.done = True
            elif w[0] == "status": cur.status = int(w[1])
        if os.path.exists(log):
            for l in open(log):
                w = l.rstrip("\n").split(" ")
                c = parts[pi][int(w[0])]; c.log.append((w[1], bytes.fromhex(w[2]) if len(w) > 2 else b""))
        for i, c in enumerate(parts[pi]):
            if os.path.exists(d + "/c%d" % i): c.extra = open(d + "/c%d" % i).read()
        logs = [open(f, errors="replace").read()[:1500] for f in sorted(glob.glob(d + "/asan*"))[:3]]
        for c in parts[pi]:
            if c.status not in (0,) or not c.done: c.asan = (logs or [r.stderr.decode(errors="replace")[:600]])[0]
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, range(len(parts))))
    import shutil; shutil.rmtree(base, ignore_errors=True)
    return cases

SILENT = ("fail", "env", "cap", "noerr", "slot", "orphans")
def abnormal(c):
    """None, or what went wrong with the process itself."""
    if c.status == 0 and c.done: return None
    if c.status is None: return "not run after earlier hangs"
    calls = ["start"] + [l for l in c.calls if l.split()[0] not in SILENT] + ["?"]
    at = "call %d (%s)" % (len(c.res), calls[min(len(c.res), len(calls) - 1)][:60])
    if c.status == 256 + 14: return "the tool hung (no result after 20 s) in " + at
    return "the tool crashed (status %s) in %s: %s" % (c.status, at, c.asan)
def hx(b): return (b if isinstance(b, bytes) else b.encode()).hex()
def sha(b): return hashlib.sha256(b).hexdigest()

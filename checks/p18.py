"""P18: the real embedding tools generate headers for enumerated keys; programs compiled against the headers dump the arrays."""
import itertools, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import cryptlib as C

TYPES = ["TOOL_PUBLIC", "TOOL_PRIVATE", "LVE_PRIVATE"]

def program(d, keys):
    """keys: list of (header, name) -> list of (LEN, array size, bytes after INITIALIZE, bytes after CLEAR) or an error text"""
    src = os.path.join(d, "dump.c")
    with open(src, "w") as f:
        f.write("#include <stdio.h>\n#include <string.h>\nstatic void dump(const unsigned char *p, size_t n) { fwrite(&n, sizeof n, 1, stdout); fwrite(p, 1, n, stdout); }\n")
        for i, (h, n) in enumerate(keys):
            f.write('#include "%s"\nstatic void __attribute__((noinline)) f%d(void) { DECLARE_%s(); size_t l = %s_LEN; memset(%s, 0xA5, sizeof %s); INITIALIZE_%s(); fwrite(&l, sizeof l, 1, stdout); dump(%s, sizeof %s); CLEAR_%s(); dump(%s, sizeof %s); }\n' % ((h, i) + (n,) * 10))
        f.write("int main(void) { " + "".join("f%d();" % i for i in range(len(keys))) + " return fflush(stdout) != 0; }\n")
    r = subprocess.run(["gcc", "-w", "-O0", "-fsanitize=address", "-o", src + ".x", src], capture_output=True)
    if r.returncode: return "the generated headers cannot be compiled: %s" % r.stderr.decode(errors="replace")[:600]
    r = subprocess.run([src + ".x"], capture_output=True, env=vlib.san_env())
    if r.returncode: return "a program using the generated headers fails (status %d): %s" % (r.returncode, r.stderr.decode(errors="replace")[:900])
    b = r.stdout; i = 0; out = []
    def num():
        nonlocal i; i += 8; return int.from_bytes(b[i - 8:i], "little")
    for _ in keys:
        l = num(); n = num(); a = b[i:i + n]; i += n; n2 = num(); c = b[i:i + n2]; i += n2; out.append((l, n, a, c))
    return out

def judge(want, res):
    l, n, a, c = res
    if l != len(want): return "the length is %d, not %d" % (l, len(want))
    if n < l + 1 or a[:l] != want:
        k = next((x for x in range(min(l, n)) if a[x] != want[x]), min(l, n))
        return "byte %d of the array is %s, not %s" % (k, a[k:k + 1].hex() or "missing", want[k:k + 1].hex() or "absent")
    if a[l] != 0: return "the array is not zero-terminated (%02x)" % a[l]
    left = [x for x in range(n) if c[x] not in (0, 0xA5)]
    if left or any(c[:l]): return "after clearing, %d bytes remain (first at %d)" % (len(left) or sum(1 for x in c[:l] if x), (left or [0])[0])
    return None

def run(tier):
    rep = vlib.Report("P18", tier, "model_checking"); thorough = tier == "thorough"; checked = 0; sizes = {}; faults = 0
    g = vlib.sdir("gen_none"); e = vlib.SRC + "/embedfile/"; obf = vlib.repo_c("obfuscators/dummy/src"); fi = vlib.HARN + "/fi.c"
    OB = vlib.build("p18_obfuscate", [e + "obfuscate.c", e + "obfuscate_utils.c", fi] + obf, g, link=C.link_wraps())
    RK = vlib.build("p18_randomize", [e + "randomize_key.c", e + "obfuscate_utils.c", fi] + obf, g, link=C.link_wraps())
    LIM = vlib.build("limit", [vlib.HARN + "/limit.c"], g, san=False)
    W = vlib.sdir("p18")
    def call(cmd, env=None, limit=None):
        try: r = subprocess.run(([LIM, str(limit)] if limit is not None else []) + cmd, capture_output=True, env=vlib.san_env(dict({"FI": "none"}, **(env or {}))), timeout=60, stdin=subprocess.DEVNULL); return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: return -999, b"timeout"
    cases = []     # (class, kind, data, type, want)
    def text(cls, data, t): sizes[cls] = sizes.get(cls, 0) + 1; cases.append((cls, "text", bytes(data), t, bytes(data).replace(b"\r", b"")))
    def rand(cls, key): sizes[cls] = sizes.get(cls, 0) + 1; cases.append((cls, "random", bytes(key), None, bytes(key)))
    for t in TYPES:
        for v in range(256): text("single bytes", [v], t) if t == TYPES[v % 3] or thorough or v in (0, 10, 13, 127, 128, 255) else None
    for v in list(range(0, 256, 1 if thorough else 16)) + [13, 10, 34, 39, 92, 48, 57, 65, 70, 97, 102, 103, 120, 37, 63, 255, 127]:
        text("byte pairs", [x for a in range(256) for x in (a, v)], TYPES[v % 3])
    for k in range(1, 9 if thorough else 7):
        for n, w in enumerate(itertools.product(b"\r\nx", repeat=k)): text("carriage returns", w, TYPES[n % 3])
    for n in list(range(1, 300, 1 if thorough else 3)) + [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1679, 2047, 2048, 4095, 4096, 4097] + ([8192, 20000] if thorough else []):
        text("lengths", bytes((i * 37 + n) % 251 + 1 for i in range(n)), TYPES[n % 3])
        if n in (256, 4096, 4097): text("lengths", bytes((i * 37 + n) % 241 + 14 for i in range(n)), TYPES[n % 3])
    for n in (8200, 16390, 32768, 33000, 65536, 66000) + ((131080,) if thorough else ()): text("long keys", bytes((i * 37 + n) % 241 + 14 for i in range(n)), TYPES[n % 3])
    for f in sorted(os.listdir(vlib.KEYS)):
        b = open(os.path.join(vlib.KEYS, f), "rb").read()
        for n, x in enumerate((b, b.replace(b"\n", b"\r\n"), b.replace(b"\n", b"\r"), b.rstrip(b"\n"), b + b"\r\n\r\n", b"\r" + b)): text("key files", x, TYPES[n % 3])
    base = bytes((i * 59 + 7) % 256 for i in range(32)); base = base.replace(b"\r", b"\x01")
    for v in range(256): rand("random keys: one value", bytes([v]) * 32)
    for p in range(32):
        for v in (range(256) if thorough else (0, 9, 10, 13, 26, 34, 37, 39, 92, 127, 128, 200, 255)): k = bytearray(base); k[p] = v; rand("random keys: each value at each position", k)
    for a, b in itertools.combinations(range(32), 2):
        k = bytearray(base); k[a] = k[b] = 13; rand("random keys: two carriage returns", k)
        if thorough: k = bytearray(base); k[a] = 0; k[b] = 13; rand("random keys: two carriage returns", k)
    for a in range(33): rand("random keys: runs", b"\r" * a + base[a:]); rand("random keys: runs", base[:a] + b"\r" * (32 - a)); rand("random keys: runs", b"\0" * a + base[a:])
    NAMES = ["K", "PRIVATE_KEY_TOOL", "PUBLIC_KEY_TOOL12", "MLLE_CR_KEY"]
    def gen(it):
        i, (cls, kind, data, t, want) = it
        h = "%s/h%d.h" % (W, i); name = "%s_%d" % (NAMES[i % 4], i)
        if kind == "text":
            f = "%s/in%d" % (W, i); open(f, "wb").write(data); rc, out = call([OB, h, f, name, t]); os.remove(f)
        else:
            rc, out = call([RK, h, name], {"FI_RAND": data.hex(), "FI_LOG": h + ".log"})
        return rc, out, h, name
    def drawn(h, want):     # what the random generator gave, in case the tool asks in several calls
        if not os.path.exists(h + ".log"): return want
        r = [l[5:] for l in open(h + ".log").read().splitlines() if l.startswith("rand ")]; os.remove(h + ".log")
        return bytes.fromhex("".join(r)) if r else want
    todo = []
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for (i, c), (rc, out, h, name) in zip(enumerate(cases), ex.map(gen, enumerate(cases))):
            if c[1] == "random": c = c[:4] + (drawn(h, c[4]),)
            if rc != 0:
                if not rep.full(): rep.violation("%s: %s key %s (%d bytes): status %d: %s" % (c[0], c[1], c[2][:40].hex(), len(c[2]), rc, out[-700:]), {"class": c[0], "kind": c[1], "data": c[2].hex(), "type": c[3]})
                rep.outcome("wrong")
            else: todo.append((c, h, name))
        # a few headers per program: by total size
        groups = [[]]; s = 0
        for x in todo:
            if s > 4000 or len(groups[-1]) >= 150: groups.append([]); s = 0
            groups[-1].append(x); s += len(x[0][2])
        def prog(it):
            n, gr = it; d = vlib.sdir("p18", "g%d" % n); r = program(d, [(h, name) for c, h, name in gr])
            if isinstance(r, str):     # find the culprits one by one
                r = [x[0] if not isinstance(x, str) else x for x in (program(d, [(h, name)]) for c, h, name in gr)]
            for f in os.listdir(d): os.remove(os.path.join(d, f))
            return r
        for gr, res in zip(groups, ex.map(prog, enumerate(groups))):
            for (c, h, name), r in zip(gr, res):
                checked += 1; why = r if isinstance(r, str) else judge(c[4], r)
                rep.outcome("wrong" if why else "array equals the key, and is cleared")
                if why and not rep.full(): rep.violation("%s: %s key %s (%d bytes): %s" % (c[0], c[1], c[2][:60].hex(), len(c[2]), why), {"class": c[0], "kind": c[1], "data": c[2].hex(), "type": c[3], "why": why})
                elif checked % 397 == 1: rep.sample({"class": c[0], "key": c[2][:32].hex(), "bytes": len(c[2]), "length": r[0]})
    # two generated keys are two different sets of bytes, taken from the random generator
    keys = []
    for i in range(8):
        h = "%s/r%d.h" % (W, i); rc, out = call([RK, h, "R%d" % i])
        if rc: rep.violation("randomize_key: status %d: %s" % (rc, out[-300:]), {"run": i})
        else: keys.append((h, "R%d" % i))
    r = program(vlib.sdir("p18", "gr"), keys); checked += 1
    if isinstance(r, str): rep.violation("random keys: " + r, {})
    elif len({x[2][:x[0]] for x in r}) != len(keys) or any(x[0] != 32 for x in r): rep.violation("generated keys repeat or have a wrong length", {"lengths": [x[0] for x in r]})
    # the list of trusted tool keys
    for n in range(1, 6):
        for var in range(2):
            d = vlib.sdir("p18", "l%d%d" % (n, var)); data = []
            for i in range(n):
                b = (b"key %d %d\r\nline\r\n" % (i, var)) * (i + 1) if var else bytes([65 + i]) * (3 * (n - i)); data.append(b.replace(b"\r", b""))
                open(d + "/k", "wb").write(b); call([OB, "%s/public_key_tool%d.h" % (d, i), d + "/k", "PUBLIC_KEY_TOOL%d" % i, "TOOL_PUBLIC"])
            c = subprocess.run(["cmake", "-DPUBLIC_KEY_TOOL_NUM=%d" % n, "-DPUBLIC_KEY_TOOL_H=%s/public_key_tool.h" % d, "-P", vlib.SRC + "/GenPublicKeyToolH.cmake"], capture_output=True); checked += 1
            open(d + "/m.c", "w").write('#include <stdio.h>\n#include <string.h>\n#include "public_key_tool.h"\nint main(void) { int i; size_t k; DECLARE_PUBLIC_KEY_TOOL(); DECLARE_PUBLIC_KEY_TOOL_LEN(); INITIALIZE_PUBLIC_KEY_TOOL(); printf("%d\\n", PUBLIC_KEY_TOOL_NUM); '
                'for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++) { for (k = 0; k <= PUBLIC_KEY_TOOL_LEN[i]; k++) printf("%02x", PUBLIC_KEY_TOOL[i][k]); printf("\\n"); } CLEAR_PUBLIC_KEY_TOOL(); for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++) for (k = 0; k < PUBLIC_KEY_TOOL_LEN[i]; k++) if (PUBLIC_KEY_TOOL[i][k]) { printf("left\\n"); return 0; } printf("%s\\n", PUBLIC_KEY_TOOL[i] ? "no end" : "end"); return 0; }\n')
            r = subprocess.run("gcc -w -fsanitize=address -I%s -o %s/m %s/m.c && %s/m" % (d, d, d, d), shell=True, capture_output=True, env=vlib.san_env())
            want = "%d\n%s\nend\n" % (n, "\n".join((b + b"\0").hex() for b in data)); sizes["lists of trusted keys"] = sizes.get("lists of trusted keys", 0) + 1
            if r.returncode or r.stdout.decode(errors="replace") != want: rep.violation("the list of %d trusted keys is not what was given: status %d %r %r" % (n, r.returncode, r.stdout[-300:], r.stderr[-500:]), {"keys": [b.hex() for b in data]})
    # faults
    key = open(os.path.join(vlib.KEYS, "lve.pem"), "rb").read(); kf = W + "/key.pem"; open(kf, "wb").write(key); rk = bytes(range(32))
    def fault(what, tool, args, env=None, limit=None, must_fail=False, want=None):
        nonlocal checked, faults
        h = W + "/fault.h"
        if os.path.isfile(h): os.remove(h)
        rc, out = call([tool] + [h if a == "@out" else a for a in args], env, limit); checked += 1; faults += 1; why = None
        if rc < 0 or rc in (95, 96, 97, 98, 99, 134, 139): why = "crash or hang (status %d): %s" % (rc, out[-600:])
        elif rc == 0 and must_fail: why = "exit 0"
        elif rc == 0:
            r = program(vlib.sdir("p18", "f"), [(h, "K")]) if os.path.exists(h) else "no header"
            why = "exit 0, but " + r if isinstance(r, str) else judge(want, r[0])
        rep.outcome("fault reported" if rc > 0 else "fault without effect")
        if why and not rep.full(): rep.violation("%s: %s" % (what, why), {"what": what, "args": args, "env": env, "limit": limit})
    for tool, args, env, want in ((OB, ["@out", kf, "K", "LVE_PRIVATE"], {}, key), (RK, ["@out", "K"], {"FI_RAND": rk.hex()}, rk)):
        nm = os.path.basename(tool)
        log = W + "/log"
        if os.path.exists(log): os.remove(log)
        fault(nm + " without fault", tool, args, dict(env, FI_LOG=log), want=want)
        cnt = {l.split()[1]: int(l.split()[2]) for l in open(log).read().splitlines() if l.startswith("count ")}
        full = os.path.getsize(W + "/fault.h") if os.path.exists(W + "/fault.h") else 1000
        for f, n in cnt.items():
            for k in range(1, n + 1): fault("%s with failing %s number %d" % (nm, f, k), tool, args, dict(env, FI="%s:%d" % (f, k)), want=want, must_fail=f == "RAND_bytes")
            if f == "RAND_bytes" and n: fault("%s with RAND_bytes not supported" % nm, tool, args, dict(env, FI="RAND_bytes:1", FI_RANDRC="-1"), want=want, must_fail=True)
        for n in sorted(set(range(0, full + 2, max(1, full // (2000 if thorough else 40)))) | {full - 1, full - 2, full, full + 1, 1}): fault("%s with the disk full after %d of %d bytes" % (nm, n, full), tool, args, env, limit=n, want=want, must_fail=n < full)
        fault(nm + " with a missing output directory", tool, [W + "/nope/x.h" if a == "@out" else a for a in args], env, must_fail=True)
        fault(nm + " with a directory as output", tool, [W if a == "@out" else a for a in args], env, must_fail=True)
        for n in range(len(args)): fault(nm + " with %d arguments" % n, tool, args[:n], env, must_fail=True)
        fault(nm + " with too many arguments", tool, args + ["x"], env, must_fail=True)
    for f in (W + "/nope.pem", W, W + "/nope/x.pem", ""): fault("obfuscate of %s" % ("a directory" if f == W else "a missing file"), OB, ["@out", f, "K", "LVE_PRIVATE"], must_fail=True)
    for t in ("", "ENCRYPT", "lve_private", "LVE_PRIVATE ", "TOOL", "TOOL_PUBLICX"): fault("obfuscate with the key type '%s'" % t, OB, ["@out", kf, "K", t], must_fail=True)
    rep.outcomes.update({"class " + k: v for k, v in sizes.items()}); rep.outcomes["class faults"] = faults
    rep.assumptions = ["key files are not empty", "the dummy obfuscator of the repository is used"]
    return rep.finish(evaluations=checked, distinct_nontrivial=checked, rule="one header per key, dumped by a program compiled against it, before and after clearing; one run per fault", exhaustive=True)

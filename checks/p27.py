"""P27: archives written with the bundled archive code hold exactly what was added, judged by an independent reader and by its own."""
import itertools, os, struct, subprocess, zipfile, io, zlib
from concurrent.futures import ThreadPoolExecutor
import vlib

FN = ["none", "fopen", "freopen", "fread", "fwrite", "fseek", "ftell", "fflush", "fclose", "malloc", "calloc", "realloc"]
WRAP = ["fopen", "fopen64", "freopen", "freopen64", "fread", "fwrite", "fseeko", "fseeko64", "ftello", "ftello64", "fflush", "fclose", "malloc", "calloc", "realloc"]

DEEP = {1: "no file", 2: "cannot open the archive", 3: "too few entries", 4: "no information on an entry", 5: "name or size of an entry", 6: "comment of an entry", 7: "length of a name", 8: "name of an entry", 9: "kind of an entry", 10: "extraction to the heap",
        11: "extraction into a buffer that is too small succeeds", 12: "extraction into a buffer", 13: "extraction writes behind the buffer", 14: "extraction to a callback", 15: "extraction to a file", 16: "lookup of a name", 17: "lookup of a name without case", 18: "lookup with comment", 19: "lookup of a name nobody added"}

def noise(n, s=1):
    out = bytearray(); x = s * 2654435761 % 2 ** 32 or 1
    for _ in range(n):
        x ^= (x << 13) & 0xffffffff; x ^= x >> 17; x ^= (x << 5) & 0xffffffff; out.append(x >> 11 & 255)
    return bytes(out)

def parse(b):
    """independent zip reader -> list of (name, comment, data); raises ValueError"""
    i = b.rfind(b"PK\5\6")
    if i < 0 or len(b) - i < 22: raise ValueError("no end record")
    d0, d1, n1, n, size, off, cl = struct.unpack("<HHHHIIH", b[i + 4:i + 22])
    if i + 22 + cl != len(b): raise ValueError("bytes after the end record")
    if n1 != n or d0 or d1: raise ValueError("entry counts %d/%d" % (n1, n))
    if n and off + size > i: raise ValueError("directory outside the file")
    p = off; out = []
    for _ in range(n):
        if b[p:p + 4] != b"PK\1\2": raise ValueError("no directory entry at %d" % p)
        flag, method, _t, _d, crc, cs, us, nl, xl, cm, _k, _ia, _ea, lo = struct.unpack("<HHHHIIIHHHHHII", b[p + 8:p + 46])
        name = b[p + 46:p + 46 + nl]; com = b[p + 46 + nl + xl:p + 46 + nl + xl + cm]; p += 46 + nl + xl + cm
        if b[lo:lo + 4] != b"PK\3\4": raise ValueError("no local header for %r" % name[:40])
        lf, lm, _a, _b, lcrc, lcs, lus, lnl, lxl = struct.unpack("<HHHHIIIHH", b[lo + 6:lo + 30])
        if b[lo + 30:lo + 30 + lnl] != name or lm != method: raise ValueError("local header of %r differs" % name[:40])
        if not lf & 8 and (lcrc, lcs, lus) != (crc, cs, us): raise ValueError("sizes of %r differ" % name[:40])
        q = lo + 30 + lnl + lxl; raw = b[q:q + cs]
        if q + cs > off: raise ValueError("data of %r reaches into the directory" % name[:40])
        if method == 0: data = raw
        elif method == 8:
            z = zlib.decompressobj(-15)
            try: data = z.decompress(raw) + z.flush()
            except zlib.error as e: raise ValueError("data of %r: %s" % (name[:40], e))
            if not z.eof or z.unused_data: raise ValueError("deflate stream of %r does not end with its data" % name[:40])
        else: raise ValueError("method %d" % method)
        if len(data) != us or zlib.crc32(data) != crc: raise ValueError("length or checksum of %r" % name[:40])
        out.append((name, com, data))
    if p != off + size: raise ValueError("directory size")
    return out

class Job:
    __slots__ = ("ops", "fault", "pre", "what", "base", "quiet")
    def __init__(self, what, ops, fault=(0, 0), pre=None, base=(), quiet=0): self.what, self.ops, self.fault, self.pre, self.base, self.quiet = what, ops, fault, pre, list(base), quiet

def valid(op):
    name, data, com, level = op
    if name[:1] == b"/" or b"\\" in name or b":" in name or len(name) > 65535 or len(com) > 65535: return False
    if name.endswith(b"/") and data: return False
    return -1 <= level <= 10

def contents(tier):
    """(family, bytes, levels)"""
    th = tier == "thorough"; allv = list(range(-1, 11)); some = [9, 1] if not th else [1, 2, 3, 4, 5, 6, 9, 10]
    for n in range(0, 11 if th else 9):
        for t in itertools.product(b"ab", repeat=n): yield "two letters", bytes(t), [9] if not th else [9, 1, 6]
    for n in range(1, 6 if th else 5):
        for t in itertools.product(b"abc\xff", repeat=n): yield "four letters", bytes(t), [9, 1]
    big = noise(70000)
    dist = set()
    for b in (1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577, 32768): dist |= {b - 1, b, b + 1}
    dist.discard(0)
    lens = list(range(3, 12)) + [13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 257, 258, 259, 260, 516, 517]
    few = [3, 4, 10, 11, 19, 66, 67, 130, 257, 258, 259, 517]
    for d in sorted(dist):
        for l in (lens if th else few):
            yield "repeat", big[:d] + (big[:d] * (l // d + 1))[:l] + b"\x00\x01", some
    for d in (1, 2, 3, 4, 5, 8, 100, 1000, 32768):
        for l in range(3, 300, 1): yield "repeat", big[:d] + (big[:d] * (l // d + 1))[:l], some if d < 2000 or th else ([9] if l % 8 == 0 else [])
    # two repeats, the second at or beyond the window; positions around the wrap of the dictionary
    for pos in (0, 1, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536):
        for l in (3, 5, 258): yield "late repeat", big[:pos] + b"QWERTYUIOPASDF" * 20 + big[:pos][-(l + 3):] + big[:l] + b"QWERTYUIOPASDF", some
    # strings across the end of the dictionary, and strings that agree with them only up to some byte near its start,
    # after which the other one has zeros, or what stood there one or two rounds before
    for rnd in (1, 2) if not th else (1, 2, 3):
        w = 32768 * rnd; full = noise(w + 1500, 3)
        for q in ((1, 8, 100, 250) if not th else (1, 2, 3, 8, 50, 100, 200, 250, 256)):
            p = w - q; S = full[p:p + 300]
            for m in (range(0, 259, 1) if th else [1, 2, 8, 100, 200] + list(range(244, 260))):
                j = q + m
                if j > 270: continue
                for kind, tail in (("zeros", bytes(40)), ("never written", b"\xab" * 40), ("old", full[w - 32768 + m:][:40])):
                    T = S[:j] + tail
                    yield "wrap, copy after", full[:p] + S + noise(50, 9) + T, some
                    yield "wrap, copy before", full[:p - 2000] + T + full[p - 2000 + len(T):p] + S, some
    sizes = list(range(0, 70)) + [127, 128, 255, 256, 257, 258, 259, 260, 511, 512, 513, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 31743, 31744, 31745, 32766, 32767, 32768, 32769, 32770, 49152, 65279, 65280, 65534, 65535, 65536, 65537, 65538, 98303, 98304, 98305, 131071, 131072, 131073, 200001]
    if th: sizes += [262143, 262144, 262145, 1048581, 3000001]
    text = b"".join(b"  Real x%d = %d*y + sin(time) \"variable number %d\";\n" % (i, i * 7919 % 1000, i) for i in range(80000 if th else 4000))
    nb = noise(max(sizes))
    kinds = {"zeros": bytes(max(sizes)), "noise": nb, "text": text, "ramp": bytes(range(256)) * (max(sizes) // 256 + 1), "two symbols": bytes(97 + (c & 1) for c in nb), "half noise": b"".join(nb[i:i + 37] + b"within the library " for i in range(0, max(sizes) // 2, 37)), "sixteen symbols": bytes(c & 15 for c in nb)}
    for k, b in kinds.items():
        for n in sizes: yield "size, " + k, b[:n], (some if n > 5000 else [9, 1, 6, 0])
    for k in range(1, 257):
        yield "symbols", bytes(range(k)) * 3, [9, 1, 6]
        yield "symbols", bytes((i * 167 + 13) % 256 for i in range(k)), [9]
        yield "symbol gap", bytes([0, k - 1, 0, 0, k - 1, 255 - (k - 1)]) * 2, [9]
        yield "symbol runs", bytes(range(256 - k, 256)) + bytes(range(0, k, 2)), [9]
    fib = [1, 1]
    while len(fib) < 25: fib.append(fib[-1] + fib[-2])
    for k in range(2, 25 if th else 24):
        pool = [s for s in range(k) for _ in range(fib[s])]; n = len(pool); step = next(x for x in range(n // 3 + 1, 3 * n) if __import__("math").gcd(x, n) == 1)
        yield "steep frequencies", bytes(pool[i * step % n] * 9 % 251 for i in range(n)), [9] if not th else [9, 1, 6, 10]
        yield "steep frequencies, no repeats", bytes(b for i in range(n) for b in (pool[i * step % n], nb[i])), [9]
    # many frequent symbols and a chain of ever rarer ones: optimal codes longer than deflate allows
    for h in (8, 16, 24, 32, 64, 128, 230) if not th else (4, 8, 12, 16, 20, 24, 32, 48, 64, 100, 128, 200, 230):
        for r in range(1, 20):
            for N in (9000, 30000, 60000):
                b = bytearray(c % h for c in nb[:N]); at = 5
                for i in range(r):
                    for _ in range(fib[i]): b[at % N] = h + i; at += 7919
                yield "rare symbols", bytes(b), some
    for k in range(1, 31):
        # the first k distance codes, each used often
        ds = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577][:k]
        b = bytearray(big[:ds[-1] + 300])
        for j in range(4):
            for d in ds: b += bytes(b[-d:][:7] if d >= 7 else (bytes(b[-d:]) * 7)[:7]); b += nb[len(b) % 1000:][:3]
        yield "distance codes", bytes(b), some
    for lv in allv:
        for b in (b"", b"x", b"abc", b"abcd", b"a" * 1000, text[:70000], nb[:40000], kinds["half noise"][:100000]): yield "level %d" % lv, b, [lv]

def jobs(tier):
    th = tier == "thorough"; out = []
    batch = []
    for fam, data, levels in contents(tier):
        for lv in levels:
            batch.append((fam, data, lv))
    # archives of up to 40 entries or 400 kB
    cur = []; size = 0
    def flush():
        nonlocal cur, size
        if cur: out.append(Job("contents", [(b"e%d-%s" % (i, f.encode().replace(b" ", b"_")), d, b"", lv) for i, (f, d, lv) in enumerate(cur)]))
        cur = []; size = 0
    for it in batch:
        cur.append(it); size += len(it[1])
        if len(cur) >= 40 or size > 400000: flush()
    flush()
    ncont = len(batch)
    t5 = (b"model m Real x; end m;\n" * 300)[:5000]
    al = [(b"a", b"", b"", 9), (b"a", b"abc", b"", 9), (b"b/c", b"abcd", b"comment", 9), (b"d/", b"", b"", 9), (b"A", t5, b"", 9), (b"", b"data of no name", b"", 9), (b"n" * 255, t5, b"c" * 300, 0), (b"\xc3\xa5 \xff.mo", t5[:17], b"\0\1", 1), (b"dir/sub/x.moc", noise(600), b"", 9),
          (b"/abs", b"x", b"", 9), (b"a\\b", b"x", b"", 9), (b"c:x", b"x", b"", 9), (b"d/", b"x", b"", 9), (b"lev", b"xyzxyzxyz", b"", 11)]
    for n in (1, 2, 3):
        for t in itertools.product(al, repeat=n): out.append(Job("sequence", list(t)))
    if th:
        for t in itertools.product(al[:9], repeat=4): out.append(Job("sequence", list(t)))
    for n in (254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 70000):
        out.append(Job("long name", [(b"first", b"1", b"", 9), (b"n" * n, b"name of %d" % n, b"", 9), (b"last", b"3", b"", 9)]))
        if n < 65536: out.append(Job("long comment", [(b"first", b"1", b"", 9), (b"k", b"comment of %d" % n, noise(n), 9), (b"last", b"3", b"z", 9)]))
    out.append(Job("many entries", [(b"m/%d" % i, b"entry %d" % i * (i % 9), b"c" * (i % 3), 9) for i in range(3000 if th else 700)], quiet=7))
    # archives made by others, and files that are none
    def foreign(n, comp):
        s = io.BytesIO()
        with zipfile.ZipFile(s, "w", comp) as z:
            for i in range(n): z.writestr("f%d" % i, b"foreign %d " % i * 50)
        return s.getvalue(), [(b"f%d" % i, b"", b"foreign %d " % i * 50) for i in range(n)]
    for comp in (0, 8):
        for n in (0, 1, 2, 20, 2000):
            pre, base = foreign(n, comp); out.append(Job("foreign archive", [al[4], al[1]], pre=pre, base=base))
    s = io.BytesIO()
    with zipfile.ZipFile(s, "w", allowZip64=True) as z:
        for i in range(65533): z.writestr(zipfile.ZipInfo("%d" % i), b"")
    full = s.getvalue(); base = [(b"%d" % i, b"", b"") for i in range(65533)]
    out.append(Job("most entries", [(b"x1", b"one", b"", 9), (b"x2", b"two", b"", 9), (b"x3", b"three", b"", 9)], pre=full, base=base))
    pre, base = foreign(2, 8)
    for n in range(len(pre)): out.append(Job("cut archive", [al[1]], pre=pre[:n]))
    for g in (b"", b"garbage", b"\0" * 5000, b"PK\3\4" * 20): out.append(Job("no archive", [al[1]], pre=g))
    # faults in the last addition
    nf = 0
    scen = [[al[1]], [al[4]], [al[1], al[4]], [al[4], al[2], al[8]], [al[3], (b"big", noise(300000), b"cc", 9)], [(b"t%d" % i, t5, b"k", 9) for i in range(12)]]
    for sc in scen:
        for fn in range(1, len(FN)):
            for k in (list(range(1, 26)) if not th else list(range(1, 80))):
                for sg in (1, -1): out.append(Job("fault", sc, fault=(fn, sg * k))); nf += 1
    return out, ncont

def run(tier):
    rep = vlib.Report("P27", tier, "bounded_enumeration"); root = vlib.sdir("p27")
    mz = os.path.join(vlib.REPO, "ThirdParty/miniz/miniz.c")
    exe = vlib.build("mz_run", [(mz, ["-O2", "-w"]), (os.path.join(vlib.HARN, "mz_run.c"), ['-DMINIZ_C="%s"' % mz, "-w"])], vlib.sdir("gen_none"), link=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
    js, ncont = jobs(tier); N = vlib.NPROC; st = {"adds": 0, "hit": 0, "refused": 0, "bytes": 0}
    order = sorted(range(len(js)), key=lambda i: -sum(len(o[1]) for o in js[i].ops)); parts = [order[i::N] for i in range(N)]
    import threading
    lock = threading.Lock()
    hangs = [0]
    def enc(v): return struct.pack("<i", v)
    def worker(w):
        mine = parts[w]; todo = list(mine); restarts = 0
        while todo and restarts < 30 and hangs[0] < 3 and not rep.full():
            p = subprocess.Popen([exe, "%s/%d.zip" % (root, w)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open("%s/%d.err" % (root, w), "wb"), env=vlib.san_env())
            ids = {}
            dog = threading.Timer(600 if tier == "quick" else 6000, p.kill); dog.start()
            def cid(b):
                if b not in ids:
                    ids[b] = len(ids); p.stdin.write(b"C" + enc(ids[b]) + enc(len(b))); p.stdin.write(b)
                return ids[b]
            def rd(n):
                b = p.stdout.read(n)
                if len(b) != n: raise EOFError
                return b
            def num(): return struct.unpack("<i", rd(4))[0]
            cur = None
            try:
                while todo:
                    if rep.full(): p.kill(); break
                    cur = todo[0]; j = js[cur]
                    pre = cid(j.pre) if j.pre is not None else -1
                    cs = [cid(o[1]) for o in j.ops]
                    p.stdin.write(b"J" + enc(len(j.ops)) + enc(j.fault[0]) + enc(j.fault[1]) + enc(pre) + enc(j.quiet) + b"".join(enc(len(o[0])) + o[0] + enc(c) + enc(len(o[2])) + o[2] + enc(o[3]) for o, c in zip(j.ops, cs)))
                    p.stdin.flush()
                    oks = [num() for _ in j.ops]; hit = num(); back = [num() for _ in j.ops]; deep = num(); n = num(); arc = rd(n) if n >= 0 else None
                    todo.pop(0); judge(j, oks, hit, back, deep, arc)
                p.stdin.close(); p.wait()
            except (EOFError, BrokenPipeError, OSError):
                p.wait(); restarts += 1; hangs[0] += p.returncode in (-14, -9)
                e = open("%s/%d.err" % (root, w), "rb").read()[-900:].decode(errors="replace")
                if "HARNESS" in e: raise RuntimeError(e)
                with lock: rep.violation("%s: additions %s%s crash or hang (status %s): %s" % (js[cur].what, short(js[cur]), fault(js[cur]), p.returncode, e), {"ops": [repr(o)[:200] for o in js[cur].ops], "fault": js[cur].fault})
                todo = [t for t in todo if t != cur]
            finally: dog.cancel()
    def short(j): return [(o[0][:30], "%d bytes" % len(o[1]), "comment %d" % len(o[2]), "level %d" % o[3]) for o in j.ops[-4:]]
    def fault(j): return "" if not j.fault[0] else " while %s call %d%s of the last one fails" % (FN[j.fault[0]], abs(j.fault[1]), " and later ones" if j.fault[1] < 0 else "")
    def judge(j, oks, hit, back, deep, arc):
        with lock: st["adds"] += len(oks); st["hit"] += bool(hit); st["bytes"] += sum(len(o[1]) for o in j.ops); rep.outcome("%s: %s" % (j.what, "fault not reached" if j.fault[0] and not hit else "added" if all(oks) else "refused"))
        def bad(w):
            with lock: rep.violation("%s: additions %s%s: %s" % (j.what, short(j), fault(j), w), {"ops": [repr(o)[:300] for o in j.ops], "fault": j.fault, "pre": repr(j.pre)[:400]})
        if j.what in ("cut archive", "no archive"):
            if any(oks): return bad("adding to a file that is no archive reports success")
            if arc != j.pre: bad("a file that is no archive was changed")
            return
        exp = list(j.base); n = len(j.ops); firm = True
        for i, (o, ok) in enumerate(zip(j.ops, oks)):
            v = valid(o) and len(exp) < 65535
            if ok and not v: return bad("addition %d must be refused and was accepted" % i)
            if v and not ok and not (hit and i == n - 1): return bad("addition %d failed" % i)
            if ok: exp.append((o[0], o[2], o[1]))
            elif hit and i == n - 1 and FN[j.fault[0]] not in ("fopen", "freopen", "malloc", "calloc", "realloc"): firm = False
        if not firm: return                       # a failed write may leave the archive unusable; it was reported
        if not exp:
            if arc is not None and j.pre is None:
                try:
                    if parse(arc): bad("entries nobody added")
                except ValueError: pass
            return
        if arc is None: return bad("no archive")
        try: got = parse(arc)
        except (ValueError, struct.error) as e: return bad("the archive is damaged: %s" % e)
        if got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            return bad("%d entries for %d additions, or entry %d differs (%r)" % (len(got), len(exp), k, [(len(x[k][0]), x[k][0][:20], len(x[k][2])) for x in (got, exp) if k < len(x)]))
        if deep: return bad("the bundled reader: %s" % DEEP.get(deep % 100, deep))
        for i, (o, ok, b) in enumerate(zip(j.ops, oks, back)):
            same = sum(1 for q, k in zip(j.ops, oks) if k and q[0] == o[0])
            if ok and not (o[0].endswith(b"/") or (b == 1 and same == 1) or (same > 1 and b in (1, 2))):
                return bad("the bundled reader gives %s for entry %d (%r, %d bytes, level %d)" % (("nothing", "", "other data", "other data")[b], i, o[0][:30], len(o[1]), o[3]))
    with ThreadPoolExecutor(N) as ex: list(ex.map(worker, range(N)))
    if not rep.viol and st["hit"] < 60: raise RuntimeError("too few faults were reached: %d" % st["hit"])
    for j in js[::max(1, len(js) // 10)]: rep.sample("%s %s%s" % (j.what, short(j), fault(j)))
    return rep.finish(evaluations=st["adds"], bytes_compressed=st["bytes"], archives=len(js), contents_by_level=ncont, faults_reached=st["hit"], spec_transitions=st["adds"],
                      conformance="every archive was written by the real ThirdParty/miniz code and read by an independent zip reader (zlib) and by the bundled one",
                      rule="after every sequence of additions the archive holds exactly the accepted ones; refused or failing additions are reported")

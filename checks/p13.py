"""P13: encrypt_file and decrypt_file under every single fault: full disk after each byte, each failing call, damaged inputs."""
import itertools, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Step, msg
from checks import cryptlib as C, toollib as TL

CRASH = lambda rc: rc < 0 or rc in (99, 97, 98, 134, 139)

def run(tier):
    rep = vlib.Report("P13", tier, "fault_enumeration")
    gen = vlib.gen_headers("p13"); T = C.build(gen); thorough = tier == "thorough"
    sizes = [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 511, 512, 513, 4047, 4048, 4064, 4080, 4095, 4096, 4097, 8192, 20000] + ([70000, 1 << 20] if thorough else [])
    plain = vlib.sdir("p13plain"); lib = vlib.sdir("p13lib")
    mo = {"package.mo": b"package P \"root\"\nend P;\n", "x.mo": b"model X Real x; end X;\n", "A/package.mo": b"within P; package A end A;\n", "A/y.mo": TL.pattern(300), "A/B/package.mo": b"", "A/B/w.mo": b"w" * 47, "D/z.mo": b"model Z end Z;", "A/E/v.mo": b"v" * 33}
    for n in sizes: mo["s%d.mo" % n] = TL.pattern(n)
    for i, c in enumerate([b"\0" * 64, b"\xff" * 64, b"\n" * 40, b"   ", b"\r\n\r\n", b"\x10" * 16, b"\x01", b"\xef\xbb\xbfmodel", b"end\n\0", b"\x1a", b"a\x1ab", b"\0" * 15 + b"\x10" * 17]): mo["sc%d.mo" % i] = c
    vlib.write_tree(plain, mo)
    for k in mo: os.makedirs(os.path.dirname(os.path.join(lib, k)), exist_ok=True)
    checked = 0; hits = {}
    ENC, DEC, ENCF, DECF = T["encrypt_file"], T["decrypt_file"], T["encrypt_file_fi"], T["decrypt_file_fi"]
    # 1. undisturbed: one process per file, then decrypted and served
    order = sorted(mo, key=lambda k: (not k.endswith("package.mo"), k.count("/"), k))
    for k in order:
        rc, e = C.run([ENC, os.path.join(plain, k), k + "c", lib]); checked += 1
        if rc: rep.violation("encrypting %s (%d bytes) fails with status %d: %s" % (k, len(mo[k]), rc, e[-300:])); return rep.finish(evaluations=checked, distinct_nontrivial=checked, rule="undisturbed run")
    before = C.snapshot(plain, lib)
    def dec(k):
        dst = os.path.join(vlib.sdir("p13dec"), k.replace("/", "_"))
        rc, e = C.run([DEC, lib, k + "c", dst]); return k, rc, e, open(dst, "rb").read() if os.path.exists(dst) else None
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for k, rc, e, got in ex.map(dec, order):
            checked += 1
            if rc or got != mo[k]: rep.violation("decrypting %s (%d bytes): status %d, %s: %s" % (k, len(mo[k]), rc, "no file" if got is None else "%d bytes, wrong" % len(got), e[-300:]))
    if C.snapshot(plain, lib) != before: rep.violation("decrypting altered the library")
    exe = vlib.build_explorer("lvex13", gen)
    steps = [Step(msg("VERSION", num=1)), Step(msg("LIB", lib.encode()))] + [Step(msg("FILE", (k + "c").encode()), name=k) for k in order]
    res = vlib.explore(exe, steps, [(0, 1) + tuple(range(2, len(steps)))] + [(0, 1, i) for i in range(2, len(steps))])
    for p, n in res.nodes.items():
        if len(p) < 3 or p[-1] < 2: continue
        k = order[p[-1] - 2]; checked += 1
        if n.status != "ok" or n.reply != b"FILECONT %d\n" % len(mo[k]) + mo[k]: rep.violation("the executable does not serve %s encrypted by the command: %r" % (k, (n.reply or b"")[:100]))
    # 2. faults
    cno = itertools.count()
    jobs = []
    def fresh():
        d = vlib.sdir("p13c", str(next(cno))); shutil.copytree(plain_s, d + "/plain", symlinks=True); shutil.copytree(lib_s, d + "/lib", symlinks=True); return d
    # the trees used for faults: small files only
    plain_s = vlib.sdir("p13ps"); lib_s = vlib.sdir("p13ls")
    small = [k for k in mo if not k.startswith("s") or k in ("s33.mo", "s4097.mo", "s0.mo")]
    for k in small:
        for a, b, r in ((plain, plain_s, k), (lib, lib_s, k + "c")):
            os.makedirs(os.path.dirname(os.path.join(b, r)), exist_ok=True); shutil.copy(os.path.join(a, r), os.path.join(b, r))
    targets = ["package.mo", "x.mo", "A/package.mo", "A/y.mo", "D/z.mo", "A/B/w.mo", "s4097.mo"] + (["A/E/v.mo", "A/B/package.mo", "s33.mo", "s0.mo"] if thorough else [])
    class Job: pass
    def job(what, prog, k, env=None, limit=None, prep=None, src=None, rel=None, base=None, dst=None, expect=None, argv=None, exists=False):
        """expect: None = decided by the result (exit 0 iff complete); 0/1 = must succeed / must fail"""
        j = Job(); j.__dict__.update(locals()); jobs.append(j)
    def do(j):
        d = fresh(); enc = j.prog == "enc"
        fi = j.env is not None
        src = d + "/plain/" + j.k if j.src is None else j.src.replace("@", d)
        base = (j.base or "@/lib").replace("@", d); rel = j.k + "c" if j.rel is None else j.rel.replace("@", d)
        if enc:
            dst = os.path.join(base, rel)
            if not j.exists and os.path.isfile(dst): os.remove(dst)
            cmd = [ENCF if fi else ENC, src, rel, base]
        else:
            dst = (j.dst or "@/out.mo").replace("@", d); cmd = [DECF if fi else DEC, base, rel, dst]
            if j.exists: open(dst, "wb").write(b"old content")
        if j.argv is not None:
            cmd = [cmd[0]] + [a.replace("@", d) for a in j.argv]
            dst = j.dst.replace("@", d) if j.dst else None
        if j.prep: j.prep(d)
        b4 = C.snapshot(d); old = b4.pop(dst, None)
        log = d + ".log"
        rc, e = C.run(cmd, env=dict(j.env, FI_LOG=log) if fi else None, limit=j.limit, T=T, cwd=d)
        after = C.snapshot(d); have = after.pop(dst, None)
        why = None
        hit = fi and os.path.exists(log) and "hit" in open(log).read()
        counts = {l.split()[1]: int(l.split()[2]) for l in open(log) if l.startswith("count")} if fi and os.path.exists(log) else {}
        if CRASH(rc): why = "crash or hang (status %d): %s" % (rc, e[-700:])
        elif after != b4: why = "other files changed: %s" % sorted(set(after.items()) ^ set(b4.items()))[:4]
        elif rc == 0:
            if j.expect == 1: why = "exit 0"
            elif dst is None or have is None: why = "exit 0 but there is no destination file"
            elif enc:
                o = d + "/check.out"
                if j.argv is not None and len(j.argv) == 2:
                    r2 = vlib.sdir("p13two", os.path.basename(d)); shutil.copy(dst, r2 + "/" + os.path.basename(dst)); rc2, e2 = C.run([DEC, r2, os.path.basename(dst), o]); shutil.rmtree(r2)
                else: rc2, e2 = C.run([DEC, base, rel, o])
                got = open(o, "rb").read() if os.path.exists(o) else None
                if rc2 or got != mo[j.k]: why = "exit 0 but the destination (%d bytes) does not decrypt to the original" % os.path.getsize(dst)
            elif open(dst, "rb").read() != mo[j.k]: why = "exit 0 but the destination is not the original"
        else:
            if have is not None and have != "dir" and have != old: why = "exit %d but a destination file of %d bytes is left" % (rc, os.path.getsize(dst))
            elif j.expect == 0: why = "exit %d although nothing was wrong: %s" % (rc, e[-300:])
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(log): os.remove(log)
        return j, rc, why, hit, counts
    def go():
        nonlocal checked
        out = []
        with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
            for j, rc, why, hit, counts in ex.map(do, jobs):
                checked += 1; out.append((j, rc, hit, counts))
                g = j.what.split(":")[0]; hits[g] = hits.get(g, 0) + 1
                rep.outcome("exit 0" if rc == 0 else "exit non-zero")
                if why and not rep.full(): rep.violation("%s %s: %s: %s" % ({"enc": "encrypt_file", "dec": "decrypt_file"}[j.prog], j.k, j.what, why), {"what": j.what, "file": j.k, "env": j.env, "limit": j.limit, "argv": j.argv})
                elif checked % 307 == 1: rep.sample({"command": j.prog, "file": j.k, "fault": j.what, "exit": rc})
        jobs.clear(); return out
    # 2a. the disk is full after n bytes, for every n
    for k in targets:
        size = os.path.getsize(os.path.join(lib, k + "c"))
        ns = range(size + 1) if size < 200 or thorough and size < 600 else sorted(set(range(0, size + 1, 97)) | {0, 1, 15, 16, 17, 4095, 4096, 4097, size - 33, size - 32, size - 1, size})
        for n in ns: job("disk full: after %d of %d bytes" % (n, size), "enc", k, limit=n, expect=0 if n >= size else 1)
        size = len(mo[k])
        ns = range(size + 1) if size < 200 or thorough and size < 600 else sorted(set(range(0, size + 1, 97)) | {0, 1, 4095, 4096, size - 1, size})
        for n in ns: job("disk full: after %d of %d bytes" % (n, size), "dec", k, limit=n, expect=0 if n >= size else 1)
    # 2b. count the calls, then let each one fail
    for p in ("enc", "dec"):
        for k in targets: job("calls counted", p, k, env={"FI": "none"}, expect=0)
    for j, rc, hit, counts in go():
        if j.what != "calls counted": continue
        for f, n in counts.items():
            if f in ("remove", "rmdir", "RAND_bytes") and j.prog == "dec": continue
            ks = range(1, n + 2) if n < 40 or thorough else sorted(set(range(1, 12)) | {n - 3, n - 2, n - 1, n, n + 1})
            for i in ks: job("failing call: %s number %d of %d" % (f, i, n), j.prog, j.k, env={"FI": "%s:%d" % (f, i)}, expect=0 if i > n else None)
            if f in ("fwrite", "fopen", "fclose") and n: job("failing call: %s number %d, destination exists" % (f, n), j.prog, j.k, env={"FI": "%s:%d" % (f, n)}, exists=True)
    # 2c. unusable inputs and destinations
    def p_rm(rel): return lambda d: os.remove(d + rel)
    def p_dir(rel):
        def f(d):
            if os.path.exists(d + rel): os.remove(d + rel)
            os.makedirs(d + rel)
        return f
    def p_write(rel, data): return lambda d: open(d + rel, "wb").write(data)
    for p in ("enc", "dec"):
        for k in targets:
            sd = "/plain/" + k if p == "enc" else "/lib/" + k + "c"
            job("input: missing", p, k, prep=p_rm(sd), expect=1)
            job("input: a directory", p, k, prep=p_dir(sd), expect=1)
            job("destination: exists", p, k, exists=True, expect=None if p == "enc" and k.endswith("package.mo") else 0)
            if p == "dec":
                job("destination: directory missing", p, k, dst="@/nodir/out.mo", expect=1); job("destination: is a directory", p, k, dst="@/plain", expect=1)
                job("base: missing", p, k, base="@/nolib", expect=1)
            else:
                job("destination: directory missing", p, k, rel="nodir/" + os.path.basename(k) + "c", expect=1)
                job("base: missing", p, k, base="@/nolib", expect=1)
    # 2d. the key chain is damaged
    dep = {"x.mo": ["package.mo"], "A/package.mo": ["package.mo"], "A/y.mo": ["package.mo", "A/package.mo"], "D/z.mo": ["package.mo"], "A/B/w.mo": ["package.mo", "A/package.mo", "A/B/package.mo"]}
    for k, ds in dep.items():
        for dk in ds:
            raw = open(os.path.join(lib, dk + "c"), "rb").read(); n = len(raw)
            pts = range(n) if thorough else sorted({0, 15, 16, 31, n // 2, n - 33, n - 32, n - 1})
            for i in pts:
                bad = raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:]
                for p in ("enc", "dec"):
                    job("key chain: bit changed at %d of %s" % (i, dk), p, k, prep=p_write("/lib/" + dk + "c", bad), expect=1)
                    job("key chain: %s cut to %d bytes" % (dk, i), p, k, prep=p_write("/lib/" + dk + "c", raw[:i]), expect=1)
            for p in ("enc", "dec"):
                job("key chain: %s extended" % dk, p, k, prep=p_write("/lib/" + dk + "c", raw + b"x"), expect=1)
                job("key chain: %s is a directory" % dk, p, k, prep=p_dir("/lib/" + dk + "c"), expect=1)
                job("key chain: %s is cleartext" % dk, p, k, prep=p_write("/lib/" + dk + "c", mo[dk]), expect=1)
            job("key chain: %s missing" % dk, "dec", k, prep=p_rm("/lib/" + dk + "c"), expect=1)
    # 2e. damaged ciphertext
    for k in targets:
        raw = open(os.path.join(lib, k + "c"), "rb").read(); n = len(raw)
        pts = range(n) if n < 120 or thorough and n < 500 else sorted({0, 1, 15, 16, 17, 100, n // 2, n - 33, n - 32, n - 1})
        for i in pts:
            job("ciphertext: byte %d changed" % i, "dec", k, prep=p_write("/lib/" + k + "c", raw[:i] + bytes([raw[i] ^ (1 << i % 8)]) + raw[i + 1:]), expect=1)
            job("ciphertext: cut to %d" % i, "dec", k, prep=p_write("/lib/" + k + "c", raw[:i]), expect=1)
        job("ciphertext: extended", "dec", k, prep=p_write("/lib/" + k + "c", raw + b"\0"), expect=1)
        job("ciphertext: cleartext", "dec", k, prep=p_write("/lib/" + k + "c", mo[k]), expect=1)
    # 2f. command lines
    for argv in ([], ["a"], ["@/plain/x.mo"], ["@/plain/x.mo", "x.moc", "@/lib", "more"]): job("arguments: %d" % len(argv), "enc", "x.mo", argv=argv, expect=1)
    for argv in ([], ["@/lib"], ["@/lib", "x.moc"]): job("arguments: %d" % len(argv), "dec", "x.mo", argv=argv, expect=1)
    job("arguments: empty name", "enc", "x.mo", argv=["@/plain/x.mo", "", "@/lib"], expect=1)
    job("arguments: empty base", "enc", "x.mo", argv=["@/plain/x.mo", "nodir-a/x.moc", ""], expect=1)
    job("arguments: empty name without base", "enc", "x.mo", argv=["@/plain/x.mo", ""], expect=1)
    job("arguments: empty input", "enc", "x.mo", argv=["", "n.moc", "@/lib"], expect=1)
    for n in (200, 255, 256, 4000, 4090, 4095, 4096, 4097, 5000, 9000):
        long_ = "A/" * (n // 2) + "y.moc"
        job("arguments: name of %d bytes" % len(long_), "enc", "x.mo", argv=["@/plain/x.mo", long_, "@/lib"], expect=1)
        job("arguments: name of %d bytes, no base" % len(long_), "enc", "x.mo", argv=["@/plain/x.mo", long_], expect=1)
        job("arguments: base of %d bytes" % n, "enc", "x.mo", argv=["@/plain/x.mo", "x.moc", "@/" + "b/" * (n // 2)], expect=1)
        dots = "./" * (n // 2)                     # the same file, a long spelling
        job("arguments: base spelled with %d bytes" % n, "enc", "x.mo", argv=["@/plain/x.mo", "n.moc", "@/lib/" + dots], dst="@/lib/n.moc", rel="n.moc") if n < 4000 else job("arguments: base spelled with %d bytes" % n, "enc", "x.mo", argv=["@/plain/x.mo", "n.moc", "@/lib/" + dots], dst="@/lib/n.moc", rel="n.moc")
        job("arguments: base of %d bytes" % n, "dec", "x.mo", argv=["@/" + "b/" * (n // 2), "x.moc", "@/out.mo"], dst="@/out.mo", expect=1)
        job("arguments: name of %d bytes" % n, "dec", "x.mo", argv=["@/lib", "A/" * (n // 2) + "x.moc", "@/out.mo"], dst="@/out.mo", expect=1)
        job("arguments: destination of %d bytes" % n, "dec", "x.mo", argv=["@/lib", "x.moc", "@/" + "b/" * (n // 2) + "o"], expect=1)
    # 2g. without a base directory: written where it was told to, the input is left alone
    for k in ("x.mo", "package.mo", "D/z.mo"):
        for dst in ("@/new.moc", "@/" + os.path.basename(k) + "c", "@/plain/" + k + "c", "@/plain/other.moc", "@/new.bin"):
            if k == "package.mo" and os.path.basename(dst) != "package.moc": continue
            if k != "package.mo" and os.path.basename(dst) == "package.moc": continue
            job("no base: to %s" % dst, "enc", k, argv=["@/plain/" + k, dst], dst=dst, expect=0)
        job("no base: relative", "enc", k, argv=["@/plain/" + k, os.path.basename(k) + "c"], dst="@/" + os.path.basename(k) + "c", expect=0)
        job("no base: directory missing", "enc", k, argv=["@/plain/" + k, "@/nodir/" + os.path.basename(k) + "c"], expect=1)
    go()
    rep.outcomes.update({"fault class " + k: v for k, v in hits.items()})
    rep.assumptions = ["source and destination are different files", "allocation failures are not injected"]
    return rep.finish(evaluations=checked, distinct_nontrivial=checked, rule="one run of the real command per fault point: every byte at which the disk can be full, every library call that can fail, every damage of input or key chain", exhaustive=True)

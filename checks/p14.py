"""P14: freshness, key separation and secrecy of ciphertext over all small encryption histories, scripted random numbers and failing random numbers."""
import itertools, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import cryptlib as C, toollib as TL

FILES = ["package.mo", "x.mo", "A/package.mo", "A/y.mo", "B/package.mo", "B/y.mo", "A/B/package.mo", "A/B/y.mo"]

def run(tier):
    rep = vlib.Report("P14", tier, "model_checking"); thorough = tier == "thorough"
    gen = vlib.gen_headers("p14"); T = C.build(gen)
    encsrc = vlib.repo_c("common") + vlib.repo_c("decryptors/default/src") + [vlib.HARN + "/enc_tree.c"]
    TREE = vlib.build("enc_tree", encsrc, gen); TREEF = vlib.build("enc_tree_fi", encsrc + [vlib.HARN + "/fi.c"], gen, link=C.link_wraps())
    base = subprocess.run([vlib.build("keydump", [vlib.HARN + "/keydump.c"], gen)], capture_output=True).stdout
    ENC, ENCF, DEC = T["encrypt_file"], T["encrypt_file_fi"], T["decrypt_file"]
    plain = vlib.sdir("p14plain")
    body = TL.pattern(400)
    content = {k: body for k in FILES}                    # the same content everywhere
    vlib.write_tree(plain, content)
    n = itertools.count(); checked = 0; states = set()
    ivs, cts = {}, {}
    def newlib():
        d = vlib.sdir("p14l", str(next(n)))
        for k in FILES: os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
        return d
    def note(what, raw):
        if raw[:16] in ivs: rep.violation("two encryptions share the initialisation vector: %s and %s" % (ivs[raw[:16]], what))
        ivs[raw[:16]] = what
        for part, name in ((raw[16:-32], "ciphertext"), (raw[-32:], "authentication code")):
            if part in cts: rep.violation("encrypting the same content twice gives the same %s: %s and %s" % (name, cts[part], what))
            cts[part] = what
    def windows(b): return {b[i:i + 16] for i in range(len(b) - 15)}
    def leak(what, raw, data, secrets=()):
        iv = raw[:16]; w = windows(raw[:])
        bad = [s for s in windows(data) if s in w]
        if bad: rep.violation("%s: a 16-byte block of the plaintext is in the encrypted file (at %d)" % (what, raw.index(bad[0])))
        for name, key in secrets:
            if [s for s in windows(key) if s in w and s != iv and s.strip(s[:1])]: rep.violation("%s: a 16-byte block of %s is in the encrypted file" % (what, name))
        blocks = [raw[i:i + 16] for i in range(0, len(raw) - 32, 16)]
        if len(set(blocks)) != len(blocks): rep.violation("%s: repeated ciphertext blocks" % what)
    def rands(log): return [bytes.fromhex(l.split()[1]) for l in open(log) if l.startswith("rand ")] if os.path.exists(log) else []
    def secrets(rs):
        out = [("the base key", base)]
        for r in rs:
            if len(r) >= 32: out += [("a directory mask", r[:32]), ("a directory key", bytes(a ^ b for a, b in zip(base, r)))]
        return out
    def read(p): return open(p, "rb").read() if os.path.exists(p) else None
    # 1. histories: every sequence of encryptions up to a length, in one process and with one process each
    depth = 5 if thorough else 4
    alphabet = ["package.mo", "x.mo", "A/package.mo", "A/y.mo", "B/package.mo", "B/y.mo"]
    seqs = [s for d in range(1, depth + 1) for s in itertools.product(alphabet, repeat=d)]
    keep = []   # (library, files there): for the key separation check
    def one(s):
        d = newlib(); log = d + ".log"
        rc, e = C.run([TREEF, plain, d] + list(s), env={"FI": "none", "FI_LOG": log})
        done = s if rc == 0 else s[:rc - 10] if 10 <= rc < 90 else None
        r = s, d, rc, done, e, {k: read(os.path.join(d, k + "c")) for k in set(s)}, rands(log)
        if os.path.exists(log): os.remove(log)
        return r
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for s, d, rc, done, e, out, rs in ex.map(one, seqs):
            checked += 1
            if done is None: rep.violation("encrypting %s in one process: status %d: %s" % (s, rc, e[-300:])); shutil.rmtree(d); continue
            for k in set(done):
                if rc and s[len(done)] == k: continue          # the refused second attempt removed it
                if out[k] is None: rep.violation("encrypting %s: no file %s" % (s, k)); continue
                note("%s in %s" % (k, s), out[k]); leak("%s in %s" % (k, s), out[k], content[k], secrets(rs)); states.add(out[k][:16])
            rep.outcome("sequence encrypted" if rc == 0 else "sequence refused (repeated package file)")
            if rc == 0 and len(set(s)) == len(s): keep.append((s, d))
            else: shutil.rmtree(d)
    # the same with one process per file (each process starts from fresh state)
    orders = [FILES] + [FILES[:2] + list(p) for p in itertools.permutations([["A/package.mo", "A/y.mo"], ["B/package.mo", "B/y.mo"]])]
    orders = [[x for y in o for x in ([y] if isinstance(y, str) else y)] for o in orders]
    libs = []
    def onep(i):
        o = orders[i % len(orders)]; d = newlib(); log = d + ".log"; st = []
        for k in o: st.append(C.run([ENCF, os.path.join(plain, k), k + "c", d], env={"FI": "none", "FI_LOG": log}))
        rs = rands(log)
        if os.path.exists(log): os.remove(log)
        return o, d, st, {k: read(os.path.join(d, k + "c")) for k in o}, rs
    reps = 40 if thorough else 12
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for i, (o, d, st, out, rs) in enumerate(ex.map(onep, range(reps))):
            checked += len(o)
            for k, (rc, e) in zip(o, st):
                if rc or out[k] is None: rep.violation("encrypt_file %s: status %d: %s" % (k, rc, e[-300:])); continue
                note("%s by command, run %d" % (k, i), out[k]); leak("%s by command" % k, out[k], content[k], secrets(rs))
            libs.append(d)
    # one process for a whole tree
    for i in range(reps):
        d = newlib(); rc, e = C.run([TREE, plain, d] + FILES); checked += 1
        if rc: rep.violation("encrypting the tree in one process: status %d: %s" % (rc, e[-300:])); continue
        for k in FILES: note("%s in tree run %d" % (k, i), read(os.path.join(d, k + "c")))
        libs.append(d)
    # 2. key separation: a file of one package directory is refused in every other one, of the same and of other libraries
    pairs = []
    use = libs[:4] + libs[reps:reps + 3] if not thorough else libs[:8] + libs[reps:reps + 8]
    where = {"x.mo": "", "A/y.mo": "A", "B/y.mo": "B", "A/B/y.mo": "A/B"}
    for la in use:
        for lb in use:
            for ka, kb in itertools.product(where, repeat=2):
                if os.path.exists(os.path.join(la, ka + "c")) and os.path.exists(os.path.join(lb, kb + "c")): pairs.append((la, ka, lb, kb, (la, ka) == (lb, kb)))
    for s, d in keep:     # sequences with package files: the key of the directory exists only in that history
        ks = [k for k in s if k in where]
        for ka, kb in itertools.permutations(ks, 2):
            def pk(k, s=s): return (where[k] + "/package.mo" if where[k] else "package.mo") in s[:s.index(k)]
            if pk(ka) and pk(kb): pairs.append((d, ka, d, kb, False))
        for ka in ks:
            p = (where[ka] + "/package.mo" if where[ka] else "package.mo")
            if p in s and s.index(p) < s.index(ka): pairs.append((d, ka, d, ka, True))
    def cross(p):
        la, ka, lb, kb, same = p
        i = next(n); name = "moved%d.moc" % i; w = os.path.join(lb, where[kb], name)
        shutil.copy(os.path.join(la, ka + "c"), w); dst = os.path.join(vlib.sdir("p14x"), str(i))
        rc, e = C.run([DEC, lb, os.path.join(where[kb], name), dst]); got = read(dst)
        os.remove(w)
        if got is not None: os.remove(dst)
        return p, rc, e, got
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for (la, ka, lb, kb, same), rc, e, got in ex.map(cross, pairs):
            checked += 1
            rep.outcome("decrypts in its own directory" if rc == 0 else "refused in another directory")
            if rc < 0 or rc > 1: rep.violation("decrypting a moved file: status %d: %s" % (rc, e[-300:]))
            elif same and (rc or got != body): rep.violation("control: %s does not decrypt in its own directory: %s" % (ka, e[-200:]))
            elif not same and rc == 0: rep.violation("a file encrypted as %s decrypts as %s%s: the directories share a key" % (ka, kb, "" if la == lb else " of another library"))
    for s, d in keep: shutil.rmtree(d)
    # 2b. large libraries: many package directories side by side and nested, encrypted by one process; every pair of directories
    dect = vlib.build("dec_tree", vlib.repo_c("common") + vlib.repo_c("decryptors/default/src") + [vlib.HARN + "/dec_tree.c"], gen)
    wide = 140 if thorough else 70; deep = 24 if thorough else 14
    for shape, dirs in (("side by side", [""] + ["D%d" % i for i in range(wide)]), ("nested", [""] + ["/".join("N%d" % j for j in range(i + 1)) for i in range(deep)]),
                        ("nested and side by side", [""] + ["E%d" % i for i in range(8)] + ["E%d/F%d" % (i, j) for i in range(8) for j in range(5)])):
        files = [os.path.join(q, x) for q in dirs for x in ("package.mo", "y.mo")]
        src = vlib.sdir("p14w", str(next(n))); d = src + ".lib"; vlib.write_tree(src, {k: body for k in files})
        for q in dirs: os.makedirs(os.path.join(d, q), exist_ok=True)
        rc, e = C.run([TREE, src, d] + files); checked += len(files)
        if rc: rep.violation("encrypting %d package directories %s in one process: status %d: %s" % (len(dirs), shape, rc, e[-300:])); continue
        for k in files: note("%s of %d directories %s" % (k, len(dirs), shape), read(os.path.join(d, k + "c")))
        def into(j, d=d, dirs=dirs):
            names = []
            for i, q in enumerate(dirs): names.append(os.path.join(dirs[j], "from%d.moc" % i)); shutil.copy(os.path.join(d, q, "y.moc"), os.path.join(d, names[-1]))
            o = d + ".out%d" % j; os.makedirs(o); rc, e = C.run([dect, d, o] + names)
            got = {i: read(os.path.join(o, str(i))) for i in range(len(dirs))}; shutil.rmtree(o)
            return j, rc, e, got
        with ThreadPoolExecutor(vlib.NPROC) as ex:
            for j, rc, e, got in ex.map(into, range(len(dirs))):
                checked += len(got)
                for i, c in got.items():
                    if i == j and c != body: rep.violation("%d package directories %s: the file of %r does not decrypt in its own directory: status %d %s" % (len(dirs), shape, dirs[j], rc, e[-200:]))
                    if i != j and c is not None: rep.violation("%d package directories %s: the file of %r decrypts in %r: the directories share a key" % (len(dirs), shape, dirs[i], dirs[j]))
        rep.outcomes["directory pairs " + shape] = len(dirs) ** 2
        shutil.rmtree(src); shutil.rmtree(d)
    # 3. every plaintext size around the block and buffer limits, and repetitive content
    sizes = list(range(0, 100)) + [239, 240, 241, 255, 256, 257, 271, 272, 511, 512, 513, 1000, 4096] + (list(range(100, 600)) if thorough else [])
    jobs = []
    for sz in sizes:
        for kind, data in (("text", TL.pattern(sz)), ("zeros", b"\0" * sz), ("one block repeated", (b"model M end M;\n\n" * (sz // 16 + 1))[:sz])):
            for k in ("package.mo", "x.mo"): jobs.append((sz, kind, data, k))
    def size1(j):
        sz, kind, data, k = j; d = vlib.sdir("p14s", str(next(n))); log = d + ".log"
        os.makedirs(d + "/l"); open(d + "/" + k, "wb").write(data)
        rc, e = C.run([TREEF, d, d + "/l", k], env={"FI": "none", "FI_LOG": log}); raw = read(d + "/l/" + k + "c"); rs = rands(log)
        shutil.rmtree(d)
        if os.path.exists(log): os.remove(log)
        return j, rc, e, raw, rs
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for (sz, kind, data, k), rc, e, raw, rs in ex.map(size1, jobs):
            checked += 1; what = "%d bytes of %s as %s" % (sz, kind, k)
            if rc or raw is None: rep.violation("encrypting %s: status %d: %s" % (what, rc, e[-300:])); continue
            note(what, raw); leak(what, raw, data, secrets(rs))
    # 4. the random generator fails at the k-th request; scripted random numbers that differ in one byte
    def script(lib, k, rs=None, fi="none"):
        log = os.path.join(vlib.sdir("p14x"), "log%d" % next(n)); env = {"FI": fi, "FI_LOG": log}
        if rs is not None: env["FI_RAND"] = "/".join(r.hex() for r in rs)
        p = os.path.join(lib, k + "c")
        if os.path.exists(p): os.remove(p)
        rc, e = C.run([ENCF, os.path.join(plain, k), k + "c", lib], env=env)
        t = open(log).read(); out = rands(log); os.remove(log)
        return rc, e, read(p), out, "hit" in t
    lib = libs[0]; fails = 0; flips = 0
    for k in ("package.mo", "x.mo", "A/package.mo", "A/y.mo", "A/B/package.mo"):
        d = newlib(); shutil.copytree(lib, d, dirs_exist_ok=True)
        rc, e, raw, rs, _ = script(d, k)
        for i in range(1, len(rs) + 1):
            rc, e, raw, _, hit = script(d, k, fi="RAND_bytes:%d" % i); checked += 1; fails += 1
            if hit and (rc == 0 or raw is not None): rep.violation("encrypting %s: the random generator fails at request %d of %d: exit %d, %s" % (k, i, len(rs), rc, "a file is left" if raw else "no file"))
            elif rc < 0 or rc > 2: rep.violation("encrypting %s with a failing random generator: status %d: %s" % (k, rc, e[-300:]))
        shutil.rmtree(d)
    for s in (["package.mo", "x.mo"], ["package.mo", "A/package.mo", "A/y.mo", "x.mo"]):
        d = newlib(); log = d + ".log"; C.run([TREEF, plain, d] + s, env={"FI": "none", "FI_LOG": log}); m = len(rands(log))
        if os.path.exists(log): os.remove(log)
        for i in range(1, m + 1):
            rc, e = C.run([TREEF, plain, d] + s, env={"FI": "RAND_bytes:%d" % i, "FI_LOG": log}); checked += 1; fails += 1
            if "hit" in open(log).read() and not 10 <= rc < 90: rep.violation("encrypting %s in one process: the random generator fails at request %d: status %d" % (s, i, rc))
            os.remove(log)
    # byte p of the random numbers must matter: at least 16 of them in the initialisation vector, at least 32 in a directory key
    d = newlib(); shutil.copytree(lib, d, dirs_exist_ok=True)
    rc, e, raw0, rs, _ = script(d, "x.mo")
    if rs:
        zero = [bytes(len(r)) for r in rs]; rc, e, raw0, _, _ = script(d, "x.mo", zero); n_iv = 0
        for i, r in enumerate(rs):
            for p in range(len(r)):
                z = list(zero); z[i] = bytes(1 if q == p else 0 for q in range(len(r)))
                rc, e, raw, _, _ = script(d, "x.mo", z); checked += 1; flips += 1
                if rc == 0 and raw[:16] != raw0[:16]: n_iv += 1
        if n_iv < 16: rep.violation("only %d random bytes decide the initialisation vector (16 expected)" % n_iv)
    rc, e, raw0, rs, _ = script(d, "A/package.mo")
    if rs:
        dd = {}
        zero = [bytes(len(r)) for r in rs]; n_key = n_mac = 0
        def keyed(z):
            script(d, "A/package.mo", z); x = script(d, "A/y.mo", [bytes(16)] * 4); return x[2]
        y0 = keyed(zero)
        for i, r in enumerate(rs):
            for p in range(len(r)):
                z = list(zero); z[i] = bytes(1 if q == p else 0 for q in range(len(r)))
                y = keyed(z); checked += 1; flips += 1
                if y is None or y0 is None: rep.violation("encrypting A/y.mo with scripted random numbers fails"); break
                if y[:16] == y0[:16]: n_key += y[16:-32] != y0[16:-32]; n_mac += y[-32:] != y0[-32:]
        if n_key < 32: rep.violation("only %d random bytes decide the key of a directory (32 expected)" % n_key)
        if n_mac < 32: rep.violation("only %d random bytes decide the authentication key of a directory (32 expected)" % n_mac)
    rep.outcomes["failing random requests"] = fails; rep.outcomes["scripted one-byte differences"] = flips
    rep.sample({"sequence": list(seqs[-1]), "depth": depth}); rep.sample({"pair": [pairs[1][1], pairs[1][3]], "same_library": pairs[1][0] == pairs[1][2]})
    rep.assumptions = ["random numbers are obtained from OpenSSL's RAND interface (scripted parts are skipped otherwise)"]
    return rep.finish(evaluations=checked, distinct_nontrivial=len(ivs), sequences=len(seqs), depth=depth, key_pairs=len(pairs), exhaustive=True,
                      rule="every encryption sequence up to the depth over 6 files, every pair of directories, every size, every random byte, every failing random request; distinct = different initialisation vectors")

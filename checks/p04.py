"""P04: library trees x encryption orders x request histories; every served file must be the original, byte for byte."""
import itertools, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Step, msg
from checks import common

def body(tag, n=None):
    s = ("within %s; model M_%s \"content of %s\" parameter Real p = 1; end M;\n" % (tag, tag, tag)).encode()
    if n is None: return s
    return (s * (n // len(s) + 1))[:n]

def binary(n, seed): return bytes((i * 131 + (i >> 8) * 17 + seed * 29 + 7) & 255 for i in range(n))

def trees(tier):
    """(name, {rel .mo path: bytes}, {other rel: bytes}, order or None for refused-is-fine permutations)"""
    out = []
    shapes = [["", "A", "A/B", "D"], ["", "A", "A/B", "A/B/C"]]
    for si, dirs in enumerate(shapes):
        for flags in itertools.product((1, 0), repeat=len(dirs)):
            mo = {}
            for d, f in zip(dirs, flags):
                pre = d + "/" if d else ""
                if f: mo[pre + "package.mo"] = body("pkg" + d.replace("/", "_"))
                mo[pre + "f.mo"] = body("file" + d.replace("/", "_"))
            pk = [m for m in mo if m.endswith("package.mo")]; fs = [m for m in mo if not m.endswith("package.mo")]
            dfs = []
            for d in dirs: dfs += [m for m in mo if os.path.dirname(m) == d and m.endswith("package.mo")] + [m for m in mo if os.path.dirname(m) == d and not m.endswith("package.mo")]
            nm = "shape%d-%s" % (si, "".join(map(str, flags)))
            out.append((nm + "-pkgfirst", mo, {}, pk + fs))
            if tier == "thorough" or si == 0: out.append((nm + "-bydir", mo, {}, dfs))
            if tier == "thorough": out.append((nm + "-filesrev", mo, {}, pk + fs[::-1]))
    return out

def size_tree(tier):
    sizes = list(range(0, 70)) + [127, 128, 191, 192, 223, 224, 225, 239, 240, 255, 256, 257, 287, 288, 511, 512, 513, 4095, 4096, 4097, 16000, 16383, 16384, 16385, 16400, 32768, 65535, 65536, 70001, 1048576 + 5, 5000011]
    if tier == "thorough": sizes = sorted(set(sizes) | set(range(70, 600)) | {131072, 131073, 3000000, 17000003, 33554433})
    mo = {"package.mo": b"root"}; other = {}
    for n in sizes:
        mo["s%d.mo" % n] = binary(n, 1)
        mo["P%d/package.mo" % n] = binary(n, 2) if n <= 70001 else b"z" * 200
        mo["P%d/in.mo" % n] = binary(min(n, 300), 3)
        other["r%d.txt" % n] = binary(n, 4)
    for n in common.windows(tier):
        mo.setdefault("s%d.mo" % n, binary(n, 1)); other.setdefault("r%d.txt" % n, binary(n, 4))
        if n <= 20000 and n % (4 if tier == "quick" else 1) == 0: mo.setdefault("P%d/package.mo" % n, binary(n, 2)); mo.setdefault("P%d/in.mo" % n, binary(min(n, 300), 3))
    for i, c in enumerate([b"\0" * 64, b"\xff" * 64, b"\n" * 40, b"   ", b"\r\n\r\n", b"\x10" * 16, b"\x01", b"\xef\xbb\xbfmodel", b"end\n\0", b"FILECONT 5\nabcde", b"\0" * 15 + b"\x10" * 17]):
        mo["c%d.mo" % i] = c; mo["C%d/package.mo" % i] = c; mo["C%d/k.mo" % i] = c
        other["c%d.bin" % i] = c; other["C%d/c.dat" % i] = c
    for n in ("noext", ".hidden", "moc", "x.moc.txt", "plain.mo", "d.moc/inner", "a b c.txt", "\u00e5\u00e4.txt", "dots.in.name.png", "x..y", "..x", "x..", "...", "UPPER.TXT", "package.order", "sub/package.order", "x.mocx", "x.mo c"):
        other[n] = b"other file " + n.encode() + b"\n"
    for n in ("a b.mo", "\u00e5.mo", "x..y.mo", "..z.mo", "dots.in.name.mo", "deep/a/b/c/d/e.mo", "Deep/package.mo", "Deep/a/package.mo", "Deep/a/b/package.mo", "Deep/a/b/c/package.mo", "Deep/a/b/c/leaf.mo", "Deep/a/b/x/y/leaf.mo", "UPPER.mo", "mypackage.mo", "Mpackage/package.mo", "Mpackage/xpackage.mo", "package/package.mo", "package/a.mo", "n" * 200 + ".mo", "package.mo.d/q.mo", "A/package2.mo", "A/package.mo", "AB/f.mo", "A/f.mo", "M.MO", "M2.Mo", "A/N.mO", "UP.MO/f.MO"):
        mo[n] = body(n.replace("/", "_"))
    order = sorted(mo, key=lambda m: (os.path.basename(m) != "package.mo", m.count("/"), m))
    return ("sizes", mo, other, order)

def wide_tree(tier):
    """many directories in one session: the key cache grows past every size of its table"""
    n = 500 if tier == "quick" else 3000
    mo = {"package.mo": body("root")}
    for i in range(n): mo["W%d/package.mo" % i] = body("wide%d" % i); mo["W%d/f.mo" % i] = body("in%d" % i)
    # pairs of directories whose names have the same 32-bit hash in uthash (Jenkins)
    for a in ("C008706 C053014 C009417 C126537 Collide006078Directory Collide103507Directory Collide028264Directory Collide182861Directory A/B/Deep179206 A/B/Deep181814 A/B/Deep080127 A/B/Deep112652").split():
        mo[a + "/package.mo"] = body("coll_" + a.replace("/", "_")); mo[a + "/f.mo"] = body("in_" + a.replace("/", "_"))
    d = ""
    for i in range(60): d += "%sN%d" % ("/" if d else "", i); mo[d + "/package.mo"] = body("nest%d" % i); mo[d + "/g.mo"] = body("g%d" % i)
    return ("wide", mo, {}, sorted(mo, key=lambda m: (os.path.basename(m) != "package.mo", m.count("/"), m)))

ODD_NAMES = [b"trailing ", b" leading", b" ", b"two  blanks", b"new\nline", b"ends\n", b"tab\t", b"cr\r", b"per%cent%s%n", "\u00e5\u00e4 \u4e2d".encode(), b"\xff\xfe\x80", b"dot.", b".hid", b"..dots", b"dots..", b"...", b"a..b",
             b"back\\slash", b"quote\"s'", b"~", b"$HOME", b"*", b"x.moc", b"lib.mol", b"package.mo", b"package.moc", b"UPPER", b"upper", b"-dash", b"#h", b"semi;colon:", b"n" * 200, b"n" * 255, b"/".join([b"d" * 100] * 8), b"/".join([b"e"] * 60)]

def run(tier):
    rep = vlib.Report("P04", tier, "model_checking")
    gen = vlib.gen_headers("p04"); exe = vlib.build_explorer("lvex", gen); enc = vlib.build_encoder(gen)
    encf = vlib.build("encrypt_file", [os.path.join(vlib.SRC, "encrypt_decrypt/encrypt_file.c")] + vlib.repo_c("common") + vlib.repo_c("decryptors/default/src"), gen)
    T = trees(tier)
    # every order of a small library: refused orders are no libraries, accepted ones must be served
    small = {"package.mo": body("r"), "x.mo": body("x"), "A/package.mo": body("pa"), "A/y.mo": body("y")}
    for i, o in enumerate(itertools.permutations(sorted(small))): T.append(("order%d" % i, small, {}, list(o)))
    small2 = {"package.mo": body("r"), "A/y.mo": body("y"), "A/B/package.mo": body("pb"), "A/B/z.mo": body("z")}
    for i, o in enumerate(itertools.permutations(sorted(small2))): T.append(("order2_%d" % i, small2, {}, list(o)))
    T.append(size_tree(tier)); T.append(wide_tree(tier))
    libs = []; refused = 0
    def prep(i):
        nm, mo, other, order = T[i]
        plain = vlib.sdir("plain", str(i)); dest = vlib.sdir("lib", str(i))
        vlib.write_tree(plain, mo)
        r = vlib.encrypt_tree(enc, plain, dest, order)
        vlib.write_tree(dest, other)
        return r
    with ThreadPoolExecutor(vlib.NPROC) as ex: rs = list(ex.map(prep, range(len(T))))
    for i, r in enumerate(rs):
        nm, mo, other, order = T[i]
        if r.returncode:
            if nm.startswith("order"): refused += 1; continue
            rep.violation("encrypting library %s in order %s failed: %s" % (nm, order[:10], r.stderr.decode(errors="replace")[-600:]), {"tree": nm, "order": order}); continue
        libs.append((nm, vlib.sdir("lib", str(i)), {k + "c": v for k, v in mo.items()} | other))
    # the same trees encrypted file by file with the encrypt_file command, package files first
    def prepf(i):
        nm, mo, other, order = T[i]
        plain = vlib.sdir("plain", str(i)); dest = vlib.sdir("libf", str(i))
        for m in order:
            os.makedirs(os.path.dirname(os.path.join(dest, m)) or dest, exist_ok=True)
            r = vlib.sh([encf, os.path.join(plain, m), m + "c", dest], env=vlib.san_env(), timeout=60)
            if r.returncode: return (i, m, r)
        return (i, None, None)
    todo = [i for i, t in enumerate(T) if t[0].endswith("-bydir") or (tier == "thorough" and t[0].endswith("-pkgfirst"))]
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for i, m, r in ex.map(prepf, todo):
            nm, mo, other, order = T[i]
            if m: rep.violation("encrypt_file %s in library %s failed (%d): %s" % (m, nm, r.returncode, r.stderr.decode(errors="replace")[-600:]), {"tree": nm, "file": m}); continue
            libs.append((nm + "/encrypt_file", vlib.sdir("libf", str(i)), {k + "c": v for k, v in mo.items()}))
    # one library in directories of many names
    small_lib = next(path for nm, path, c in libs if nm == "order0") if any(l[0] == "order0" for l in libs) else libs[0][1]
    small_content = next(c for nm, path, c in libs if path == small_lib)
    base = vlib.sdir("odd")
    for k, nm in enumerate(ODD_NAMES):
        shutil.copytree(os.fsencode(small_lib), os.path.join(os.fsencode(base), nm)); libs.append(("directory %r" % nm[:40], os.fsdecode(os.path.join(os.fsencode(base), nm)), small_content))
    # sessions
    steps = [Step(msg("VERSION", num=1))]; seqs = set(); info = {}
    for nm, path, content in libs:
        steps.append(Step(msg("LIB", os.fsencode(path)), name="LIB " + nm)); lb = len(steps) - 1
        fs = []
        for f, d in sorted(content.items()):
            steps.append(Step(msg("FILE", f.encode()), name="FILE " + f)); fs.append(len(steps) - 1); info[len(steps) - 1] = (f, d)
        nf = len(fs)
        if nm.startswith("directory"): seqs.add((0, lb) + tuple(fs) * 2); seqs.add((0, lb) + tuple(fs[::-1])); seqs.update((0, lb, a) for a in fs); continue
        if nm == "wide":
            pk = [a for a in fs if info[a][0].endswith("package.moc")]; lf = [a for a in fs if a not in set(pk)]
            for o in (fs[::-1], lf[::-1] + pk, pk + lf): seqs.add((0, lb) + tuple(o))
            continue
        if nf > 30:
            for a in fs: seqs.add((0, lb, a, a))
            run_ = [a for a in fs if len(info[a][1]) < 20000]
            for k in range(0, len(run_), 40): seqs.add((0, lb) + tuple(run_[k:k + 40])); seqs.add((0, lb) + tuple(run_[k:k + 40][::-1]))
            continue
        deep = (3 if "/" not in nm or tier == "thorough" else 2) if nf > 4 else 4
        if tier == "thorough" and nf <= 6: deep = 4
        for s in itertools.product(fs, repeat=deep): seqs.add((0, lb) + s)
        if nf <= (4 if tier == "quick" else 5):
            for s in itertools.permutations(fs): seqs.add((0, lb) + s)
        seqs.add((0, lb) + tuple(fs) * 2); seqs.add((0, lb) + tuple(fs[::-1]) * 2)
    res = vlib.explore(exe, steps, seqs)
    served = 0; states = set()
    for p in sorted(res.nodes, key=lambda p: (len(p), p)):
        if rep.full(): break
        n = res.nodes[p]
        if not p or n.status == "unreached":
            if not p and n.status != "ok": rep.violation("no session: %s" % res.asan[:1])
            continue
        if n.status == "died":
            rep.violation("session %s: the executable crashed or hung; %s" % (common.describe(steps, p), (res.asan or [""])[0][:900]), common.replay_data(steps, p)); continue
        if p[-1] not in info: continue
        f, d = info[p[-1]]
        r, why = common.one_reply(n.reply)
        why = why or common.match(("REP", "FILECONT", None, d), r)
        served += 1; states.add((p[1], frozenset(p[2:])))
        if why: rep.violation("library %s, requests %s: %s" % (steps[p[1]].name, [info[q][0] for q in p[2:]], why), common.replay_data(steps, p))
        if served % 2501 == 1: rep.sample({"library": steps[p[1]].name, "requests": [info[q][0] for q in p[2:]], "bytes": len(d)})
    rep.outcome("served"); rep.outcomes["served"] = served; rep.outcomes["encryption order refused"] = refused
    case_variant(rep, gen, exe, enc)
    rep.assumptions = ["package files are encrypted before the other files of their directory, as the encryption itself demands",
                       "directory keys derive from package files named package.mo, as Modelica requires (see known findings for other spellings)",
                       "a separator (/ or \\) at the end of the announced library path is not part of the directory's name"]
    return rep.finish(states=len(states), transitions=len(seqs), traces_validated_against_impl=served, exhaustive=True, libraries=len(libs), orders_refused=refused, nodes=len(res.nodes))

def case_variant(rep, gen, exe, enc):
    """Known finding: a package file spelled in another case protects its directory but is not found again."""
    plain = vlib.sdir("cv_plain"); dest = vlib.sdir("cv_lib")
    mo = {"package.mo": body("r"), "A/Package.mo": body("p"), "A/y.mo": body("y")}
    vlib.write_tree(plain, mo)
    if vlib.encrypt_tree(enc, plain, dest, ["package.mo", "A/Package.mo", "A/y.mo"]).returncode: return
    steps = [Step(msg("VERSION", num=1)), Step(msg("LIB", dest.encode())), Step(msg("FILE", b"A/y.moc")), Step(msg("FILE", b"A/Package.moc"))]
    res = vlib.explore(exe, steps, {(0, 1, 2), (0, 1, 3, 2)})
    for p, f in (((0, 1, 2), "A/y.mo"), ((0, 1, 3), "A/Package.mo"), ((0, 1, 3, 2), "A/y.mo")):
        n = res.nodes[p]
        if n.status != "ok": rep.violation("library with A/Package.mo: crash on %s; %s" % (f, res.asan[:1])); continue
        r, why = common.one_reply(n.reply)
        why = why or common.match(("REP", "FILECONT", None, mo[f]), r)
        if why: rep.violation("library with A/Package.mo, requests %s: %s" % (common.describe(steps, p[2:]), why), common.replay_data(steps, p), key="case-variant-package" if p == (0, 1, 2) and r and r[0] == "ERROR" else None)
    # once the package files have been requested in whatever spelling, everything below them is served
    for i, (a, b) in enumerate(itertools.product(("package.mo", "Package.mo", "PACKAGE.mo", "pacKage.mo"), repeat=2)):
        plain = vlib.sdir("cvp%d" % i); dest = vlib.sdir("cvl%d" % i)
        mo = {a: body("r%d" % i), "A/" + b: body("pa"), "A/y.mo": body("y"), "A/C/z.mo": body("z"), "x.mo": body("x")}; order = list(mo)
        vlib.write_tree(plain, mo)
        if vlib.encrypt_tree(enc, plain, dest, order).returncode: continue
        steps = [Step(msg("VERSION", num=1)), Step(msg("LIB", dest.encode()))] + [Step(msg("FILE", (m + "c").encode())) for m in order]
        res = vlib.explore(exe, steps, {(0, 1, 2, 3) + q for q in itertools.permutations((4, 5, 6))})
        for p, n in res.nodes.items():
            if len(p) < 3: continue
            if n.status != "ok": rep.violation("library with %s and A/%s: crash; %s" % (a, b, res.asan[:1])); break
            r, why = common.one_reply(n.reply); why = why or common.match(("REP", "FILECONT", None, mo[order[p[-1] - 2]]), r)
            if why: rep.violation("library with %s and A/%s, requests %s: %s" % (a, b, common.describe(steps, p[2:]), why), common.replay_data(steps, p)); break

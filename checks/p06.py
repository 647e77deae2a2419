"""P06: every path of up to n elements over an alphabet of ordinary and escaping elements, from several library roots."""
import itertools, os
import vlib
from vlib import Step, msg
from checks import common

def run(tier):
    rep = vlib.Report("P06", tier, "model_checking")
    gen = vlib.gen_headers("p06"); exe = vlib.build_explorer("lvex", gen); enc = vlib.build_encoder(gen)
    w = vlib.sdir("w"); lib = os.path.join(w, "lib")
    plain = vlib.sdir("plain06"); mo = {"lib/package.mo": b"package inside-root\n", "lib/m.mo": b"model inside m\n", "lib/A/m.mo": b"model inside A.m\n", "lib/A/package.mo": b"package inside A\n"}
    # outside: files next to the library, in a directory whose name extends the library's, and encrypted ones
    vlib.write_tree(plain, {k[4:]: v for k, v in mo.items()})
    r = vlib.encrypt_tree(enc, plain, lib, ["package.mo", "A/package.mo", "m.mo", "A/m.mo"])
    if r.returncode: raise vlib.BuildError("encryption failed")
    vlib.write_tree(plain + "2", {"package.mo": b"OUTSIDE package\n", "m.mo": b"OUTSIDE encrypted m\n", "A/package.mo": b"OUTSIDE A package\n", "A/m.mo": b"OUTSIDE encrypted A/m\n"})
    r = vlib.encrypt_tree(enc, plain + "2", w, ["package.mo", "A/package.mo", "m.mo", "A/m.mo"])
    if r.returncode: raise vlib.BuildError("encryption failed")
    outside = {"s.txt": b"OUTSIDE s in parent\n", "A/s.txt": b"OUTSIDE A/s in parent\n", "lib2/s.txt": b"OUTSIDE lib2/s\n", "lib.txt": b"OUTSIDE lib.txt\n", "libA/s.txt": b"OUTSIDE libA\n", "x.txt": b"OUTSIDE x\n", "..s": b"OUTSIDE ..s\n"}
    vlib.write_tree(w, outside)
    inside = {"x.txt": b"inside x\n", "A/s.txt": b"inside A/s\n", "...": b"inside three dots\n", "..s": b"inside ..s\n", "a..b": b"inside a..b\n", "x..": b"inside x..\n", ".h": b"inside .h\n",
              "..d/s.txt": b"inside ..d/s\n", "d../s.txt": b"inside d../s\n", ".../s.txt": b""[:0] or b"", "A/B/s.txt": b"inside A/B/s\n", "A/..b": b"inside A/..b\n", "A/a..": b"inside A/a..\n", ".../q": b"q"}
    inside.pop("...", None); inside.pop(".../s.txt", None)
    vlib.write_tree(lib, inside)
    plainof = {os.path.join(lib, k[4:] + "c"): v for k, v in mo.items()}
    def real(p):
        if p in plainof: return plainof[p]
        return open(p, "rb").read()
    insidefiles = {}
    for dp, dn, fn in os.walk(lib):
        for f in fn: insidefiles[os.path.join(dp, f)] = real(os.path.join(dp, f))
    el = ["..", ".", "", "A", "s.txt", "x.txt", "lib", "...", "..s", "m.moc"]
    if tier == "thorough": el += ["lib2", "a..b", "B", ".. ", "package.moc", "..d", "d.."]
    depth = 4
    paths = set()
    for k in range(1, depth + 1):
        for t in itertools.product(el, repeat=k):
            paths.add("/".join(t))
            if ".." in t and k <= (3 if tier == "quick" else 4):
                paths.add("\\".join(t))
                if k > 1: paths.add(t[0] + "\\" + "/".join(t[1:])); paths.add("/".join(t[:-1]) + "\\" + t[-1])
    up = "../" * 30
    absw = w.lstrip("/")
    for tgt in ("s.txt", "lib2/s.txt", "A/s.txt", "m.moc", "A/m.moc"):
        for pre in ("", "A/", "./", "A/../", "x.txt/", "nosuch/", ".h/", "...", ".../", "A//", "//", "A/B/", "A\\", "..d/", "d../", "./" * 300, "A/B/../../" * 40, "x" * 3000 + "/", "./" * 1900, "/" * 200, " ", "\t", "A/./B/../"):
            for esc in ("../", "..//", ".././", "../../w/", "../lib/../", "..", up + absw + "/", "..\\", "..\\..\\w\\", "../../../../../../../../../.." + w + "/"):
                paths.add(pre + esc + tgt); paths.add(pre + esc + tgt + "/"); paths.add(pre + esc + tgt + "/.")
        paths.add("/" + absw + "/" + tgt); paths.add("//" + absw + "/" + tgt); paths.add("file://" + w + "/" + tgt); paths.add("~/" + tgt)
        paths.add("..\0/../" + tgt); paths.add("%2e%2e/" + tgt); paths.add("..%2f" + tgt); paths.add("../" + tgt + "\0.txt"); paths.add("x.txt\0/../../" + tgt); paths.add("../" + tgt + "\0moc")
    for f in insidefiles: paths.add(os.path.relpath(f, lib))
    paths = sorted(p for p in paths if p and len(p) < 8000)
    V = Step(msg("VERSION", num=1))
    libs = [(lib, None), (lib + "/", None), (lib + "///", None), ("lib", w), ("./lib", w), (".", lib), (lib + "/.", None), (lib + "/A", None), (lib + "/A/..", None), ("lib/A", w), ("..", lib + "/A"), (os.path.join(w, "lib2", "..", "lib"), None)]
    checked = served = refused = 0; outcomes = set()
    for li, (lp, cd) in enumerate(libs):
        root = os.path.realpath(os.path.join(cd or "/", lp))
        base = os.path.join(cd or "/", lp)
        use = paths if li == 0 or tier == "thorough" else [p for p in paths if len(p) < 40 and p.count("/") + p.count("\\") <= (2 if li > 2 else 3)][li % 3::3]
        if li: use = sorted(set(use) | {os.path.relpath(f, root) for f in insidefiles if f.startswith(root + "/")} | {"../s.txt", "../../s.txt", "../x.txt", "../A/s.txt", "A/../../s.txt"})
        steps = [V, Step(msg("LIB", lp.encode()), name="LIB " + lp)] + [Step(msg("FILE", p.encode("utf-8", "surrogateescape")), name="FILE " + p[:120]) for p in use]
        seqs = {(0, 1, i) for i in range(2, len(steps))}
        # the check must not wear off: an escape after ordinary requests and after other escapes
        m = {p: i + 2 for i, p in enumerate(use)}
        for a in ("x.txt", "A/s.txt", "../s.txt", "m.moc", "A/../../s.txt"):
            for b in ("../s.txt", "A/../../s.txt", "x.txt", "../lib2/s.txt"):
                if a in m and b in m: seqs.add((0, 1, m[a], m[b], m[a], m[b]))
        res = vlib.explore(exe, steps, seqs, extra=["chdir " + cd] if cd else [])
        for p in sorted(res.nodes, key=lambda p: (len(p), p)):
            if rep.full(): break
            n = res.nodes[p]
            if n.status == "unreached" or not p: continue
            where = "library %s%s, request %s" % (lp, " in " + cd if cd else "", [steps[q].name for q in p[2:]])
            rd = lambda: common.replay_data(steps, p, chdir=cd)
            if n.status == "died": rep.violation("%s: the executable crashed or hung; %s" % (where, (res.asan or [""])[0][:900]), rd()); continue
            if len(p) < 3: continue
            checked += 1
            name = use[p[-1] - 2]; cname = name.split("\0")[0]
            r, why = common.one_reply(n.reply)
            if why: rep.violation("%s: %s" % (where, why), rd()); continue
            if b"OUTSIDE" in n.reply and r[0] == "FILECONT": rep.violation("%s: content of a file outside the library: %r" % (where, r[2][:60]), rd()); continue
            full = base + "/" + cname
            elems = cname.replace("\\", "/").split("/")
            canonical = all(e not in ("", ".", "..") for e in cname.split("/")) and "\\" not in cname and cname == name
            target = os.path.join(root, cname) if canonical else None
            if r[0] == "FILECONT":
                served += 1
                rp = os.path.realpath(full)
                exp = insidefiles.get(rp) if rp.startswith(root + "/") else None
                # a .moc file named in a non-canonical way may be refused, but never yields anything else
                if exp is None: rep.violation("%s: served %r, which is no file of the library" % (where, r[2][:60]), rd())
                elif r[2] != exp: rep.violation("%s: served %r instead of %r" % (where, r[2][:60], exp[:60]), rd())
            elif r[0] == "ERROR":
                refused += 1
                if canonical and target in insidefiles and root == lib: rep.violation("%s: an ordinary file of the library is refused: %r" % (where, r[2][:100]), rd())
                elif canonical and target in insidefiles and target not in plainof: rep.violation("%s: an ordinary file of the library is refused: %r" % (where, r[2][:100]), rd())
            else: rep.violation("%s: unexpected reply %s" % (where, r[0]), rd())
            outcomes.add((li, r[0], ".." in elems, canonical))
            if checked % 3001 == 1: rep.sample({"library": lp, "request": name[:100], "reply": r[0]})
    rep.outcomes = {"served": served, "refused": refused}
    if not served or not refused: rep.violation("vacuous: served=%d refused=%d" % (served, refused))
    rep.assumptions = ["no symbolic links inside the library point outside of it"]
    return rep.finish(states=len(outcomes), transitions=len(paths), traces_validated_against_impl=checked, exhaustive=True, paths=len(paths), roots=len(libs), elements=len(el), depth=depth)

"""P17: runs the real packaging tool for enumerated command lines and reads the manifest back with an XML parser."""
import itertools, os, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks import packlib as K

TEXT = ["enabled", "title", "description", "version", "build", "date", "language", "copyright", "license"]
ELEM = ["title", "description", "copyright", "license"]     # elements with text
LVE_PLATFORM = {"lve_win32.exe": "win32", "lve_win64.exe": "win64", "lve_linux32": "linux32", "lve_linux64": "linux64", "lve_darwin64": "darwin64"}
HEAD = b'<?xml version="1.0" encoding="utf-8"?>\n'
WS = " \t\n"

def canon(e):
    if isinstance(e, bytes): return ET.canonicalize(e.decode("utf-8"), strip_text=True)
    s = ET.tostring(e, encoding="unicode"); return ET.canonicalize(s, strip_text=True)

def check(m, name, vals, lves, icon, lists):
    """why the manifest (bytes) does not carry exactly these values, or None. lists: the bytes after the first line of each list file"""
    try: t = ET.fromstring(m)
    except ET.ParseError as e: return "it is not well-formed: %s: %r" % (e, m[:1500])
    if t.tag != "archive" or [c.tag for c in t] != ["manifest", "library"] or t.attrib: return "unexpected structure: %r" % m[:600]
    if t[0].attrib != {"version": "1.0"} or len(t[0]): return "unexpected manifest version: %r" % t[0].attrib
    l = t[1]; at = {"id": name}
    if "enabled" in vals: at["enabled"] = vals["enabled"]
    if l.attrib != at: return "library attributes are %r, not %r" % (l.attrib, at)
    want = {}
    for k in ELEM:
        if k in vals: want[k] = ("text", vals[k].strip(WS))
    v = {"number": vals["version"]}
    if "build" in vals: v["build"] = vals["build"]
    if "date" in vals: v["date"] = vals["date"]
    want["version"] = ("attr", v); want["language"] = ("attr", {"version": vals["language"]})
    rest = []; seen = []
    for c in l:
        if c.tag in want:
            if c.tag in seen: return "two %s elements" % c.tag
            seen.append(c.tag); kind, w = want[c.tag]
            if len(c): return "%s contains elements" % c.tag
            if kind == "attr" and (c.attrib != w or (c.text or "").strip()): return "%s is %r, not %r" % (c.tag, c.attrib, w)
            if kind == "text" and (c.attrib or (c.text or "").strip(WS) != w): return "%s reads %r, not %r" % (c.tag, c.text, w)
        else: rest.append(c)
        if (c.tail or "").strip(): return "text %r after %s" % (c.tail, c.tag)
    if (l.text or "").strip() : return "stray text %r" % l.text
    if set(seen) != set(want): return "missing: %s" % sorted(set(want) - set(seen))
    if lves:
        e = [c for c in rest if c.tag == "encryption"]
        if len(e) != 1: return "%d encryption elements" % len(e)
        rest.remove(e[0])
        if e[0].attrib or any(c.tag != "executable" for c in e[0]): return "unexpected content of encryption: %r" % ET.tostring(e[0])
        have = sorted((c.get("path"), c.get("platform"), c.get("licensing", "true")) for c in e[0])
        w = sorted((".library/" + x, LVE_PLATFORM[x], "true") for x in lves)
        if have != w: return "executables %r, not %r" % (have, w)
    if icon is not None:
        e = [c for c in rest if c.tag == "icon"]
        if len(e) != 1: return "%d icon elements" % len(e)
        rest.remove(e[0])
        if set(e[0].attrib) != {"file"} or e[0].get("file") not in icon: return "icon %r, not one of %r" % (e[0].attrib, icon)
    exp = [canon(c) for b in lists for c in ET.fromstring(b"<r>" + b + b"</r>")]
    got = [canon(c) for c in rest]
    if exp != got: return "the list elements are %s, not %s" % (str(got)[:300], str(exp)[:300])
    for b in lists:
        pos = 0
        for line in b.split(b"\n"):
            line = line.strip()
            q = m.find(line, pos)
            if q < 0: return "a line of a list is not copied: %r" % line[:100]
            pos = q + len(line)
    return None

def run(tier):
    rep = vlib.Report("P17", tier, "model_checking"); thorough = tier == "thorough"
    P = K.Pack("p17"); checked = 0; distinct = set(); sizes = {}
    TOOLS = b'<compatibility>\n  <tool name="A &amp; B" minversion="1.0"/>\n  <tool name="C" minversion="2"/>\n</compatibility>\n'
    DEPS = b'<dependencies>\n  <dependency id="D"><versions><version number="1"/></versions></dependency>\n</dependencies>\n'
    jobs = []
    def job(cls, vals, name="Lib", lves=(), icon=None, tools=None, deps=None, order=0, enc=None, tree=None):
        sizes[cls] = sizes.get(cls, 0) + 1
        jobs.append((cls, dict({"version": "1", "language": "3"}, **vals), name, tuple(lves), icon, tools, deps, order, enc, tree or {"package.mo": b"package P end P;", "i.png": b"x"}))
    def do(j):
        cls, vals, name, lves, icon, tools, deps, order, enc, tree = j
        d = P.case(); src = d + "/src/" + name; vlib.write_tree(src, tree)
        args = [("librarypath", src)] + list(vals.items()); lists = []
        if enc: args.append(("encrypt", enc))
        if icon: args.append(("icon", src + "/" + icon if not icon.startswith("/") else d + icon))
        if icon and icon.startswith("/"): open(d + icon, "w").close()
        for k, b in (("tools", tools), ("dependencies", deps)):
            if b is not None: open(d + "/" + k, "wb").write(b); args.append((k, d + "/" + k)); lists.append(b.partition(b"\n")[2])
        args = args[order % len(args):] + args[:order % len(args)]
        if (order // len(args)) % 2: args.reverse()
        r = K.run(P, d, P.conf(lves or ("lve_linux64",)), [x for k, v in args for x in ("-" + k, v)], name=name)
        why = None; m = None
        if r.rc: why = "exit %d: %s" % (r.rc, r.out[-500:])
        elif r.archive is None: why = "no archive"
        else:
            ms = [a for a in r.archive if a[0] == name + "/.library/manifest.xml"]
            if len(ms) != 1: why = "%d manifests in the archive" % len(ms)
            else:
                m = ms[0][2]; names = {a[0] for a in r.archive}
                ic = None if icon is None else [os.path.normpath(icon)] if not icon.startswith("/") else [k for k in tree if k.rsplit("/", 1)[-1] == icon.rsplit("/", 1)[-1]]
                try: why = check(m, name, vals, lves if enc and enc.lower() == "true" else (), ic, lists)
                except Exception as e: why = "unexpected structure (%s): %r" % (e, m[:600])
                if why is None:
                    t = ET.fromstring(m)
                    for e in t.iter("executable"):
                        if name + "/" + e.get("path") not in names: why = "the executable %s is not in the archive" % e.get("path")
                    if icon is not None and name + "/" + t.find("library/icon").get("file") not in names: why = "the icon is not in the archive"
                if why: why = "manifest: " + why
        K.clean(d); return j, m, why
    opt = ["enabled", "title", "description", "build", "date", "copyright", "license", "encrypt", "icon", "tools", "dependencies"]
    # every subset of the optional options
    for n, bits in enumerate(itertools.product((0, 1), repeat=len(opt))):
        s = {o for o, b in zip(opt, bits) if b}
        if not thorough and n % 4 != (bin(n // 4).count("1") % 4) and len(s) not in (0, 1, 2, 3, 9, 10, 11): continue
        job("option subsets", {o: "v-" + o for o in opt[:7] if o in s}, lves=("lve_linux64", "lve_win32.exe"), icon="i.png" if "icon" in s else None, tools=HEAD + TOOLS if "tools" in s else None,
            deps=HEAD + DEPS if "dependencies" in s else None, order=n, enc="true" if "encrypt" in s else None)
    # every short value over the alphabet, in every option (each run gives each of the options another value of the list)
    A = ["<", ">", "&", "\"", "'", "a", " ", "\u00e9", "%", ";", "-", "\\", "#", "/", "$"]
    words = [""] + ["".join(w) for k in (1, 2) + ((3,) if thorough else ()) for w in itertools.product(A, repeat=k)]
    words += ["&amp;", "&#10;", "&lt;b&gt;", "]]>", "<![CDATA[x]]>", "<!-- c -->", "-->", "%s%s%n", "%d %x %1$s", "a--b", "?>", "<?x?>", "</title>", "/>", "\">", "\u00ff", "\u0000"[:0], "\U0001f600", "\u4e2d\u6587", "title", "-title", "-version", "version", "true",
              "TRUE", "-", "--", "--helpme", "-hh", "h", "2022-01-01", "1.0-beta build 7", "~", "\u00a0x", "x" * 64]
    words = [w if w.strip(WS) else "x" + w + "y" for w in words]     # a value is not empty
    for i in range(len(words)):
        vals = {}
        for q, o in enumerate(TEXT):
            w = words[(i + q * 53) % len(words)]
            vals[o] = w
        job("short values", vals, order=i)
    # line structure inside text elements
    for w in ("a\nb", "a\n\nb", "a\tb", "  a  \n  b  ", "a" + "\n" * 50 + "b", "line\n<&>\"\nline"):
        for o in ELEM: job("multi-line text", {o: w})
    # lengths
    L = sorted({n + k for n in (64, 100, 128, 199, 200, 201, 255, 256, 512, 1000, 1024, 2000, 2047, 2048, 4095, 4096, 8192, 65536) for k in (-1, 0, 1)} | (set(range(1, 2200, 7)) if thorough else set()))
    for i, n in enumerate(L):
        for pat in ("x", "<&", "\u00e9a", "\"'"):
            v = (pat * n)[:n]
            for os_ in ([TEXT] if n < 20000 else [[o] for o in TEXT]): job("long values", {o: v for o in os_}, order=i)
    # library names
    B = ["&", "<", ">", "\"", "'", "a", " ", "\u00e9", "%", ".", "-", ";"]
    for w in ["".join(w) for k in (1, 2) for w in itertools.product(B, repeat=k)] + ["%s%n", "N" * 190, "a.mo", "Lib 1.0", "&lt;", "Lib.mol"]:
        if w in (".", ".."): continue
        job("library names", {}, name=w, enc="true" if len(w) == 1 else None, lves=("lve_linux64",))
    # list files
    bodies = [b"", b"\n", b"\n\n", TOOLS, TOOLS.rstrip(b"\n"), TOOLS.replace(b"\n", b"\r\n"), b"\n" + TOOLS + b"\n\n", TOOLS.replace(b"\n", b""), TOOLS.replace(b"\n", b"\n\n"), b"<c/>", b"<c/>\n", b"<c></c>", b"<c><t n='%s%n'/></c>\n",
              "<c><t n=\"\u00ff\u00e9\u4e2d\"/></c>\n".encode(), b"\t\t<c>\n\t\t\t<t/>\n\t\t</c>", b"<!-- one --><c/>\n", b"<c>\n" + b"".join(b'<t n="%d"/>\n' % i for i in range(500)) + b"</c>\n", b"<c><![CDATA[a<b]]></c>\n", b"<c>&#255;&lt;</c>\n", b"<a/>\n<b/>\n"]
    heads = [HEAD, HEAD.replace(b"\n", b"\r\n"), b"\n", b"<?xml version='1.0'?>" + b" " * 5000 + b"\n"]
    N = sorted({n + k for n in (80, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 16384) for k in range(-3, 3)} | (set(range(1, 2100)) if thorough else set()))
    for n in N: bodies.append(b"<c><t n=\"" + b"x" * n + b"\"/></c>\n")
    for n in N[::3]: bodies.append(b"<c>\n" + (b"<t n=\"" + b"y" * n + b"\"/>\n") * 3 + b"</c>")
    for n, b in enumerate(bodies):
        for k, h in enumerate(heads if n < 20 else heads[:1]):
            job("tool lists", {}, tools=h + b, deps=HEAD + DEPS if n % 2 else None, order=n)
            job("dependency lists", {}, deps=h + b, tools=HEAD + TOOLS if n % 2 else None, order=n)
    for b in (b"", HEAD.rstrip(b"\n"), b"x", b"x" * 5000): job("tool lists", {}, tools=b); job("dependency lists", {}, deps=b, tools=b)
    # executables
    for k in range(1, 6):
        for s in itertools.combinations(K.LVES, k):
            for e in ("true", "TRUE", "True"): job("executables", {"title": "t"}, lves=s, enc=e)
    for e in ("false", "no", "FALSE", "tru", "truee", "1", "yes"): job("executables", {}, enc=e, lves=("lve_linux64",))
    # icons
    names = ["i.png", "I.PNG", "icon file.png", "i&<.png", "i\u00e9.svg", "icon", ".i.png", "i.mo.png", "n" * 120 + ".png"]
    dirs = ["", "R/", "R/I/", "Resources/Images/", "a/b/c/d/e/", "Lib/", "Lib/Lib/", "x y/", "&/", "src/", "cwd/", "D" * 100 + "/" + "E" * 100 + "/"]
    for n in names:
        for d in dirs:
            job("icons", {}, icon=d + n, tree={"package.mo": b"p", d + n: b"icon", "zz/other.txt": b"", "R/package.mo": b"", "AA/x.mo": b""}, enc="true" if len(n) % 2 else None, lves=("lve_linux64",))
    for a, b in itertools.permutations(["i.png", "A/i.png", "A/B/i.png", "Z/i.png"], 2):
        for sp in ("", "A/../", "./", "A//../Z/../"): job("icons", {}, icon=sp + a, tree={"package.mo": b"p", a: b"1", b: b"2", "A/x": b"", "Z/y": b""})
    for a in ("A/i.png", "i.png", "A/B/i.png"): job("icons", {}, icon="/i.png", tree={"package.mo": b"p", a: b"1"})     # given by another path to a file of the same name
    for a in ("i.png", "A/i.png"): job("icons", {}, icon=a, name="Lib", tree={"package.mo": b"p", a: b"1", "A/xi.png": b"2", "A/i.png.bak/q": b"3", "I/i.pn": b"4"})
    with ThreadPoolExecutor(vlib.NPROC * 2) as ex:
        for j, m, why in ex.map(do, jobs):
            checked += 1; distinct.add(m); rep.outcome("manifest read back" if m and not why else "no manifest" if not m else "wrong")
            if why and not rep.full(): rep.violation("%s, options %r, library %r, encrypt %r, icon %r, lists %r %r: %s" % (j[0], str(j[1])[:300], j[2][:60], j[8], j[4], (j[5] or b"")[:120], (j[6] or b"")[:80], why), {"options": {k: v[:2000] for k, v in j[1].items()}, "library": j[2], "executables": j[3], "icon": j[4], "order": j[7], "encrypt": j[8],
                         "tools": (j[5] or b"")[:3000].decode(errors="replace"), "dependencies": (j[6] or b"")[:3000].decode(errors="replace"), "tree": sorted(j[9])})
            elif checked % 331 == 1: rep.sample({"class": j[0], "options": {k: v[:60] for k, v in j[1].items()}, "library": j[2][:60], "manifest bytes": len(m or b"")})
    rep.outcomes.update({"class " + k: v for k, v in sizes.items()})
    rep.assumptions = ["values are printable text (UTF-8), without control characters; line breaks and tabs only in text elements", "list files are well-formed XML after their first line", "an icon given by a path outside the library may be any file in it of that name"]
    return rep.finish(evaluations=checked, distinct_nontrivial=len(distinct), rule="one run of the real tool per command line; manifest parsed with an XML parser and compared with the values given", exhaustive=True)

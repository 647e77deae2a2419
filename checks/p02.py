"""P02: a grammar of malformed and mis-sized messages, in every session state, with probes before and after."""
import itertools
import vlib
from vlib import Step, msg
from checks import common

WORDS = sorted(vlib.FORMS)
NUMS = [b"0", b"1", b"3", b"-1", b"abc", b"", b"9223372036854775807", b"9223372036854775808", b"99999999999999999999999", b"-9223372036854775808",
        b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"1000000", b"0x10", b"1e3", b"3x", b"+3", b"--1", b"%s%n%d"]

def isnum(t):
    """True / False / None (unclear: the parser may accept a numeric prefix)."""
    if t.lstrip(b"-+").isdigit() and len(t) - len(t.lstrip(b"-+")) <= 1: return True
    if t[:1].isdigit() or (t[:1] in b"+-" and t[1:2].isdigit()): return None
    return False

def classify(m):
    """'MAL': certainly malformed; 'OK': well-formed (word, num, data); None: unclear, only the general rules apply."""
    nl = m.find(b"\n")
    head = m if nl < 0 else m[:nl]
    if b"\0" in head or b"\t" in head or b"\r" in head or head != head.strip(b" ") or b"  " in head: 
        t = head.split(b"\0")[0].split()
        if not t: return "MAL" if nl != 0 and not m.strip(b"\n ") else None
        w = t[0].decode("latin1")
        return "MAL" if w not in vlib.FORMS and b"\t" not in head and b"\r" not in head and b"\0" not in head else None
    if nl == 0:
        return "MAL" if not m.strip(b"\n ") else None
    t = head.split(b" ")
    w = t[0].decode("latin1")
    if w not in vlib.FORMS: return "MAL"
    form = vlib.FORMS[w]
    if len(t) != (1, 2, 2, 3)[form]: return "MAL"
    ns = [isnum(x) for x in t[1:]]
    if False in ns: return "MAL"
    if None in ns: return None
    if any(len(x) > 40 for x in t[1:]): return None
    vals = [int(x) for x in t[1:]]
    if any(abs(v) > 2**63 - 1 for v in vals): return None if not (form >= 2 and vals[-1] < 0) else "MAL"
    if form in (2, 3):
        ln = vals[-1]
        if ln < 0: return "MAL"
        if w in ("FEATURE", "FILE", "LIB", "LICENSE", "RETURNFEATURE", "RETURNLICENSE"):
            if nl < 0: return "MAL" if ln > 0 else None
            data = m[nl + 1:]
            if len(data) < ln: return "MAL"
            if len(data) > ln: return None
            if ln == 0: return "MAL" if w == "LIB" else None
            return ("OK", w, None, data)
        return ("OK", w, vals[0] if form == 3 else None, None)
    if nl < 0 or nl != len(m) - 1: return None
    return ("OK", w, vals[0] if vals else None, None)

def grammar(lib, tier):
    L = lib.encode(); out = []
    def add(m):
        if 0 < len(m) <= 16384: out.append(m)
    # every word x every number token x newline / data variants
    for w in WORDS:
        W = w.encode(); form = vlib.FORMS[w]
        add(W); add(W + b"\n"); add(b" " + W + b"\n"); add(W + b" \n"); add(W.lower() + b" 1\nx"); add(W[:-1] + b"\n"); add(W + b"X 1\nx"); add(b"\n" + W + b" 1\nx"); add(W + b"\t1\nx"); add(W + b"\r\n")
        add(W + b"\0 1\nx"); add(W + b" 1 2 3\nx"); add(W + b" 1 2 3 4 5 6\nx"); add(W + b"1\nx")
        for n in NUMS:
            add(W + b" " + n + b"\n"); add(W + b" " + n); add(W + b" " + n + b"\nabc"); add(W + b"  " + n + b" \nabc")
        for a, b in itertools.product([b"1", b"-1", b"x", b"7"], [b"0", b"3", b"-3", b"y", b"9223372036854775807"]):
            add(W + b" " + a + b" " + b + b"\nabc")
    # declared length against the bytes that follow
    sizes = [0, 1, 2, 7, 8, 9, 63, 64, 65, 255, 1013, 1014, 1015, 1016, 1017, 1018, 1022, 1023, 1024, 2046, 4095, 4096, 4097, 8192, 16000, 16370]
    for w in ("FEATURE", "FILE", "LIB", "LICENSE", "RETURNFEATURE", "RETURNLICENSE"):
        for d in sizes:
            for k in {d, d - 1, d + 1, 0, d // 2, 2 * d, d + 100} | ({s for s in sizes} if tier == "thorough" else set()):
                if k >= 0: add(b"%s %d\n" % (w.encode(), d) + b"n" * k)
        for d in (b"a\0b", b"\0", b"\n", b"a\nb", b"%s%n", b"\xff\xfe", b".", b"..", b".moc", b"/", b"x.moc\0y", b"a b"):
            add(b"%s %d\n" % (w.encode(), len(d)) + d)
        for z in (b"0", b"00", b"+", b"+0"):      # numbers are decimal, however they are padded
            for d in (b"7654321", b"76543210", b"87654321x", b"A/y.moc", b"0123456789", L, b"n" * 17): add(w.encode() + b" " + z + b"%d\n" % len(d) + d)
    for n in (b"01", b"07", b"08", b"09", b"010", b"+1", b"+08", b"-01", b"00", b"-0"): add(b"VERSION " + n + b"\n")
    # long file names (all unterminated or over-long name handling), plain and encrypted
    for n in (1000, 4000, 4080, 4083, 4084, 4085, 4090, 4095, 4096, 4097, 5000, 8192, 16000):
        for tail in (b"x.moc", b"plain.txt", b"/package.moc", b".moc"):
            p = b"n" * (n - len(tail)) + tail; add(msg("FILE", p))
            p = b"./" * ((n - len(tail)) // 2) + tail; add(msg("FILE", p))
            p = b"A/" * ((n - len(tail)) // 2) + tail; add(msg("FILE", p))
    # over-long command lines and words
    for n in (16, 17, 18, 1021, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 5000, 16383, 16384):
        add(b"A" * n); add(b"A" * (n - 1) + b"\n"); add(b"FILE " + b"9" * (n - 5)); add(b"VERSION " + b"x" * (n - 9) + b"\n"); add(b" " * n); add(b"\n" * n); add(b"\0" * n); add(b"FILE 5\n" + b"\0" * (n - 7)); add(b"VERSION 1" + b" " * (n - 9))
        add(b"FEATURE " + b"0" * (n - 14) + b"4\nabcd")
    # every short message over a byte alphabet
    al = [b"A", b" ", b"\n", b"\0", b"1", b"-", b"%", b"\xff", b"\t", b"Y"]
    for k in range(1, 4 if tier == "quick" else 5):
        for t in itertools.product(al, repeat=k): add(b"".join(t))
    seen = set(); res = []
    for m in out:
        if m not in seen: seen.add(m); res.append(m)
    return res

def run(tier):
    rep = vlib.Report("P02", tier, "model_checking")
    gen = vlib.gen_headers("p02"); exe = vlib.build_explorer("lvex", gen)
    lib, content = common.std_library(gen)
    L = lib.encode()
    good = [msg("VERSION", num=1), msg("TOOLS"), msg("LIB", L), msg("FILE", b"A/y.moc"), msg("FEATURE", b"feat")]
    G = grammar(lib, tier)
    steps = [Step(m) for m in good]; base = len(steps)
    steps += [Step(m) for m in G]
    cls = {i + base: classify(m) for i, m in enumerate(G)}
    for i, m in enumerate(good): cls[i] = classify(m)
    V, T, LB, F, FE = range(5)
    PRE = {"V": (), "T": (V,), "L": (V, T), "R": (V, LB)}
    PROBE = {"V": (V, LB, F), "T": (T, LB, F), "L": (T, LB, F), "R": (F, FE, F)}
    small = len([1 for m in G])    # all
    seqs = set()
    for s in "VTLR":
        for i in range(base, len(steps)):
            # the exhaustive short strings and length tables are independent of the state: full set in V and R, every 4th elsewhere in the quick tier
            if tier == "quick" and s in "TL" and (i % 4): continue
            c = cls[i]
            probe = PROBE[s] if c == "MAL" else (F,)
            if tier == "quick" and len(G[i - base]) < 4: probe = probe[:1]
            seqs.add(PRE[s] + (i,) + probe)
    # pairs and pipelined pairs from a reduced set
    red = [b"FILE 3\nab", b"FILE 3\nabcd", b"FILE 7", b"FEATURE 99999999999999\nx", b"LIB 0\n", b"XYZZY\n", b"\n", b"FILE -1\nx", b"VERSION\n", b"ERROR 1 3\nabc", b"FEATURE 4\nab\0c",
           b"FILE 2000\n" + b"p" * 2000, b"FILE 1100\n" + b"p" * 50, b"A" * 3000, b"TOOLS 5\n", b"VERSION 0\n", b"LIB 5\n/nope"[:9]]
    r0 = len(steps); steps += [Step(m) for m in red]
    for i, m in enumerate(red): cls[r0 + i] = classify(m)
    rs = list(range(r0, len(steps)))
    for s in "VR":
        for a, b in itertools.product(rs, repeat=2):
            ok = cls[a] == "MAL" and cls[b] == "MAL"
            seqs.add(PRE[s] + (a, b) + (PROBE[s] if ok else (F,)))
    if tier == "thorough":
        for s in "VTLR":
            for t in itertools.product(rs, repeat=3): seqs.add(PRE[s] + t + PROBE[s][:1])
    pipe = {}
    pm = red[:12] + [msg("FILE", b"A/y.moc"), msg("FEATURE", b"feat"), msg("FILE", b"plain.txt"), msg("VERSION", num=1), msg("LICENSE", b"L" * 1500)]
    for a, b in itertools.product(pm, repeat=2):
        steps.append(Step(a, op="P", a=b, name="P:%r+%r" % (a[:20], b[:20]))); pipe[len(steps) - 1] = (a, b)
        cls[len(steps) - 1] = None
        seqs.add((V, LB, len(steps) - 1, F))
    # endings: end of input, close-notify, a record cut at every byte
    endings = set()
    for op, m, ks in (("X", b"", [0]), ("C", b"", [0]), ("G", b"", [0]), ("D", msg("FILE", b"A/y.moc"), [0]), ("D", b"XYZZY 1\n", [0]), ("D", msg("FEATURE", b"feat"), [0]), ("T", msg("FILE", b"A/y.moc"), range(0, 60)), ("S", msg("FILE", b"A/y.moc"), range(1, 15))):
        for k in ks:
            steps.append(Step(m, op=op, a=k, name="%s@%d" % (op, k))); i = len(steps) - 1; cls[i] = None
            if op != "S": endings.add(i)
            for s in "VR": seqs.add(PRE[s] + ((i,) if op != "S" else (i, F)))
    res = vlib.explore(exe, steps, seqs)
    usub = {q for q in seqs if q[-1] in endings or (q[:1] == (V,) and tier == "thorough") or len(q) <= 4}
    ures = [(k, vlib.explore(exe, steps, usub, key=k)) for k in (("x", None) if tier == "thorough" else ("x",))]
    # relative library path and names up to the path limit: every length around the limits
    lens = [k for k in range(4040, 4096)] if tier == "quick" else list(range(3900, 4097)) 
    s2 = [Step(good[0]), Step(msg("LIB", b".")), Step(good[3])]; q2 = set()
    for n in lens:
        for tail in (b"A/y.moc", b"x.moc", b"package.moc", b"A/package.moc", b"D/z.moc", b"plain.txt", b"D/package.moc"):
            pad = n - len(tail)
            for p in (b"./" * (pad // 2) + (b"/" if pad % 2 else b"") + tail,):
                s2.append(Step(msg("FILE", p), name="FILE %d bytes ...%s" % (n, tail.decode()))); q2.add((0, 1, len(s2) - 1, 2))
    res2 = vlib.explore(exe, s2, q2, extra=["chdir " + lib])
    # replies of every size around powers of two and record boundaries, followed by another request
    wl = vlib.sdir("winlib"); W = common.windows(tier); big = bytes((i * 131 + (i >> 8) * 17 + 7) & 255 for i in range(max(W) + 1))
    vlib.write_tree(wl, {"r%d.txt" % n: big[:n] for n in W})
    s3 = [Step(good[0]), Step(msg("LIB", wl.encode())), Step(msg("FILE", b"none.txt"))]; q3 = set(); w3 = {}
    for n in W: s3.append(Step(msg("FILE", b"r%d.txt" % n), name="FILE of %d bytes" % n)); w3[len(s3) - 1] = n
    idx = sorted(w3)
    for k in range(0, len(idx), 24): q3.add((0, 1) + tuple(idx[k:k + 24]) + (2,))
    res3 = vlib.explore(exe, s3, q3)
    # ---- oracle
    model = common.Model(content)
    def expected_state(path):
        """model state after path, or None once an unclear message has been sent"""
        st = "V"
        for i in path:
            c = cls[i]
            if c is None: return None
            if c == "MAL": continue
            exp, st = model.step(st, c[1], c[2], c[3])
            if c[1] == "LIB" and c[3] != L and exp[0] == "REP": return None
        return st
    checked = 0; kinds = set()
    trusted_model = model
    for which, (R, ST, C) in [("grammar", (res, steps, cls)), ("long", (res2, s2, None)), ("window", (res3, s3, None))] + [("untrusted tool (%s)" % (k or "no certificate"), (r, steps, cls)) for k, r in ures]:
        model = common.Model(content, False) if which.startswith("untrusted") else trusted_model
        for path in sorted(R.nodes, key=lambda p: (len(p), p)):
            if rep.full(): break
            if not path: continue
            n = R.nodes[path]; i = path[-1]; step = ST[i]
            if n.status == "unreached": continue
            where = ("" if model.trusted else which + ": ") + "session %s" % common.describe(ST, path)
            if n.status == "died":
                rep.violation("%s: the executable crashed, touched foreign memory or hung; %s" % (where, (R.asan or [""])[0][:1500]), common.replay_data(ST, path)); continue
            checked += 1
            if step.op in "XCTGD":
                tail, ev = n.end if n.end else (None, [])
                if n.end is None: rep.violation("%s: the executable did not end after the end of its input" % where, common.replay_data(ST, path))
                elif tail: rep.violation("%s: reply %r to an incomplete message" % (where, tail[:80]), common.replay_data(ST, path))
                continue
            try: rs_ = vlib.parse_replies(n.reply)
            except ValueError as e: rep.violation("%s: malformed reply: %s" % (where, e), common.replay_data(ST, path)); continue
            if step.op == "P": want = 2
            else: want = 1
            if step.op == "S":
                if not 1 <= len(rs_) <= 2: rep.violation("%s: %d replies to a split message" % (where, len(rs_)), common.replay_data(ST, path))
                continue
            if len(rs_) != want: rep.violation("%s: %d replies to %d message(s): %r" % (where, len(rs_), want, n.reply[:100]), common.replay_data(ST, path)); continue
            if C is None:
                if which == "window" and i in w3:
                    why = common.match(("REP", "FILECONT", None, big[:w3[i]]), rs_[0])
                    if why: rep.violation("%s: %s" % (where, why), common.replay_data(ST, path))
                rep.outcome("%s:%s" % (which, rs_[0][0])); continue
            if step.op == "P": 
                for j, m in enumerate(pipe[i]):
                    c = classify(m)
                    exp = ("ERRANY",) if c == "MAL" else None
                    if c and c != "MAL" and not (c[1] == "FILE" and c[3] is None): exp, _ = model.step("R", c[1], c[2], c[3])
                    why = exp and common.match(exp, rs_[j])
                    if why: rep.violation("%s: reply %d: %s" % (where, j + 1, why), common.replay_data(ST, path))
                rep.outcome("pipelined"); continue
            c = C[i]; st = expected_state(path[:-1])
            kinds.add((st, "MAL" if c == "MAL" else "unclear" if c is None else c[1], rs_[0][0], rs_[0][1]))
            rep.outcome("%s/%s -> %s" % (st, "malformed" if c == "MAL" else "unclear" if c is None else c[1], rs_[0][0]))
            if c == "MAL": exp = ("ERRANY",)
            elif c is None or st is None: exp = ("ANY",)
            else: exp, _ = model.step(st, c[1], c[2], c[3])
            if exp == ("ERRANY",) and c != "MAL" and c[1] == "FILE":
                # alternative spellings of a name: an error or the content of the file they mean
                d = c[3].split(b"\0")[0].decode("latin1"); norm = "/".join(x for x in d.split("/") if x not in ("", "."))
                if model.trusted and (d != norm or b"\0" in c[3]): exp = ("ERRANY",) if rs_[0][0] == "ERROR" or norm not in content else ("REP", "FILECONT", None, content[norm])
            why = common.match(exp, rs_[0])
            if why: rep.violation("%s: %s" % (where, why), common.replay_data(ST, path))
            if checked % 2003 == 1: rep.sample({"session": common.describe(ST, path), "reply": repr(n.reply[:60])})
    rep.assumptions = ["one TLS record carries one message, as the tool library sends them; a message split over records is only required to be survived"]
    return rep.finish(states=4, transitions=len(kinds), traces_validated_against_impl=checked, exhaustive=True, messages=len(G), sessions=len(seqs) + len(q2) + len(q3))

"""P03: peer credentials x lists of trusted keys x command sequences; content only for holders of a listed key."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Step, msg
from checks import common

LISTS = [("a",), ("a", "b"), ("b", "c", "a")]
LISTS_T = LISTS + [("c",), ("b", "a"), ("a", "c"), ("a", "b", "c"), ("c", "near", "b"), ("near",), ("x", "a", "b", "c")]
CREDS = ["a", "b", "c", "x", "near", "ec", None, "forge:a", "forge:b"]

def leaks(raw, content):
    """Name of a library file of which 16 consecutive bytes (or all of a shorter one) appear in raw."""
    for n, d in content.items():
        if not d: continue
        if len(d) <= 16:
            if d in raw: return n
        elif len(raw) < len(d):
            if any(raw[i:i + 16] in d for i in range(0, len(raw) - 15)): return n
        elif any(d[i:i + 16] in raw for i in range(0, len(d) - 15)): return n
    return None

def run(tier):
    rep = vlib.Report("P03", tier, "model_checking")
    lists = LISTS if tier == "quick" else LISTS_T
    gens = [vlib.gen_headers("p03_%d" % i, trusted=l) for i, l in enumerate(lists)]
    exes = [vlib.build_explorer("lvex%d" % i, g) for i, g in enumerate(gens)]
    lib, content = common.std_library(gens[0])
    L = lib.encode()
    A = []
    def add(word, data=None, num=None, la=1, ln=1, raw=None):
        m = raw or msg(word, data, num); A.append((Step(m, la=la, ln=ln, name=m[:40].decode("latin1").replace("\n", "|")), word, data))
    add("VERSION", num=1); add("LIB", L); add("TOOLS"); add("LIB", b"/nonexistent-dir")
    for f in ("x.moc", "package.moc", "A/y.moc", "plain.txt", "A/img.png", "nosuch.moc"): add("FILE", f.encode())
    add("FEATURE", b"feat"); add("FEATURE", b"feat", la=0); add("FEATURE", b"feat", ln=0); add("RETURNFEATURE", b"feat"); add("LICENSE", b"Lib"); add("RETURNLICENSE", b"Lib")
    add("BAD", raw=b"XYZZY 1\n"); add("BAD", raw=b"FILE 5\nx"); add("FILE", b"A/../x.moc"); add("FILE", b"X.MOC"); add("FILE", L + b"/x.moc")
    steps = [a[0] for a in A]; n = len(A); V, LB, TL, LN = 0, 1, 2, 3
    F0 = 4
    def seqs(deep):
        out = set()
        pre = [(V, LB), (V, TL, LB), (V, LN)] if deep else [(V, LB)]
        d = (3 if tier == "thorough" else 2) if deep else 1
        for p in pre:
            for s in itertools.product(range(n), repeat=d): out.add(p + s + ((F0, F0 + 3) if d < 3 else (F0,)))
        for s in itertools.product(range(n), repeat=2): out.add(s)
        if deep:    # a long session
            out.add((V, LB) + tuple(range(2, n)) * 3)
        return out
    model = common.Model(content)
    jobs = []; checked = 0; kinds = set()
    for li, trusted in enumerate(lists):
        creds = [(c, None, mp) for c in CREDS for mp in ((None,) if tier == "quick" and li else (None, 0x0303))]
        creds += [("x", trusted[0], None), ("x", trusted[-1], None)]
        for cred, chain, mp in creds:
            ok = cred in trusted
            # sessions are explored deeply for the untrusted credentials of the first list, shallowly elsewhere
            deep = (li == 0 or tier == "thorough") and mp is None and (cred in ("x", None, "near") or chain or tier == "thorough")
            jobs.append((li, trusted, cred, chain, mp, ok, deep))
    def do(j):
        li, trusted, cred, chain, mp, ok, deep = j
        S = seqs(deep and not ok)
        return vlib.explore(exes[li], steps, S, key=cred, chain=chain, maxproto=mp, jobs=1 if not deep else 4)
    with ThreadPoolExecutor(6) as ex: results = list(ex.map(do, jobs))
    served = 0; refused = 0; hsfail = 0
    for j, res in zip(jobs, results):
        li, trusted, cred, chain, mp, ok, deep = j
        who = "trusted list %s, peer %s%s%s" % (list(trusted), cred or "without certificate", ", extra chain certificate of %s" % chain if chain else "", ", TLS 1.2" if mp else "")
        rd = lambda p: common.replay_data(steps, p, trusted=trusted, peer=cred, chain=chain, tls=mp)
        root = res.nodes[()]
        if ok and root.status != "ok": rep.violation("%s: no session; %s" % (who, res.asan[:1]), rd(()))
        for path in sorted(res.nodes, key=lambda p: (len(p), p)):
            if rep.full(): break
            nd = res.nodes[path]
            if nd.status == "died" :
                rep.violation("%s, session %s: the executable crashed or hung; %s" % (who, common.describe(steps, path), (res.asan or [""])[0][:800]), rd(path)); continue
            if nd.status == "unreached": continue
            checked += 1
            raw = (nd.reply or b"") + (nd.end[0] if nd.end else b"")
            if not ok:
                lk = leaks(raw, content)
                if lk: rep.violation("%s, session %s: received bytes of %s" % (who, common.describe(steps, path), lk), rd(path)); continue
            if path and not nd.reply and nd.reply is not None and path[0] == V and res.nodes[(V,)].reply:
                rep.violation("%s, session %s: the request is not answered" % (who, common.describe(steps, path)), rd(path)); continue
            if not path or nd.reply is None:
                if not nd.reply and nd.end: hsfail += 1
                continue
            st, word, data = A[path[-1]]
            if word == "FILE" and not ok and nd.reply:
                r, why = common.one_reply(nd.reply)
                refused += 1
                if why or r[0] != "ERROR": rep.violation("%s, session %s: %s" % (who, common.describe(steps, path), why or "file request answered %s" % (r,)), rd(path))
            if word == "FILE" and ok and path[:2] == (V, LB) and data.decode("latin1") in content:
                r, why = common.one_reply(nd.reply)
                served += 1
                why = why or common.match(("REP", "FILECONT", None, content[data.decode()]), r)
                if why: rep.violation("%s, session %s: a trusted tool is not served: %s" % (who, common.describe(steps, path), why), rd(path))
            kinds.add((li, cred, chain, mp, word, nd.reply[:6]))
        rep.outcome("%s -> %s" % (who, "served" if ok else "refused"))
        rep.sample({"peer": who, "sessions": len(res.nodes), "trusted": ok})
    if not served or not refused: rep.violation("vacuous exploration: served=%d refused=%d" % (served, refused))
    rep.assumptions = ["the TLS library verifies the proof of possession of the certificate's key (exercised with a forged key)"]
    return rep.finish(states=len(jobs), transitions=len(kinds), traces_validated_against_impl=checked, exhaustive=True, served=served, refused=refused, credential_sets=len(jobs))

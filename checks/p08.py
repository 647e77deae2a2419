"""P08: the build with a library-wide licence feature: request histories x licence answers x peer credentials."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Step, msg
from checks import common
from checks.p03 import leaks
from checks.p07 import refusal

def run(tier):
    rep = vlib.Report("P08", tier, "model_checking")
    gen = vlib.gen_headers("p08", trusted=("a", "b")); feats = ["glob_feat"] + (["Lib.core-1"] if tier == "thorough" else [])
    lib, content = common.std_library(gen)
    checked = served = locked = 0; states = set(); nseq = 0
    for fi, feat in enumerate(feats):
        exe = vlib.build_explorer("lvexg%d" % fi, gen, flags=["-DMLLE_GLOBAL_LICENSE_FEATURE=" + feat])
        A = []
        def add(word, data=None, num=None, ln=1, la=1, raw=None):
            m = raw or msg(word, data, num); A.append((Step(m, ln=ln, la=la, name="%s %r" % (word, (data or b"")[-20:])), word, data)); return len(A) - 1
        V = add("VERSION", num=1); TL = add("TOOLS")
        answers = [(1, 1), (1, 0), (0, 1), (0, 0), (1, 2), (1, 3), (1, 4), (1, 5), (3, 1), (5, 1), (2, 1), (1, 6)]
        LBS = [add("LIB", lib.encode(), ln=ln, la=la) for ln, la in answers]
        LNX = [add("LIB", b"/nonexistent-dir", ln=ln, la=la) for ln, la in answers[:4]]
        core = [add("FILE", f.encode()) for f in ("x.moc", "package.moc", "plain.txt", "A/y.moc")]
        core += [add("FEATURE", feat.encode(), ln=ln, la=la) for ln, la in ((1, 1), (1, 0), (0, 1))] + [add("FEATURE", b"other"), add("RETURNFEATURE", feat.encode()), add("RETURNFEATURE", feat.encode(), la=0)]
        core += [LBS[0], LBS[1], V, add("LICENSE", b"Lib"), add("BAD", raw=b"XYZZY\n"), add("LIB", b"")]
        F, P = core[0], core[2]
        steps = [a[0] for a in A]
        seqs = set()
        d = 2 if tier == "quick" else 3
        for lb in LBS + LNX:
            for pre in ((V,), (V, TL)) if lb in LBS[:3] else ((V,),):
                k = d if lb in LBS[:4] or tier == "thorough" else 1
                for s in itertools.product(core, repeat=k): seqs.add(pre + (lb,) + s + (F, P))
        for s in itertools.product(core, repeat=2): seqs.add((V,) + s + (LBS[1], F)); seqs.add((V,) + s + (LBS[0], F))
        for lb in LBS[:4]: seqs.add((V, lb) + tuple(core) * 3)
        nseq += len(seqs)
        creds = [("a", None), ("b", None), ("x", None), (None, None), ("x", "a"), ("near", None)]
        def do(c): return vlib.explore(exe, steps, seqs if c[0] in ("a", "x") else {s for s in seqs if len(s) <= (5 if tier == "thorough" else 4) or s[2:] == (F, P)}, key=c[0], chain=c[1], jobs=4)
        with ThreadPoolExecutor(3) as ex: results = list(ex.map(do, creds))
        for (cred, chain), res in zip(creds, results):
            trusted = cred in ("a", "b")
            memo = {(): (None, False, False)}      # (session has its library path, locked, manager live)
            def nxt(state, i):
                has, lock, live = state; s, w, d_ = A[i]
                if w == "LIB" and not has and d_:
                    if trusted:
                        if s.ln != 1: return (True, True, False)
                        return (d_, s.la != 1, True)
                    return (d_, True, False)
                if w in ("FEATURE", "RETURNFEATURE") and has and s.ln == 1: return (has, lock, True)
                return state
            def st_of(p):
                if p not in memo:
                    prev = st_of(p[:-1]); started = V in p[:-1]
                    memo[p] = nxt(prev, p[-1]) if started else prev
                return memo[p]
            for p in sorted(res.nodes, key=lambda p: (len(p), p)):
                if rep.full(): break
                n = res.nodes[p]
                if not p or n.status == "unreached": continue
                where = "feature %s, peer %s, session %s" % (feat, cred, common.describe(steps, p)); rd = lambda: common.replay_data(steps, p, peer=cred, feature=feat)
                if n.status == "died": rep.violation("%s: the executable crashed or hung; %s" % (where, (res.asan or [""])[0][:900]), rd()); continue
                s, w, d_ = A[p[-1]]; has, lock, live = st_of(p[:-1]); started = V in p[:-1]
                r, why = common.one_reply(n.reply); ev = [e.strip() for e in n.events]; checked += 1
                if not why and w == "LIB" and started and not has and d_:
                    if trusted:
                        want = ["new %d %s" % (s.ln, d_.decode())] + (["co %d %d %s" % (s.la, len(feat), feat.encode().hex())] if s.ln == 1 else [])
                        if s.ln == 1 and s.la == 1: why = common.match(("REP", "YES", None, None), r)
                        else: why = common.match(("REP", "ERROR", 7, refusal(s.ln, b"setup") if s.ln != 1 else refusal(s.la, b"co")), r)
                        if not why and ev != want: why = "calls of the licence manager %s, expected %s" % (ev, want)
                    elif ev: why = "a tool without a trusted key caused the licence calls %s" % ev
                elif not why and w in ("FILE", "LIB", "VERSION", "LICENSE", "BAD", "TOOLS") and ev: why = "unexpected licence calls %s" % ev
                if not why and w == "FILE":
                    f = d_.decode()
                    if has is None or lock:
                        locked += 1
                        if r[0] != "ERROR": why = "a file of a locked library is served: %s %r" % (r[0], (r[2] or b"")[:50])
                    elif has == lib.encode():
                        served += 1; why = common.match(("REP", "FILECONT", None, content[f]), r)
                if not why and (has is None or lock or not trusted):
                    lk = leaks(n.reply, content)
                    if lk: why = "bytes of %s in the reply" % lk
                states.add((trusted, has is not None, lock, live, p[-1]))
                if why: rep.violation("%s: %s" % (where, why[:500]), rd())
                if n.end is not None:
                    fr = [e for e in n.end[1] if e == "free"]
                    if len(fr) != int(st_of(p)[2]): rep.violation("%s: manager released %d times at the end" % (where, len(fr)), rd())
                if checked % 3001 == 1: rep.sample({"peer": str(cred), "session": common.describe(steps, p), "reply": repr(n.reply[:40]), "calls": ev})
    rep.outcomes = {"served": served, "refused (locked)": locked}
    if not served or not locked: rep.violation("vacuous: served=%d locked=%d" % (served, locked))
    rep.assumptions = ["scripted licence manager"]
    return rep.finish(states=len(states), transitions=len(A), traces_validated_against_impl=checked, exhaustive=True, sessions=nseq)

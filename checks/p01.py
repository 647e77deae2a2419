"""P01: every sequence of well-formed commands, of every command word, against the protocol state machine."""
import itertools, os
import vlib
from vlib import Step, msg
from checks import common

def alphabet(lib, content):
    L = lib.encode()
    A = []   # (Step, word, num, data)
    def add(word, data=None, num=None, la=1):
        m = msg(word, data, num); A.append((Step(m, la=la, name=m[:40].decode("latin1").replace("\n", "|")), word, num, data))
    add("VERSION", num=1); add("LIB", L); add("TOOLS"); add("FILE", b"A/y.moc"); add("FEATURE", b"feat"); add("FILE", b"plain.txt")
    add("VERSION", num=0); add("VERSION", num=7); add("LICENSE", b"Lib.A"); add("RETURNFEATURE", b"feat"); add("RETURNLICENSE", b"Lib")
    add("FEATURE", b"other", la=0); add("RETURNFEATURE", b"other", la=0); add("FILE", b"nosuch.moc")
    add("YES"); add("NOTSIMPLE"); add("NO", b"no"); add("FILECONT", b"data"); add("TOOLLIST", b""); add("ERROR", b"oops", num=1)
    add("VERSION", num=-3); add("LIB", L + b"/A")
    for m in (b"LIB 0\n", b"LIB %d\n" % len(L) + L[:-1], b"VERSION one\n"): A.append((Step(m, name=m[:40].decode("latin1").replace("\n", "|")), "REJECTED", None, None))     # not a complete command: no effect
    return A

def sequences(n, tier):
    """All sequences up to a depth over the whole alphabet, from the start and from every state of the model."""
    d0, d1 = (3, 2) if tier == "quick" else (4, 3)
    pre = [(), (0,), (0, 2), (0, 1), (0, 2, 1)]       # reach each state: V, T, L, R (two ways)
    out = set()
    for p in pre:
        d = d0 if not p else d1
        if tier == "quick" and p == (0, 1): d = 3
        for s in itertools.product(range(n), repeat=d): out.add(p + s)
    # long sessions: every ordered pair of commands repeated, after every prefix that reaches a working session
    k = 12 if tier == "quick" else 40
    for p in ((0, 1), (0, 2, 1)) if tier != "quick" else ((0, 1),):
        for a in range(n):
            for b in range(n): out.add(p + (a, b) * k)
    return out

def run(tier):
    rep = vlib.Report("P01", tier, "model_checking")
    gen = vlib.gen_headers("p01"); exe = vlib.build_explorer("lvex", gen)
    lib, content = common.std_library(gen)
    content2 = {k[2:]: v for k, v in content.items() if k.startswith("A/")}
    A = alphabet(lib, content); steps = [a[0] for a in A]
    seqs = sequences(len(A), tier)
    # tools the library does not trust speak the same protocol, only their file requests fail
    useqs = {p + q for p in ((), (0,), (0, 2), (0, 1), (0, 2, 1), (0, 21)) for q in itertools.product(range(len(A)), repeat=3 if tier == "thorough" and p else 2)}
    runs = [("a", True, vlib.explore(exe, steps, seqs))] + [(k, False, vlib.explore(exe, steps, useqs, key=k)) for k in ("x", None)]
    # states of the reference model reached by the path, then compare each reply
    states = set(); checked = 0; trans = set()
    for who, trusted, res in runs:
        checked = one(rep, A, steps, lib, content, content2, who, trusted, res, states, trans, checked)
    rep.assumptions = ["commands are delivered one TLS record each, as the tool library sends them", "licence manager answers are scripted"]
    return rep.finish(states=len(states), transitions=len(trans), traces_validated_against_impl=checked, exhaustive=True,
                      sessions=len(seqs) + 2 * len(useqs), alphabet=len(A), rule="all command sequences: depth %s from the start, and from every protocol state" % (3 if tier == "quick" else 4))

def one(rep, A, steps, lib, content, content2, who, trusted, res, states, trans, checked):
    memo = {(): ("V", None)}; peer = "" if trusted else "untrusted tool (%s): " % (who or "no certificate")
    def st_of(path):
        if path in memo: return memo[path]
        st, root = st_of(path[:-1])
        step, word, num, data = A[path[-1]]
        m = common.Model(content2 if root == lib + "/A" else content, trusted)
        exp, st2 = m.step(st, word, num, data, step.ln, step.la) if word != "REJECTED" else (("ERRANY",), st)
        if word == "LIB" and exp[0] == "REP": root = data.decode()
        memo[path] = (st2, root)
        return memo[path]
    for path in sorted(res.nodes, key=lambda p: (len(p), p)):
        if rep.full(): break
        n = res.nodes[path]
        if not path:
            if n.status != "ok" or n.reply: rep.violation("after the handshake: %s, unsolicited %r; %s" % (n.status, n.reply, res.asan[:1]))
            states.add("V"); continue
        st, root = st_of(path[:-1]); step, word, num, data = A[path[-1]]
        if n.status == "unreached": continue     # below a failure reported at its ancestor
        if n.status == "died":
            rep.violation(peer + "session %s: the executable crashed or hung on the last message; %s" % (common.describe(steps, path), (res.asan or [""])[0][:400]), common.replay_data(steps, path, peer=who)); continue
        m = common.Model(content2 if root == lib + "/A" else content, trusted)
        exp, st2 = m.step(st, word, num, data, step.ln, step.la) if word != "REJECTED" else (("ERRANY",), st)
        r, why = common.one_reply(n.reply)
        why = why or common.match(exp, r)
        checked += 1; states.add((st2, root)); trans.add((st, root, path[-1]))
        rep.outcome("%s/%s -> %s%s" % (st, word, r[0] if r else None, "" if not r or r[1] is None else " %s" % r[1]))
        if why: rep.violation(peer + "session %s: %s" % (common.describe(steps, path), why), common.replay_data(steps, path, peer=who))
        if checked % 3001 == 1: rep.sample({"session": common.describe(steps, path), "reply": repr(n.reply[:60])})
        if n.end is not None:
            if n.end[0]: rep.violation(peer + "session %s: bytes %r sent after the session ended" % (common.describe(steps, path), n.end[0][:60]), common.replay_data(steps, path, peer=who))
    return checked

"""P05: every single-byte change, truncation, extension, block move, splice and replacement of every encrypted file."""
import itertools, os
import vlib
from vlib import Step, msg
from checks import common
from checks.p03 import leaks

def make(gen, enc, name, big=False):
    plain = vlib.sdir(name + "_plain"); lib = vlib.sdir(name)
    mo = {"package.mo": b"package Lib \"top secret root\" end Lib;\n", "x.mo": b"model X \"secret x\" Real xx = 1; end X;\n", "A/package.mo": b"within Lib; package A \"sub\" end A;\n",
          "A/y.mo": b"within Lib.A; model Y \"secret y\" Real yy = 2; end Y;\n", "D/z.mo": b"model Z \"secret z\" Real zz = 3; end Z;\n"}
    mo["e.mo"] = b""; mo["t.mo"] = b"model T end T; // 31 bytes long"
    assert len(mo["t.mo"]) == 31
    if big: mo["huge.mo"] = bytes((i * 11 + (i >> 8) * 3) & 255 for i in range(70000))
    if big: mo["big.mo"] = bytes((i * 7 + (i >> 7)) & 255 for i in range(1500))
    vlib.write_tree(plain, mo)
    r = vlib.encrypt_tree(enc, plain, lib, sorted(mo, key=lambda m: (os.path.basename(m) != "package.mo", m.count("/"), m)))
    if r.returncode: raise vlib.BuildError("encryption failed: %s" % r.stderr.decode(errors="replace")[-2000:])
    return {k + "c": v for k, v in mo.items()}, {k + "c": open(os.path.join(lib, k + "c"), "rb").read() for k in mo}

DEPS = {"package.moc": {"package.moc", "x.moc", "A/package.moc", "A/y.moc", "D/z.moc", "big.moc", "huge.moc", "e.moc", "t.moc"}, "A/package.moc": {"A/package.moc", "A/y.moc"},
        "x.moc": {"x.moc"}, "A/y.moc": {"A/y.moc"}, "D/z.moc": {"D/z.moc"}, "big.moc": {"big.moc"}, "huge.moc": {"huge.moc"}, "e.moc": {"e.moc"}, "t.moc": {"t.moc"}}

DOMAIN = {"package.moc": "base", "x.moc": "root", "A/package.moc": "root", "D/z.moc": "root", "big.moc": "root", "huge.moc": "root", "e.moc": "root", "t.moc": "root", "A/y.moc": "A"}

def mutations(name, data, allc, other, tier):
    """(description, new bytes or None for deletion)"""
    n = len(data); big = name == "big.moc"
    if name == "huge.moc":
        for i in (0, 15, 16, 31, 32, 255, 256, 4096, 16384, 32767, 32768, n // 2, 65535, 65536, n - 65, n - 49, n - 48, n - 33, n - 32, n - 31, n - 16, n - 2, n - 1):
            for v in (1, 0x80, 0xff): yield "byte %d xor %#x" % (i, v), data[:i] + bytes([data[i] ^ v]) + data[i + 1:]
        for k in (0, 47, 48, 64, 4096, 16384, 65536, n // 2, n - 33, n - 32, n - 16, n - 1): yield "truncated to %d bytes" % k, data[:k]
        for k in (65536, n - 48, n - 64, 16, 32): yield "cut at %d, HMAC kept" % k, data[:k] + data[-32:]
        yield "blocks swapped", data[:160] + data[176:192] + data[160:176] + data[192:]
        yield "extended", data + b"\0" * 16
        yield "HMAC zeroed", data[:-32] + b"\0" * 32
        return
    for i in range(n):
        if big and tier == "quick" and i % 16 not in (0, 15) and 16 <= i < n - 48: continue
        vals = [1, 0x80] if tier == "quick" else ([1, 2, 4, 8, 16, 32, 64, 128, 255] if big else range(1, 256) if name in ("A/y.moc", "A/package.moc") else [1, 2, 4, 8, 16, 32, 64, 128, 255, 0x10])
        if tier == "quick" and (i % 3 or big): vals = [1]
        for v in vals: yield "byte %d xor %#x" % (i, v), data[:i] + bytes([data[i] ^ v]) + data[i + 1:]
    for k in range(n):
        if big and tier == "quick" and k % 16 not in (0, 1) and k > 100: continue
        yield "truncated to %d bytes" % k, data[:k]
    for k in (1, 15, 16, 17, 32, 48, 64): yield "first %d bytes removed" % k, data[k:]
    for e in (b"\0", b"\0" * 16, b"x", b"\x10" * 16, data[-32:], data[-48:], data, b"\0" * 32, b"\n"): yield "extended by %d bytes" % len(e), data + e
    yield "prefixed", b"\0" * 16 + data
    blocks = [data[i:i + 16] for i in range(0, n, 16)]
    for i, j in itertools.combinations(range(min(len(blocks), 8 if tier == "quick" else 14)), 2):
        b = list(blocks); b[i], b[j] = b[j], b[i]
        if b"".join(b) != data: yield "blocks %d and %d swapped" % (i, j), b"".join(b)
    for i in range(min(len(blocks), 14)): yield "block %d removed" % i, b"".join(blocks[:i] + blocks[i + 1:])
    for i in range(min(len(blocks), 14)): yield "block %d repeated" % i, b"".join(blocks[:i + 1] + blocks[i:])
    if n > 80: yield "last cipher block removed, HMAC kept", data[:-48] + data[-32:]
    for m, d in sorted(allc.items()):
        if m != name:
            if DOMAIN[m] != DOMAIN[name] or (name == "A/package.moc" and m in ("e.moc", "t.moc")): yield "replaced by %s" % m, d    # files under one key carry no name and are interchangeable by format; one too short for a mask is no package file
            yield "HMAC of %s" % m, data[:-32] + d[-32:]
            yield "IV of %s" % m, d[:16] + data[16:]
            yield "body of %s" % m, data[:16] + d[16:-32] + data[-32:]
    yield "HMAC zeroed", data[:-32] + b"\0" * 32
    yield "all zero", b"\0" * n
    yield "all 0xff", b"\xff" * n
    for k in (0, 1, 16, 31, 32, 47, 48, 49, 63, 64, 65, 80, 96, 4096): yield "%d arbitrary bytes" % k, bytes((i * 37 + 11) & 255 for i in range(k))
    yield "replaced by cleartext", b"model X Real x; end X;\n" * 4
    yield "deleted", None
    # a file of the same name of another library encrypted with the same base key; for the root package that is a
    # consistent file of its own (it has no parent), so only what depends on it must fail
    yield "replaced by %s of another library" % name, other[name]

def run(tier):
    rep = vlib.Report("P05", tier, "fault_enumeration")
    gen = vlib.gen_headers("p05"); exe = vlib.build_explorer("lvex", gen); enc = vlib.build_encoder(gen)
    content, cipher = make(gen, enc, "base", big=True); _, other = make(gen, enc, "other", big=True)
    names = sorted(cipher)
    root = vlib.sdir("mut"); nmut = 0; cases = []
    for nm in names:
        for what, data in mutations(nm, cipher[nm], cipher, other, tier):
            d = os.path.join(root, str(nmut)); nmut += 1
            for s in ("A", "D"): os.makedirs(os.path.join(d, s))
            for m in names:
                if m == nm and data is None: continue
                if m == "huge.moc" and nm != m: continue
                with open(os.path.join(d, m), "wb") as f: f.write(data if m == nm else cipher[m])
            cases.append((nm, what, d))
    # two damaged files at once: the package file of one directory exchanged with another's, both exchanged
    def case2(what, changes, deps):
        nonlocal nmut
        d = os.path.join(root, str(nmut)); nmut += 1
        for s in ("A", "D"): os.makedirs(os.path.join(d, s))
        for m in names:
            if m == "huge.moc": continue
            with open(os.path.join(d, m), "wb") as f: f.write(changes.get(m, cipher[m]))
        cases.append((deps, what, d))
    case2("A/package.moc and package.moc exchanged", {"package.moc": cipher["A/package.moc"], "A/package.moc": cipher["package.moc"]}, set(names))
    case2("x.moc and A/y.moc exchanged", {"x.moc": cipher["A/y.moc"], "A/y.moc": cipher["x.moc"]}, {"x.moc", "A/y.moc"})
    case2("D/z.moc and A/y.moc exchanged", {"D/z.moc": cipher["A/y.moc"], "A/y.moc": cipher["D/z.moc"]}, {"D/z.moc", "A/y.moc"})
    steps = [Step(msg("VERSION", num=1))] + [Step(msg("FILE", m.encode()), name="FILE " + m) for m in names]
    idx = {m: i + 1 for i, m in enumerate(names)}
    seqs = set(); lbs = []
    for ci, (nm, what, d) in enumerate(cases):
        steps.append(Step(msg("LIB", d.encode()), name="LIB[%s: %s]" % (nm, what))); lb = len(steps) - 1; lbs.append(lb)
        bad = DEPS[nm] if isinstance(nm, str) else nm
        t = sorted(bad)[0] if not isinstance(nm, str) else nm
        rest = [idx[m] for m in names if m not in (t, "huge.moc")]
        simple = what.startswith("byte")
        if t in ("big.moc", "huge.moc") or (simple and tier == "quick" and ci % 4):
            ok = [idx[m] for m in names if m not in bad and m != "huge.moc"][:1]
            dep = [idx[m] for m in names if m in bad and m not in (t, "huge.moc")][:1]
            seqs.add((0, lb, idx[t]) + tuple(dep) + tuple(ok) + (idx[t],)); continue
        seqs.add((0, lb, idx[t]) + tuple(rest) + (idx[t],))
        seqs.add((0, lb) + tuple(rest) + (idx[t], rest[-1], idx[t]))
        if tier == "thorough": seqs.add((0, lb) + tuple(rest[::-1]) + (idx[t], idx[t]))
    res = vlib.explore(exe, steps, seqs)
    refused = served = 0
    case_of = dict(zip(lbs, cases))
    for p in sorted(res.nodes, key=lambda p: (len(p), p)):
        if rep.full(): break
        n = res.nodes[p]
        if n.status == "unreached" or len(p) < 2: continue
        nm, what, d = case_of[p[1]]
        where = "%s %s, requests %s" % (nm, what, [steps[q].name for q in p[2:]])
        rd = lambda: common.replay_data(steps, p, damaged=str(nm), how=what)
        if n.status == "died": rep.violation("%s: the executable crashed or hung; %s" % (where, (res.asan or [""])[0][:900]), rd()); continue
        if len(p) < 3: continue
        m = names[p[-1] - 1]
        bad = set(DEPS[nm] if isinstance(nm, str) else nm)
        r, why = common.one_reply(n.reply)
        if isinstance(nm, str) and nm == "package.moc" and "of another library" in what and m == nm:
            continue    # a consistent root package of its own
        if m in bad:
            refused += 1
            if not why and r[0] != "ERROR": why = "damaged content is answered with %s %r" % (r[0], (r[2] or b"")[:60])
            if not why and leaks(n.reply, {k: v for k, v in content.items() if k in bad}): why = "the error reply carries content"
        else:
            served += 1
            why = why or common.match(("REP", "FILECONT", None, content[m]), r)
            if why: why = "an undamaged file is affected: " + why
        if why: rep.violation("%s: %s" % (where, why), rd())
        if (refused + served) % 4001 == 1: rep.sample({"damage": "%s: %s" % (nm, what), "requests": [steps[q].name for q in p[2:]], "reply": repr(n.reply[:40])})
    rep.outcomes = {"refused": refused, "served intact": served}
    rep.assumptions = ["HMAC-SHA256 and AES as provided by OpenSSL", "the damage is present when the session starts", "the format binds a file to its directory key, not to its name: files under one key are interchangeable and not counted as damage"]
    return rep.finish(evaluations=refused + served, distinct_nontrivial=len(cases), exhaustive=True, rule="every byte position, every truncation, block moves, splices and replacements of each of %d encrypted files" % len(names), damaged_libraries=len(cases), sessions=len(seqs))

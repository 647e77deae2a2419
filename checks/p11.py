"""P11: all splits of small file replies, file sizes around every limit, read-buffer sequences; scripted peer and the real executable."""
import itertools, os
import vlib
from checks import toollib as T

def fc(m): return b"FILECONT %d\n" % len(m) + m
def spl(r, m):
    recs = [b""]
    for i in range(len(r)):
        recs[-1] += r[i:i + 1]
        if i < len(r) - 1 and m >> i & 1: recs.append(b"")
    return recs

def sizes_for(tier):
    s = set(range(0, 300)) | {500, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001}
    s |= set(range(16384 - 40, 16384 + 20)) | set(range(32768 - 40, 32768 + 6)) | {49152 - 16, 49152, 65535, 65536, 65537, 99999, 100000, 131072, 1 << 20, (1 << 20) + 1}
    if tier == "thorough": s |= set(range(300, 2200)) | set(range(16384 - 200, 16384 + 200)) | set(range(32768 - 200, 32768 + 60)) | {3 << 20, 10_000_000}
    return sorted(s)

def run(tier):
    rep = vlib.Report("P11", tier, "model_checking")
    gen = vlib.gen_headers("p11"); tool, fake = T.build(gen)
    W = lambda b: "W " + b.hex()
    cases = []; pat = {}
    def pattern(n):
        if n not in pat: pat[n] = T.sha(T.pattern(n))
        return pat[n]
    def flush(name, items, cap=0, group=200):
        """items: [(reads, peer lines, size, sha)]"""
        for i in range(0, len(items), group):
            g = items[i:i + group]
            c = T.Case("%s #%d" % (name, i), ["file %s %s" % (b"f.mo".hex(), x[0]) for x in g] + ["feature 61"], ["H"] + sum([["R"] + x[1] + ["M"] for x in g], []) + ["R", W(b"YES\n")], pre=["cap %d" % cap])
            c.items = g; cases.append(c)
    # 1. every split of small replies, short pipe reads
    for data in (b"", b"h", b"hel", b"\nYES\n"):
        r = fc(data)
        ms = range(2 ** (len(r) - 1)) if len(r) <= 14 or tier == "thorough" else [m for m in range(2 ** (len(r) - 1)) if bin(m).count("1") <= 3 or bin(m).count("0") < 5]
        items = [("3", [W(x) for x in spl(r, m)], len(data), T.sha(data)) for m in ms]
        for cap in ((0, 1, 7) if tier == "thorough" else (0,)): flush("all splits of %r, pipe reads of at most %d" % (r, cap), items, cap)
    r = fc(b"abcdefghij" * 2)
    two = [(0, i, j) for i in range(len(r)) for j in range(i, len(r))]
    flush("all splits into three records", [("7 1 64", [W(x) for x in (r[:i], r[i:j], r[j:]) if x], 20, T.sha(b"abcdefghij" * 2)) for _, i, j in two], 5)
    # 2. sizes x record sizes x pipe read sizes
    def gen_line(n, rec): return ["G %d %d %s" % (n, rec, (b"FILECONT %d\n" % n).hex())]
    S = sizes_for(tier)
    for rec, cap, sz in ((16384, 0, S), (16384, 4096, S), (16383, 0, S), (16384, 1, [n for n in S if n <= 20000]), (1, 0, [n for n in S if n <= 1100]), (2, 3, [n for n in S if n <= 600]), (13, 0, [n for n in S if n <= 2100]),
                         (1000, 7, [n for n in S if n <= 20000]), (8192, 0, S), (4096, 100, [n for n in S if n <= 140000]), (16370, 0, S)):
        big = [n for n in sz if n > 40000]; small = [n for n in sz if n <= 40000]
        flush("sizes, records of %d, pipe reads of at most %d" % (rec, cap), [("4096", gen_line(n, rec), n, pattern(n)) for n in small], cap, group=60)
        flush("large sizes, records of %d, pipe reads of at most %d" % (rec, cap), [("65536", gen_line(n, rec), n, pattern(n)) for n in big], cap, group=4)
    # 3. reading sequences
    items = []
    for n in range(0, 7):
        for k in range(1, 5 if tier == "quick" else 6):
            for seq in itertools.product((0, 1, 2, 3, 6, 100), repeat=k): items.append((" ".join(map(str, seq)), [W(fc(T.pattern(n)))], n, pattern(n)))
    flush("read sequences", items, 0, group=400)
    flush("read sizes", [(str(k), gen_line(n, 16384), n, pattern(n)) for n in (1, 255, 4096, 4097, 20000) for k in (1, 2, 3, 255, 256, 4095, 4096, 4097, 19999, 20000, 20001, 100000)], 0, 20)
    T.run(tool, fake, cases)
    checked = 0; distinct = set()
    def judge(r, size, sha):
        if not r["ok"]: return "refused: %r" % (r.get("msg") or b"")[:100]
        if r["err"]: return "error set on success"
        if r.get("size") != size: return "size reported as %s instead of %d" % (r.get("size"), size)
        if r["read"] != (size, 3, 0): return "reading delivered %d of %d bytes, signalled the end %d times, problem code %d (1: end before the last byte, 2: data after the end, 3: too much, 4: not min(buffer, rest), 5: the size reported changed)" % (r["read"][0], size, r["read"][1], r["read"][2])
        if r["sha"] != sha: return "content differs (%d bytes)" % size
        if r.get("notfreed"): return "not released"
    for c in cases:
        if rep.full(): break
        if c.status is None: continue
        why = T.abnormal(c)
        if why: rep.violation("%s: %s" % (c.name, why), c.dump()); continue
        for i, (reads, lines, size, sha) in enumerate(c.items):
            checked += 1; distinct.add((size, len(lines)))
            why = judge(c.res[i + 1], size, sha)
            if why: rep.violation("%s: file %d, reads %s, reply %s: %s" % (c.name, i, reads[:40], [l[:80] for l in lines][:20], why), c.dump()); break
        else:
            if not c.res[len(c.items) + 1]["ok"]: rep.violation("%s: the request after the files failed: %s" % (c.name, c.res[len(c.items) + 1]), c.dump())
        if checked % 7 == 1: rep.sample({"case": c.name, "files": len(c.items), "first": c.items[0][2]})
    # 4. end to end with the real executable
    lve = vlib.build("lve_real", vlib.lve_sources(False) + vlib.repo_c("license_managers/testingdummy/src"), gen)
    lib = vlib.sdir("p11lib"); plain = vlib.sdir("p11plain"); enc = vlib.build_encoder(gen)
    ES = [n for n in S if n <= 200000] if tier == "quick" else S
    mo = {"package.mo": b"package P end P;"}
    for n in ES: mo["f%d.mo" % n] = T.pattern(n)
    vlib.write_tree(plain, mo)
    r = vlib.encrypt_tree(enc, plain, lib, ["package.mo"] + [k for k in mo if k != "package.mo"])
    if r.returncode: raise vlib.BuildError("encrypting failed %s" % r.stderr[-1000:])
    for n in ES: open(lib + "/p%d.txt" % n, "wb").write(T.pattern(n))
    e2e = []
    for g in range(0, len(ES), 40):
        for cap in (0, 1000):
            ns = ES[g:g + 40]; names = [("f%d.moc" % n, n) for n in ns] + [("p%d.txt" % n, n) for n in reversed(ns)]
            c = T.Case("real executable, sizes %d..%d, pipe reads of at most %d" % (ns[0], ns[-1], cap), ["version 1 1", "libpath " + lib.encode().hex()] + ["file %s 4096" % nm.encode().hex() for nm, _ in names] + ["stop"], None, exe=lve, pre=["cap %d" % cap])
            c.items = names; e2e.append(c)
    T.run(tool, fake, e2e, jobs=8)
    for c in e2e:
        if rep.full(): break
        if c.status is None: continue
        why = T.abnormal(c)
        if why: rep.violation("%s: %s" % (c.name, why), c.dump()); continue
        for i, (nm, n) in enumerate(c.items):
            checked += 1
            why = judge(c.res[i + 3], n, pattern(n))
            if why: rep.violation("%s: %s: %s" % (c.name, nm, why), c.dump()); break
    rep.outcomes = {"files delivered": checked, "end to end": sum(len(c.items) for c in e2e)}
    rep.assumptions = ["pipe reads are shortened at the read() call of the tool process; writes by the peer are whole TLS records"]
    return rep.finish(states=len(distinct), transitions=len(cases) + len(e2e), traces_validated_against_impl=checked, exhaustive=True)

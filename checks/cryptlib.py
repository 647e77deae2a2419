"""Running the encryption and decryption commands of the repository (checks P13, P14)."""
import hashlib, os, shutil, subprocess
import vlib

WRAPS = ["fopen", "fread", "fwrite", "fclose", "fflush", "fputs", "fgets", "mkdir", "opendir", "readdir", "stat", "lstat", "RAND_bytes", "RAND_priv_bytes", "remove", "rmdir", "ferror"]
def link_wraps(): return ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]

def build(gen):
    base = vlib.repo_c("common") + vlib.repo_c("decryptors/default/src")
    out = {}
    for n in ("encrypt_file", "decrypt_file"):
        src = os.path.join(vlib.SRC, "encrypt_decrypt", n + ".c")
        out[n] = vlib.build(n, base + [src], gen)
        out[n + "_fi"] = vlib.build(n + "_fi", base + [src, vlib.HARN + "/fi.c"], gen, link=link_wraps())
    out["limit"] = vlib.build("limit", [vlib.HARN + "/limit.c"], gen, san=False)
    return out

def snapshot(*roots):
    s = {}
    for r in roots:
        for d, dn, fn in os.walk(r):
            for f in dn: s[os.path.join(d, f)] = "dir" if not os.path.islink(os.path.join(d, f)) else "link " + os.readlink(os.path.join(d, f))
            for f in fn:
                p = os.path.join(d, f)
                s[p] = "link " + os.readlink(p) if os.path.islink(p) else hashlib.sha256(open(p, "rb").read()).hexdigest()
    return s

HANGS = [0]
def run(cmd, cwd=None, env=None, limit=None, T=None, timeout=40):
    if HANGS[0] >= 3: return -998, b"not run: earlier runs hang"
    if limit is not None: cmd = [T["limit"], str(limit)] + cmd
    try: r = subprocess.run(cmd, cwd=cwd, env=vlib.san_env(env), stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired as e: HANGS[0] += 1; return -999, b"timeout " + (e.stderr or b"")
    return r.returncode, r.stderr

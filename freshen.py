"""Cargo decides by modification time whether a source file changed. Sources here may be swapped for others with
an older time stamp (a checkout, a copied sandbox), so a content hash per file decides instead: a package whose
contents changed without a newer time stamp has its build fingerprints removed and is rebuilt."""
import hashlib, json, os, shutil, sys

V = os.environ["VERIF_DIR"]
STAMP = os.path.join(V, "build", "sources.json")
ROOTS = ["/repo/rust", os.path.join(V, "mc"), os.path.join(V, "build", "gen")]
TARGET = os.environ["CARGO_TARGET_DIR"]


def scan():
    out = {}
    for root in ROOTS:
        for d, subs, files in os.walk(root):
            subs[:] = [s for s in subs if s not in ("target", ".git")]
            for f in files:
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    try:
                        st = os.stat(p)
                        with open(p, "rb") as fh:
                            out[p] = [hashlib.sha1(fh.read()).hexdigest(), st.st_mtime]
                    except OSError:
                        pass
    return out


def generate():
    """A copy of the rpc crate whose locks, threads, channels and clock are those of mc/shim."""
    import re
    src, dst = "/repo/rust/rpc/src", os.path.join(V, "build", "gen", "xi-rpc")
    want = {"Cargo.toml": """[package]
name = "xi-rpc-mc"
version = "0.0.0"
edition = "2018"
[lib]
name = "xi_rpc"
path = "src/lib.rs"
[dependencies]
log = "0.4.3"
serde = "1.0"
serde_json = "1.0"
serde_derive = "1.0"
crossbeam-utils = { package = "shim-crossbeam", path = "../../../mc/shim-crossbeam" }
xi_shim = { path = "../../../mc/shim" }
xi-trace = { path = "/repo/rust/trace" }
"""}
    for d, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                text = open(p, encoding="utf-8").read()
                text = re.sub(r"(?<![\w:])(::)?std::", "xi_shim::", text)
                want[os.path.join("src", os.path.relpath(p, src))] = text
    for d, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(d, f)
            if f.endswith(".rs") and os.path.relpath(p, dst) not in want:
                os.remove(p)
    for rel, text in want.items():
        p = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        try:
            same = open(p, encoding="utf-8").read() == text
        except OSError:
            same = False
        if not same:
            open(p, "w", encoding="utf-8").write(text)


generate()
now = scan()
try:
    old = json.load(open(STAMP))
except Exception:
    old = None
if old is not None:
    stale = set()
    for p in set(now) | set(old["files"]):
        a, b = now.get(p), old["files"].get(p)
        if (a and a[0]) != (b and b[0]) and not (a and a[1] > old["time"]):
            stale.add(p)
    if stale:
        # rebuild every package of ours: cheap and certain
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        names = ("xi-", "mccommon", "ropemc", "coremc", "rpcmc", "xi_shim", "shim-", "pluginmc", "miscmc")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(names):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
import time

json.dump({"time": time.time(), "files": now}, open(STAMP, "w"))

#!/usr/bin/env python3
"""Plants a bug: seed.py ID  reads tools-external spec /tmp/seeds/ID.py (a dict SPEC) and writes seeded/ID, after
checking in a scratch copy that it builds, passes the stable tests, and that the demo separates the two trees.
SPEC = dict(property, needs, breaks, edits=[(file, old, new)], demo=rust source or None, deps=[crate dirs], demo_sh=text or None, files={})"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
LIB = "/tmp/seeds/lib"
src = open(f"/tmp/seeds/{ID}.py").read()
ns = {}
exec(src, ns)
S = ns["SPEC"]
W = f"/tmp/seedwork_{ID}"
subprocess.run(["rm", "-rf", W])
subprocess.run(["cp", "-a", "/repo", W], check=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
for f, old, new in S["edits"]:
    p = os.path.join(W, f)
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
D = os.path.join(V, "seeded", ID)
os.makedirs(D, exist_ok=True)
open(os.path.join(D, "patch.diff"), "w").write(diff)
json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)
if S.get("py"):
    # a front-end in Python that talks to the core over its pipe
    S["demo"] = open(os.path.join(LIB, "server.rs")).read()
    S.setdefault("deps", ["core-lib", "rpc"])
    S.setdefault("files", {})
    S["files"]["xi.py"] = open(os.path.join(LIB, "xi.py")).read()
    S["files"]["demo.py"] = "import os, sys\nfrom xi import *\n\nEXE, DIR = sys.argv[1], sys.argv[2]\n" + S["py"]
if S.get("demo"):
    deps = S.get("deps", ["rope"])
    names = {"rope": ("xi-rope", 'features = ["serde"]'), "core-lib": ("xi-core-lib", ""), "rpc": ("xi-rpc", ""), "plugin-lib": ("xi-plugin-lib", ""),
             "unicode": ("xi-unicode", ""), "trace": ("xi-trace", ""), "lsp-lib": ("xi-lsp-lib", "")}
    lines = "".join(f'{names[d][0]} = {{ path = "@REPO@/rust/{d}"{", " + names[d][1] if names[d][1] else ""} }}\n' for d in deps)
    extra = S.get("extra_deps", "")
    open(os.path.join(D, "Cargo.toml.in"), "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n{lines}{extra}')
    open(os.path.join(D, "main.rs"), "w").write(S["demo"])
    shutil.copy(os.path.join(V, "tools/demo.Cargo.lock"), os.path.join(D, "Cargo.lock"))
    open(os.path.join(D, "demo.sh"), "w").write('''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds in this scenario
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"; cp "$here/Cargo.lock" "$w/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$w/Cargo.toml"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0
cd "$w" && cargo build --offline -q || exit 2
''' + ('timeout 120 python3 -B "$here/demo.py" "$w/target/debug/demo" "$w"\n' if S.get("py") else 'timeout 120 "$w/target/debug/demo" "$w"\n'))
else:
    open(os.path.join(D, "demo.sh"), "w").write(S["demo_sh"])
for n, t in S.get("files", {}).items():
    open(os.path.join(D, n), "w").write(t)
os.chmod(os.path.join(D, "demo.sh"), 0o755)


def demo(root):
    r = subprocess.run([os.path.join(D, "demo.sh")], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout[-600:]


a = demo("/repo")
print("demo on clean:", a[0], "" if a[0] == 0 else a[1])
b = demo(W)
print("demo on patched:", b[0], b[1][-300:])
subprocess.run(["rm", "-rf", W])
ok = True
if a[0] == 0 and b[0] not in (0, 2) and "--notest" not in sys.argv:
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(D, "patch.diff")], check=True)
    try:
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    o = json.load(open("/tmp/seed_out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("tests") or base.get("passed")
    passed = set(o.get("passed", []))
    bad = [x for x in stable if x not in passed]
    print("stable tests failing:", bad)
    ok = not bad
sys.exit(0 if ok and a[0] == 0 and b[0] not in (0, 2) else 1)

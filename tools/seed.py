"""Generates /verif/seeded/<id>/ from tools/seeds.py: python3 tools/seed.py [id-substring] [--run]
Each entry: (id, property, edits, demo, needs, breaks) with edits = [(file, old, new)], demo a name in tools/demos (NAME.rs, with an
optional first line `//! deps: ...` of Cargo dependency lines separated by `;`) . --run verifies the demo on the clean and the changed tree."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, V + "/tools")
from seeds import SEEDS

HEAD = """#!/bin/bash
# Builds demo.rs against /repo's current sources in a scratch directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
export RUSTUP_TOOLCHAIN=1.94
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
"""
RUSTC = HEAD + """rustc --edition 2024 -A warnings -o "$scratch/demo" "$here/demo.rs" || exit 4
"$scratch/demo"
"""
CARGO = HEAD + """mkdir -p src
cp "$here/demo.rs" src/main.rs
cp /opt/vp/ws/Cargo.lock Cargo.lock
cat > Cargo.toml <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
{deps}
T
export CARGO_TARGET_DIR="$scratch/target"
cargo build --offline -q || exit 4
"$scratch/target/debug/demo"
"""


def make(sid, prop, edits, demo, needs, breaks):
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    src = open(f"{V}/tools/demos/{demo}.rs").read()
    if src.startswith("//@"):
        inc, src = src.split("\n", 1)
        src = open(f"{V}/tools/demos/{inc[3:].strip()}.rs").read() + src
    open(d + "/demo.rs", "w").write(src)
    first, second = src.splitlines()[:2]
    sh = CARGO.replace("{deps}", "\n".join(x.strip() for x in first.split("deps:")[1].split(";"))) if first.startswith("//! deps:") else RUSTC
    if second.startswith("//! links:"):
        sh = sh.replace("cp \"$here/demo.rs\" src/main.rs", f"ln -s {second.split('links:')[1].strip()}/* src/\nrm -f \"$scratch/src/lib.rs\" \"$scratch/src/main.rs\"\ncp \"$here/demo.rs\" src/main.rs")
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    try:
        for f, old, new in edits:
            p = f"{REPO}/{f}"
            s = open(p).read()
            assert old in s, (sid, f, old[:80])
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def verify(sid, prop):
    d = f"{V}/seeded/{sid}"
    out = []
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
    out.append(f"clean {r.returncode}" + (" " + (r.stdout + r.stderr)[-700:] if r.returncode else ""))
    try:
        subprocess.run(["git", "-C", REPO, "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        out.append("build " + ("ok" if r.returncode == 0 else "FAILS " + r.stderr[-600:]))
        r = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"], capture_output=True, text=True)
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/seed.json"))
        out.append("tests " + compare(base, got))
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
        out.append(f"patched {r.returncode}" + (" ?? " + r.stderr[-500:] if r.returncode in (0, 3, 4) else ""))
        r = subprocess.run([sys.executable, f"{V}/engine/check.py", prop], capture_output=True, text=True)
        out.append(f"check {r.returncode}" + ("" if r.returncode == 1 else " " + r.stdout[-600:]))
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    print(sid, "|", " | ".join(out))


def compare(base, got):
    def passed(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests"):
                if k in x:
                    return passed(x[k])
            return {k for k, v in x.items() if v in ("pass", "passed", True, "ok")}
        return set(x)
    lost = passed(base) - passed(got)
    return "ok" if not lost else f"LOST {sorted(lost)[:4]}"


if __name__ == "__main__":
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo is dirty"
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    for s in SEEDS:
        if only and not any(o in s[0] for o in only):
            continue
        make(*s)
        if "--run" in sys.argv:
            verify(s[0], s[1])

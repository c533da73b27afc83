#!/usr/bin/env python3
"""Developer tool for planted bugs.
  seed.py new ID PROP 'needs' 'breaks' < main.rs    takes the patch from the scratch copy /tmp/seedwork (git diff)
  seed.py test [ID...]                              demo + checks of that property on scratch copies
No check uses this."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds in this scenario (demo.rs). Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/kit" && tar xzf "$here/kit.tgz" -C "$w/kit" && cp "$here/demo.rs" "$w/kit/native/src/main.rs" || exit 3
VERIF_REPO=$repo python3 "$w/kit/tools/shadow.py" "$w/ws" @HOST@|| exit 3
cd "$w/ws" || exit 3
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS="--cfg signal_verif" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
cargo build --offline -q -p native @FLAGS@ 2> "$w/log" || { tail -40 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/native"
'''
def kit(dst):
    files = ["tools/shadow.py", "tools/Cargo.lock.base", "native/Cargo.toml.in"] + [f"native/src/{f}" for f in os.listdir(f"{V}/native/src") if f != "main.rs"]
    subprocess.run(["tar", "--sort=name", "--mtime=2026-01-01", "--owner=0", "--group=0", "-czf", dst, "-C", V, "shims", "hostpart", *sorted(files)], check=True)
def new(i, prop, needs, breaks):
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", "/tmp/seedwork", "diff"], capture_output=True, text=True).stdout
    assert diff.strip(), "no change in /tmp/seedwork"
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(sys.stdin.read())
    mp = prop in ("C01", "C02", "C03", "C04", "C05")
    host = prop in ("C24", "C25", "C26", "C27", "C28", "C30")
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@FLAGS@", "--no-default-features" if mp else "--features host" if host else "--features hooks").replace("@HOST@", "host " if host else "")); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    kit(f"{d}/kit.tgz")
    subprocess.run(["git", "-C", "/tmp/seedwork", "checkout", "-q", "--", "."])
def fresh():
    subprocess.run(["rm", "-rf", "/tmp/seedwork"]); subprocess.run(["git", "clone", "-q", "/repo", "/tmp/seedwork"], check=True)
def test(ids):
    res = {}
    for i in ids:
        d = f"{V}/seeded/{i}"; m = json.load(open(f"{d}/meta.json"))
        w = tempfile.mkdtemp(prefix="seed_")
        r = f"{w}/repo"; subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_FROM", "/repo"), r], check=True)
        shutil.copytree(d, f"{w}/s", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = subprocess.run(["bash", f"{w}/s/demo.sh"], cwd=r, capture_output=True, text=True)
        p = subprocess.run(["git", "-C", r, "apply", f"{d}/patch.diff"], capture_output=True, text=True)
        b = subprocess.run(["bash", f"{w}/s/demo.sh"], cwd=r, capture_output=True, text=True)
        e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=f"{V}/build/seedbuild", VERIF_EVIDENCE=f"{w}/ev")
        c = subprocess.run(["python3", f"{V}/tools/vf.py", "check", m["property"]], cwd=V, env=e, capture_output=True, text=True)
        line = next((l for l in c.stdout.splitlines() if l.startswith("VIOLATION")), "")
        print(f"{i}: {m['property']} demo clean={a.returncode} patched={b.returncode} applies={p.returncode == 0} check={c.returncode} {line}")
        if a.returncode or b.returncode in (0, 3) or p.returncode: print("   ", a.stdout[-500:], b.stdout[-800:], b.stderr[-500:], p.stderr[-300:])
        for l in c.stdout.splitlines()[-4:]: print("      |", l[:300])
        sys.stdout.flush()
        subprocess.run(["rm", "-rf", w])
if sys.argv[1] == "new": new(*sys.argv[2:6])
elif sys.argv[1] == "fresh": fresh()
elif sys.argv[1] == "test": test(sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")))

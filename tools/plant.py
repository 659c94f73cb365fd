#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py FILE.py [ID ...]

FILE.py defines BUGS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (body of main.rs), and optionally extra files.
Each is confirmed in a scratch copy of /repo: it builds, passes the stable tests, and
its demo passes without and fails with it. Only then is seeded/ID written.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
REPO = SCRATCH + "/repo"
TARGET = SCRATCH + "/demo-target"

DEMO = r'''#!/bin/bash
# Builds and runs the program beside it against the library in the current folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scribe = { path = "$repo" }
syntect = { version = "5.1", default-features = false, features = ["default-fancy"] }
unicode-segmentation = "1.10"
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" || exit 2
cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 3; }
cd "$work/scratch" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''

def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_TERM_COLOR": "never"})
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def passed(out):
    return {l.split()[1] + str(i) if False else l.strip() for i, l in enumerate(out.splitlines()) if l.startswith("test ") and l.rstrip().endswith("ok")}

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    os.makedirs(SCRATCH, exist_ok=True)
    if os.path.exists(REPO):
        shutil.rmtree(REPO)
    subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    env = {"CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.strip()
    for b in bugs:
        if only and b["id"] not in only:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old)
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print("--", b["id"], "EDIT", bad, flush=True)
            continue
        patch = subprocess.run(["git", "diff"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout
        # Lines removed should be the original repository's.
        ours = 0
        orig = 0
        for f, old, new in b["edits"]:
            o = subprocess.run(["git", "show", base + ":" + f], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            for l in subprocess.run(["git", "diff", "--", f], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    if l[1:] in o:
                        orig += 1
                    else:
                        ours += 1
        rc, out = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], REPO, env)
        if rc != 0:
            print("--", b["id"], "TESTS FAIL\n", "\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500], flush=True)
            continue
        d = tempfile.mkdtemp(dir=SCRATCH)
        open(d + "/demo.sh", "w").write(DEMO.replace("cargo build", "cargo build --release").replace("/debug/", "/release/") if b.get("release") else DEMO)
        open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
        for name, text in b.get("extra", {}).items():
            open(os.path.join(d, name), "w").write(text)
        rc_with, out_with = run(["bash", d + "/demo.sh"], REPO, {"DEMO_TARGET": TARGET}, 300)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
        # Cargo looks at modification times.
        for f, _, _ in b["edits"]:
            os.utime(os.path.join(REPO, f))
        rc_without, out_without = run(["bash", d + "/demo.sh"], REPO, {"DEMO_TARGET": TARGET}, 300)
        if rc_with in (0, 3) or rc_without != 0:
            print("--", b["id"], "DEMO with", rc_with, "without", rc_without, "\n", out_with[-800:], "\n", out_without[-800:], flush=True)
            shutil.rmtree(d)
            continue
        dest = os.path.join(HERE, "seeded", b["id"])
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        shutil.move(d, dest)
        os.chmod(dest, 0o755)
        open(dest + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        print("ok", b["id"], "original lines changed: %d, of fixes: %d" % (orig, ours), flush=True)

main()

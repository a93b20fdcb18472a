#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  (reads a JSON spec from stdin: edits [[file, old, new]...], demo, needs, breaks)

Writes /verif/seeded/<id>/ from a textual edit of /repo's HEAD. Used by hand only; no check reads it."""
import json, os, subprocess, sys, tempfile, shutil
spec = json.load(sys.stdin)
sid = spec["id"]
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed-")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"])
try:
    for f, old, new in spec["edits"]:
        p = f"{tmp}/w/{f}"
        s = open(p).read()
        n = s.count(old)
        assert n == 1, f"{sid}: {n} matches in {f}: {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"])
    open(d + "/patch.diff", "wb").write(diff)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
    os.rmdir(tmp)
open(d + "/demo.rs", "w").write(spec["demo"])
flags = spec.get("rustflags", "-Awarnings")
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
algebraics = {{ path = "$repo" }}
num-traits = "0.2.14"
num-bigint = "0.4.3"
num-integer = "0.1.44"
num-rational = "0.4.0"
rand = "0.8.5"
[profile.dev]
opt-level = 1
END
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="{flags}"
cargo build --offline -q || exit 3
timeout {spec.get("timeout", 60)} ./target/debug/demo
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
print(sid, "written")

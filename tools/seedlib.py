"""Creates a planted bug: seed(id, prop, [(file, old, new)], demo_rs, needs, breaks). Development aid only; no check uses it."""
import os, subprocess, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, nonzero otherwise
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/demo.rs" "$s/src/main.rs"
[ -f "$here/tm.rs" ] && cp "$here/tm.rs" "$s/src/tm.rs"
cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
procedural_modelling = { path = "$repo", default-features = false, features = ["nalgebra", "netsci"] }
nalgebra = { version = "0.34.1", default-features = false, features = ["std"] }
EOF
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$s"
CARGO_TARGET_DIR="$s/t" cargo build --offline --quiet
timeout 60 "$s/t/debug/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, tm=False):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    if tm:
        open(os.path.join(d, "tm.rs"), "w").write(open(os.path.join(V, "harness/src/tm.rs")).read())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

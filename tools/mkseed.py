#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec: SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import os, sys, json, subprocess, shutil, tempfile
V = "/verif"
SH = '''#!/bin/bash
# Builds and runs demo.rs against the crate in the current directory; exit 0 when the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$root/Cargo.lock" ] && cp "$root/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
yule_log = { path = "$root/core", features = ["macros"%s] }
[workspace]
T
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cd "$w" && %s
'''
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    pre = open(V + "/tools/seed_prelude.rs").read()
    for s in g["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="mkseed")
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r", "HEAD"], check=True)
        try:
            for f, a, b in s["edits"]:
                p = t + "/r/" + f
                x = open(p).read()
                if x.count(a) != 1:
                    sys.exit("%s: %r found %d times in %s" % (s["id"], a, x.count(a), f))
                open(p, "w").write(x.replace(a, b))
            df = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
            open(d + "/patch.diff", "w").write(df)
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"])
            shutil.rmtree(t, ignore_errors=True)
        open(d + "/demo.rs", "w").write((pre if s.get("prelude", True) else "") + s["demo"])
        run = s.get("run", 'timeout 250 cargo run -q --offline')
        open(d + "/demo.sh", "w").write(SH % (s.get("feat", ""), run))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
main()

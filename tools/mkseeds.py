#!/usr/bin/env python3
"""Writes seeded/<id>/{patch.diff,demo.sh,meta.json,...} from seeds/*.py-like table below.  Patches are made in /tmp/seedw."""
import os, subprocess, json, sys
W = "/tmp/seedw"
OUT = "/verif/seeded"
C = "derive_builder_core/src/"
D = C + "macro_options/darling_opts.rs"
DEMO = r'''#!/bin/bash
# exit 0: the property holds for the demonstration; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
mkdir "$t/src" "$t/src/bin"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
@FEAT@path = "$repo/derive_builder" }
[profile.dev]
debug = 0
X
cp "$here/main.rs" "$t/src/main.rs"
cd "$t" || exit 2
cargo run -q --offline || { echo "FAILED: main.rs"; exit 1; }
if [ -f "$here/refused.rs" ]; then
  cp "$here/refused.rs" "$t/src/bin/refused.rs"
  if cargo build -q --offline --bin refused 2>"$t/err"; then echo "FAILED: refused.rs was accepted"; exit 1; fi
fi
exit 0
'''
S = {}
def seed(id, prop, edits, needs, breaks, main, refused=None, feat=""):
    S[id] = (prop, edits, needs, breaks, main, refused, feat)

exec(open(os.path.dirname(os.path.abspath(__file__)) + "/seeds.txt").read())

only = sys.argv[1:]
if not os.path.isdir(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
for id, (prop, edits, needs, breaks, main, refused, feat) in S.items():
    if only and id not in only:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    ok = True
    for f, a, b in edits:
        s = open(f"{W}/{f}").read()
        if s.count(a) != 1:
            print(id, f, "matches", s.count(a)); ok = False; break
        open(f"{W}/{f}", "w").write(s.replace(a, b))
    if not ok:
        continue
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    d = f"{OUT}/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", feat or "derive_builder = { ")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(main.lstrip("\n"))
    if refused: open(d + "/refused.rs", "w").write(refused.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)

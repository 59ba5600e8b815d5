#!/bin/bash
# run.sh <property> [quick|thorough]: one check.  run.sh build: only build.  run.sh replay <file>.
# Rebuilds everything that depends on /repo's working tree; writes only below /verif/build, /verif/evidence, /verif/replay.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
repo=${MC_REPO:-/repo}
prop=${1:?usage: run.sh <property> [tier]}
tier=${2:-${VERIF_TIER:-quick}}
export RUSTUP_TOOLCHAIN=1.88.0
export CARGO_TARGET_DIR=$PWD/build/target
export RUSTFLAGS="--cap-lints=warn"
export CARGO_NET_OFFLINE=true
export MC_RUSTC=$(rustup which rustc 2>/dev/null || echo rustc)
mkdir -p build
exec 9>build/lock
flock 9
# cargo decides by modification times; decide by contents
hash=$( (cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$hash" != "$(cat build/repo.hash 2>/dev/null)" ]; then
  rm -f build/repo.hash
  [ -d build/target ] && (cd mc && cargo clean --offline -p derive_builder -p derive_builder_core -p derive_builder_macro >../build/clean.log 2>&1)
fi
if ! (cd mc && cargo build --offline --message-format=json -p mc -p mc_rt) >build/artifacts.tmp 2>build/cargo.log; then
  tail -40 build/cargo.log
  echo "check error: the harness does not build" >&2
  exit 2
fi
mv build/artifacts.tmp build/artifacts.json
# derive_builder with other features
case $prop in build|C18|replay)
  for e in alloc none; do
    if ! (cd mc && cargo build --offline --message-format=json -p env_$e) >build/artifacts.tmp 2>build/cargo.log; then
      tail -40 build/cargo.log
      echo "check error: the harness does not build without default features" >&2
      exit 2
    fi
    mv build/artifacts.tmp build/artifacts-$e.json
  done ;;
esac
echo "$hash" >build/repo.hash
flock -u 9
[ "$prop" = build ] && exit 0
exec build/target/debug/mc "$prop" "$tier"

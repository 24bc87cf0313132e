#!/bin/bash
# Answers of the library (built from the current directory) for the texts in cases/*.sql,
# compared with the answers it has to give (cases/*.out). Exit 0: the same.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs"
cp "$here/demo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bq2cst = { path = "$repo" }
serde_json = "1.0"
[workspace]
[profile.dev]
opt-level = 1
debug = 0
T
cd "$w" || exit 3
export CARGO_TARGET_DIR=$w/target CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg bq2cst_verif"
cargo build --offline >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
bad=0
for f in "$here"/cases/*.sql; do
  b=$(basename "$f" .sql)
  ( ulimit -c 0; timeout 60 "$w/target/debug/demo" "$f" >"$w/out" 2>/dev/null ) || echo "no answer: $?" >"$w/out"
  if [ -n "$DEMO_RECORD" ]; then cp "$w/out" "$DEMO_RECORD/$b.out"; continue; fi
  if ! cmp -s "$w/out" "$here/cases/$b.out"; then
    echo "$b: the answer is not the expected one:"; diff "$here/cases/$b.out" "$w/out" | cut -c1-300 | head -20; bad=1
  fi
done
exit $bad

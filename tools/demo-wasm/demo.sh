#!/bin/bash
# Builds the WebAssembly package of the current directory and runs demo.js with it. Exit 0: it behaves as it has to.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PATH=$PATH:/opt/vp/wbg/bin CARGO_TARGET_DIR=$w/target CARGO_INCREMENTAL=0
cd "$repo" || exit 3
cargo build --release --offline --target wasm32-unknown-unknown --lib >"$w/log" 2>&1 &&
  wasm-bindgen --target nodejs --out-dir "$w/pkg" "$w/target/wasm32-unknown-unknown/release/bq2cst.wasm" >>"$w/log" 2>&1 ||
  { tail -20 "$w/log"; exit 3; }
PKG=$w/pkg timeout 120 node "$here/demo.js"

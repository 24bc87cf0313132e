#!/bin/bash
# run.sh <property>        builds the harness against /repo's working tree and runs the check
# run.sh replay <file>     runs a recorded failure again
# run.sh build             builds only
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export PATH=$PATH:/opt/vp/wbg/bin
export CARGO_TARGET_DIR=$here/target
export RUSTFLAGS="--cfg bq2cst_verif"
cd "$here/harness" || exit 3
mkdir -p "$here/target"
# cargo goes by mtimes; a file put back with an old one must be seen as well
sum=$(cd /repo && cat Cargo.toml Cargo.lock build.rs $(find src -type f -name '*.rs' | sort) 2>/dev/null | sha256sum)
if [ "$sum" != "$(cat "$here/target/stamp" 2>/dev/null)" ]; then
  rm -rf "$here"/target/release/.fingerprint/bq2cst-* "$here"/target/wasm/wasm32-unknown-unknown/release/.fingerprint/bq2cst-*
  echo "$sum" >"$here/target/stamp"
fi
# the WebAssembly package, as published (without the hooks)
package() {
  unset RUSTFLAGS
  export CARGO_TARGET_DIR=$here/target/wasm
  cd /repo && cargo build --release --offline --target wasm32-unknown-unknown --lib &&
    wasm-bindgen --target nodejs --out-dir "$here/target/pkg" "$here/target/wasm/wasm32-unknown-unknown/release/bq2cst.wasm" &&
    cd "$here/harness/js" && node types.js "$here/target/pkg/bq2cst.d.ts" "$here/target/types.json"
}
wasm=
case "$*" in C04 | C19 | C20 | C21 | build | replay*C04* | replay*C19* | replay*C20* | replay*C21*)
  (package) >"$here/target/wasm.log" 2>&1 &
  wasm=$! ;;
esac
if ! cargo build --release --offline --bin check >"$here/target/build.log" 2>&1; then
  tail -40 "$here/target/build.log"
  echo "the harness does not build against /repo" >&2
  exit 3
fi
if [ -n "$wasm" ] && ! wait "$wasm"; then
  tail -40 "$here/target/wasm.log"
  echo "the WebAssembly package of /repo does not build" >&2
  exit 3
fi
[ "$1" = build ] && exit 0
exec "$here/target/release/check" "$@"

#!/bin/bash
# Builds one simulation binary from /repo's current working tree: tools/build.sh core|grpc|prom
# Output: $OTELSIM_TARGET (default /verif/target)/x86_64-unknown-linux-gnu/debug/sim<name>
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
export RUSTC_BOOTSTRAP=1 CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="--cap-lints=warn -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
export CARGO_TARGET_DIR="${OTELSIM_TARGET:-$PWD/target}"
log=$(mktemp)
if ! cargo build --offline --quiet --target x86_64-unknown-linux-gnu --manifest-path "sim/$1/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"

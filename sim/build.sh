#!/bin/bash
# Builds the simulator and the node library from /repo's working tree. Output in sim/target.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
cd "$here" || exit 3
log="$here/target/build.log"
mkdir -p "$here/target"
if ! cargo build --offline --locked >"$log" 2>&1; then
    grep -E -A12 '^error' "$log" | head -60
    tail -5 "$log"
    exit 3
fi

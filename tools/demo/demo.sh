#!/bin/bash
# Builds main.rs beside this file against /repo's crates and runs it: 0 held, 1 broken.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d /tmp/demo-XXXXXXXX)"
trap 'find "$d" -depth -delete' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hydra = { path = "/repo/hydra", features = ["console"] }
hydra-websockets = { path = "/repo/hydra-websockets" }
serde = { version = "1", features = ["derive"] }
tokio = { version = "1", features = ["full"] }
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
cargo build --quiet --offline --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 99; }
timeout 100 "$d/target/debug/demo"

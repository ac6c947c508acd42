#!/bin/bash
# Builds main.rs (beside this file) against the jmt crate in the current directory and runs it.
# exit 0: the behaviour is intact; nonzero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
jmt = { path = "$R", features = ["mocks", "migration"] }
sha2 = "0.10"
borsh = "1.3.0"
anyhow = "1.0.38"
ics23 = "0.11.0"
T
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 280 cargo run --offline -q

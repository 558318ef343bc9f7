#!/bin/bash
# Builds demo.rs (beside this file) against the crate in the current directory and runs it.
export PATH="/root/.cargo/bin:$PATH" HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
HERE="$(cd "$(dirname "$0")" && pwd)"
CRATE="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$HERE/demo.rs" "$T/src/main.rs" && cp "$CRATE/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
strict_types = { path = "$CRATE", features = ["all"] }
strict_encoding = { version = "~2.9.1", features = ["derive"] }
amplify = "~4.9.0"
serde_json = "1.0"
serde_yaml = "0.9"
[profile.dev]
debug = 0
EOF
cd "$T" && CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" cargo build --offline 2>"$T/log" || { cat "$T/log"; exit 99; }
"${DEMO_TARGET:-$T/target}/debug/demo"

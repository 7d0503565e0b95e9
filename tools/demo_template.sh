#!/bin/bash
# builds demo.rs against the tree in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/elusiv/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
elusiv = { path = "$repo/elusiv", features = ["no-entrypoint"] }
elusiv-types = { path = "$repo/elusiv/shared/elusiv-types", default-features = false, features = ["bytes", "accounts", "tokens"] }
elusiv-computation = { path = "$repo/elusiv/shared/elusiv-computation" }
borsh = { version = "=0.9.3", features = ["const-generics"] }
solana-program = "1.10"
spl-token = { version = "3.5", features = ["no-entrypoint"] }
ark-bn254 = "=0.3.0"
ark-ff = { version = "=0.3.0", default-features = false }
[profile.dev]
debug = 0
overflow-checks = false
debug-assertions = false
T
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$repo/elusiv/target/demo"
unset RUSTFLAGS
cd "$tmp"
timeout 280 cargo run --offline -q

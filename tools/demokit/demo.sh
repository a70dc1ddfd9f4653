#!/bin/bash
# Builds demo.rs against the crates in the current directory (/repo) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$here/kit.rs" ] && cp "$here/kit.rs" "$work/src/kit.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aldrin-core = { path = "$repo/core", features = ["channel", "introspection", "tokio"] }
aldrin-broker = { path = "$repo/broker", features = ["statistics", "introspection"] }
uuid = "1"
bytes = "1"
tokio = { version = "1", default-features = false, features = ["io-util"] }
[profile.dev]
debug = 0
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet > "$work/log" 2>&1 || { tail -20 "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"

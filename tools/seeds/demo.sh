#!/bin/bash
# Builds the program beside this file against the crates in the current directory (/repo) and runs
# it: 0 if the property held, nonzero otherwise. Everything it writes is in a folder of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
dir=$(mktemp -d) || exit 2
trap 'find "$dir" -delete' EXIT
mkdir "$dir/src" && cp "$here/main.rs" "$dir/src/main.rs" && cp "$repo/Cargo.lock" "$dir/Cargo.lock" || exit 2
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
bsp-server = { path = "$repo/bsp-server" }
bsp-types = { path = "$repo/bsp-types" }
serde_json = "1"
anyhow = "1"
$(sed -n 's,^// depends on ,,p' "$here/main.rs")

[profile.dev]
debug = 0

[workspace]
TOML
cd "$dir" || exit 2
export CARGO_TARGET_DIR="$dir/target"
if ! cargo build --offline >"$dir/log" 2>&1; then
  cat "$dir/log"
  exit 2
fi
timeout 120 "$dir/target/debug/demo"

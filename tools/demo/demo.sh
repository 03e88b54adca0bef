#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export LIBCLANG_PATH=/usr/lib/llvm-18/lib RUSTC_WRAPPER=
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/util.rs" "$d/src/"
cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async-tiff = { path = "$repo", default-features = false, features = [@FEATURES@] }
async-trait = "0.1"
bytes = "1"
futures = "0.3"
tokio = { version = "1", default-features = false, features = ["rt", "time", "net", "io-util", "sync", "macros"] }
@DEPS@
[profile.dev]
debug = 0
incremental = false
EOT
cd "$d" || exit 2
timeout 280 cargo run -q --offline --target-dir "$d/target" 2>&1
exit $?

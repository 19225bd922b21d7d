#!/bin/bash
# Builds demo.rs, which lies beside this file, against the tree in the current directory and runs it.
# Exit 0: the demonstrated behaviour is right. Everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
astro-float = { path = "$repo" }
astro-float-num = { path = "$repo/astro-float-num" }
[patch.crates-io]
astro-float-num = { path = "$repo/astro-float-num" }
astro-float-macro = { path = "$repo/astro-float-macro" }
[profile.release]
opt-level = 1
debug-assertions = true
overflow-checks = true
[workspace]
TOML
cp "$here/demo.lock" "$t/Cargo.lock"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CI=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$t" || exit 2
cargo build --offline -q --release >build.log 2>&1 || { tail -20 build.log; exit 3; }
timeout 200 ./target/release/demo

#!/bin/bash
# builds main.rs beside this file against the crates of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
unset CARGO_RESOLVER_LOCKFILE_PATH
cd "$t" && cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"

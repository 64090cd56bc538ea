#!/bin/bash
# build one harness crate: native replay binary and whole-program LLVM IR
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/$1"
mkdir -p target
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
gcc -O1 -c ../rt.c -o target/rt.o
cargo rustc --offline --release -q -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C link-arg=$PWD/target/rt.o -Awarnings >target/build.log 2>&1 || { grep -E '^error' -A12 target/build.log >&2; exit 1; }
ll=$(ls -t target/release/deps/*.ll | head -1)
bin=$(ls -t target/release/deps/*.d | head -1); bin=target/release/$(grep -m1 '^name' Cargo.toml | cut -d'"' -f2)
a=$(nm "$bin" | grep -E 'std_detect.*5CACHE(\.0)?$' | head -1 | cut -d' ' -f1); b=$(nm "$bin" | grep -E ' sym_init$' | head -1 | cut -d' ' -f1)
off=; [ -n "$a" ] && [ -n "$b" ] && off=$((0x$a - 0x$b))
echo "$PWD/$ll $PWD/$bin $off"

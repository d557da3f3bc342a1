#!/bin/bash
# usage: build.sh core|full
cd "$(dirname "$0")/.." || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER=$PWD/tools/rustc-wrap CARGO_TARGET_DIR=$PWD/.build/target CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p .build
exec 9> .build/lock
flock 9
python3 tools/mirror.py "$1" .build/"$1" || exit 1
if [ "$1" = full ]; then python3 tools/mirror.py cli .build/cli || exit 1; fi
log=.build/build-$1.log
cargo build --release --offline --manifest-path "$1"/Cargo.toml > "$log" 2>&1 || { tail -60 "$log" >&2; exit 1; }

#!/bin/bash
# Builds the named harness crates from /repo's current working tree.
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
for c in "$@"; do
    # licensing is private: its hook is behind a cfg flag
    flags=""; dir="$PWD/target"
    if [ "$c" = lic ]; then flags="--cfg zuban_verif"; dir="$PWD/target/hooked"; fi
    RUSTFLAGS="$flags" CARGO_TARGET_DIR="$dir" cargo build --release --offline --quiet --manifest-path "harness/$c/Cargo.toml"
done

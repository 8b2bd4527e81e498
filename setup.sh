#!/bin/bash
# Builds the executor and warms the harness dependencies; every check rebuilds /repo's crate itself.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS=""
mkdir -p build evidence
cargo build --release --offline --target-dir build/eng --manifest-path engine/Cargo.toml
build/eng/release/llsym --selftest
cd harness
CARGO_TARGET_DIR=../build/h RUSTFLAGS="--cfg pmcp_vp --check-cfg cfg(pmcp_vp)" cargo build --release --offline --bin c02

#!/bin/bash
# Builds the engine; every check also builds what it needs by itself.
cd "$(dirname "$0")/engine" || exit 1
unset RUSTFLAGS
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=../target/engine cargo build --release --offline --locked

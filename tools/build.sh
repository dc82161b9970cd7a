#!/bin/bash
# Builds the harness against /repo's working tree.
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
cd "$(dirname "$0")/../harness" && exec cargo build --offline "$@"

#!/bin/bash
# Builds every checker once, offline.
cd "$(dirname "$(realpath "$0")")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
cargo build --manifest-path harness/Cargo.toml --offline --locked --bins 2>&1 | tail -3
exit "${PIPESTATUS[0]}"

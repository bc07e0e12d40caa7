#!/bin/bash
# ./check.sh ID: build the checker of property ID against /repo's working tree and run it.
ID="${1:?usage: check.sh ID}"
cd "$(dirname "$(realpath "$0")")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export RQMON_DIR="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
LOG=$(mktemp)
if ! cargo build --manifest-path harness/Cargo.toml --offline --locked --bin "$BIN" >"$LOG" 2>&1; then
    tail -40 "$LOG"; rm -f "$LOG"
    echo "INCONCLUSIVE property=$ID: the checker does not build against this tree"
    exit 2
fi
rm -f "$LOG"
if [ "$VERIF_TIER" = thorough ]; then LIM=6000; else LIM=600; fi
timeout -k 10 "$LIM" "harness/target/debug/$BIN"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "INCONCLUSIVE property=$ID: checker ended with status $rc"; exit 2; fi
# Thorough tier of C28: the same workload once more under ThreadSanitizer (nightly, standard library rebuilt).
if [ "$ID" = C28 ] && [ "$VERIF_TIER" = thorough ] && [ $rc -eq 0 ]; then
    T=$(mktemp -d); TGT=x86_64-unknown-linux-gnu
    if RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR=harness/target/tsan \
        cargo build --manifest-path harness/Cargo.toml --offline --locked -Zbuild-std --target $TGT --bin c28 >"$T/log" 2>&1; then
        RQMON_DIR="$T" VERIF_TIER=quick TSAN_OPTIONS="halt_on_error=0 exitcode=0 history_size=4" \
            timeout -k 10 1200 "harness/target/tsan/$TGT/debug/c28" >"$T/out" 2>&1
        python3 tools/tsan.py "$T/out" evidence/C28.json || rc=1
    else
        tail -5 "$T/log"; echo "NOTE property=C28: ThreadSanitizer stage not built, skipped"
    fi
    rm -rf "$T"
fi
exit $rc

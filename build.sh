#!/bin/bash
# Builds the harness against /repo's current working tree.
export RUSTUP_TOOLCHAIN=nightly-2024-09-04 CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p /verif/target
exec 9>/verif/target/.build-lock
flock 9
python3 /verif/stale.py
cd /verif/harness || exit 3
if ! cargo build --offline --locked >/verif/target/build.log 2>&1; then
    tail -60 /verif/target/build.log
    echo "INCONCLUSIVE: the harness does not build against /repo"
    exit 3
fi
python3 /verif/stale.py save

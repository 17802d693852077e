#!/bin/bash
# Builds the python package of /repo's current working tree into /verif/target/pystage.
export RUSTUP_TOOLCHAIN=nightly-2024-09-04 CARGO_TARGET_DIR=/verif/target/py CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3.12 CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p /verif/target/py
exec 8>/verif/target/py/.build-lock
flock 8
STALE_TARGET=/verif/target/py python3 /verif/stale.py
cd /repo || exit 3
if ! cargo build -p pyvortex --lib --offline --locked >/verif/target/py/build.log 2>&1; then
    tail -60 /verif/target/py/build.log
    echo "INCONCLUSIVE: the python package does not build"
    exit 3
fi
S=/verif/target/pystage
rm -rf /verif/target/pystage && mkdir -p $S && cp -r /repo/pyvortex/python/vortex $S/vortex && cp /verif/target/py/debug/libpyvortex.so $S/vortex/_lib.abi3.so || exit 3
STALE_TARGET=/verif/target/py python3 /verif/stale.py save

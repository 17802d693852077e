#!/bin/bash
# check.sh <property>: rebuild against /repo, then decide the property (VERIF_TIER, VERIF_SEED).
cd /verif || exit 3
ulimit -c 0
if [ "$1" = C29 ]; then
    bash /verif/py/build.sh || exit 3
    exec bash /verif/py/run.sh check C29
fi
bash /verif/build.sh || exit 3
ulimit -v 3500000
exec /verif/target/debug/vxcheck check "$1"

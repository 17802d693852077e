#!/bin/bash
# run.sh <args of vxpy.py>: runs the python harness on the staged package
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif/target/pystage PYTHONHASHSEED=0 POLARS_MAX_THREADS=1 OMP_NUM_THREADS=1 TOKIO_WORKER_THREADS=1 VERIF_TIER=${VERIF_TIER:-quick}
ulimit -v 8000000
exec /opt/vp/venv/bin/python /verif/py/vxpy.py "$@"

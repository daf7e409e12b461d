#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough>
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XDG_CONFIG_HOME=/opt/vp/astropy-config
export PYTHONPATH=${VERIF_REPO:-/repo}:$PWD/harness:$PYTHONPATH PYTHONWARNINGS=ignore
exec /opt/venv/bin/python harness/$(echo "$1" | tr A-Z a-z).py "${2:-quick}"

#!/bin/sh
# developer helper: run one replay file and print the result
d=$(cd "$(dirname "$0")" && pwd)
cd ${GPCM_REPO:-/repo} && JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 PYTHONPATH=${GPCM_REPO:-/repo}:$d REPLAY_PRINT=1 /opt/venv/bin/python -W ignore $d/$1.py /tmp/replay-$1.json

#!/bin/bash
# usage: check.sh C01 [args]   (VERIF_SEED, VERIF_TIER honoured)
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m harness.run "$@"

#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m engine.run "$1" "${2:-${VERIF_TIER:-quick}}"

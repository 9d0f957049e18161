#!/bin/bash
# usage: check.sh <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
unset PYTHONHASHSEED PBT_STAGE
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python -m pbt "$@"

#!/bin/bash
# run_check.sh <property-id> [quick|thorough] [runner options]
# Runs the generated-input search that decides one property against the code
# that is in /repo's working tree right now (pure Python: nothing to build).
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
export HYPOTHESIS_NO_PLUGINS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export AUXI_REPO=${AUXI_REPO:-/repo}
export PYTHONPATH="$AUXI_REPO:$HERE"
# The code under test reads and writes files only where a check tells it to;
# every check does so below a scratch folder that is removed at the end.
SCRATCH=$(mktemp -d /tmp/auxi-pbt.XXXXXXXX) || exit 3
export PBT_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" HOME="$SCRATCH"
mkdir -p "$MPLCONFIGDIR"
cd "$SCRATCH" || exit 3
/opt/venv/bin/python -W ignore -m pbt.runner "$@"
rc=$?
cd / && rm -rf "$SCRATCH"
exit $rc

#!/bin/bash
# run.sh <property id> [--replay FILE]: runs one check against the working tree of /repo.
# VERIF_SEED selects the random streams, VERIF_TIER=quick|thorough the amount of work.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VMON_REPO="${VMON_REPO:-/repo}"
export VMON_SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$VMON_SCRATCH"' EXIT
export HOME="$VMON_SCRATCH" TMPDIR="$VMON_SCRATCH" MPLCONFIGDIR="$VMON_SCRATCH/mpl" MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPYCACHEPREFIX="$VMON_SCRATCH/pyc" PYTHONPATH="$here:$VMON_REPO" PYTHONWARNINGS=ignore
export PYTHONUNBUFFERED=
args=("$@")
for i in "${!args[@]}"; do
    if [ "${args[$i]}" = "--replay" ]; then args[$((i+1))]="$(realpath -- "${args[$((i+1))]}")"; fi
done
cd "$VMON_SCRATCH" || exit 2
/opt/venv/bin/python -m vmon.main "${args[@]}"
exit $?

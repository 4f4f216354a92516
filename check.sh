#!/bin/bash
# check.sh <property id> [quick|thorough] [extra args]   -- run one check against /repo's working tree
# Tier: VERIF_TIER overrides the argument's default; seed: VERIF_SEED (default 1).
cd "$(dirname "$0")" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export BARTPY_REPO="${BARTPY_REPO:-/repo}"
work=$(mktemp -d /tmp/vf.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
# never read a stale .pyc of /repo, never write one
export PYTHONPYCACHEPREFIX="$work/pyc" MPLCONFIGDIR="$work/mpl" JOBLIB_TEMP_FOLDER="$work" TMPDIR="$work"
mkdir -p "$work/mpl"
export PYTHONPATH="$PWD:$BARTPY_REPO"
/opt/venv/bin/python -m vf.main "$id" "$@"
exit $?

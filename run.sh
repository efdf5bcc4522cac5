#!/bin/bash
# run.sh PROPERTY_ID [quick|thorough]      run the check of one property
# run.sh PROPERTY_ID --replay FILE         re-run one saved failing case
# Everything the check writes outside /verif/evidence and /verif/replays goes to a
# scratch directory that the runner creates and removes.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
unset GITHUB_TOKEN PELICUN_GITHUB_API_URL PELICUN_GITHUB_RAW_URL DLML_REPO_OWNER DLML_REPO_NAME
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_HOME=$here
export PYTHONPATH=$VERIF_REPO:$here
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m pbt.main "$@"

#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]     run one check
#        run.sh <PROPERTY> --replay FILE        re-run one saved counterexample
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 AWS_EC2_METADATA_DISABLED=true
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONSTARTUP
# development only: judge a scratch copy of the repository instead of /repo
[ -n "$VERIF_REPO" ] && export PYTHONPATH="$VERIF_REPO"
exec /opt/venv/bin/python -W ignore vlib/runner.py "$@"

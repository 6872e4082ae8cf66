#!/usr/bin/env bash
# ./run.sh <property> [--replay FILE]: run one check against the working tree of /repo.
set -u
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec python3-vt -m "checks.$(echo "$1" | tr 'A-Z' 'a-z')" "${@:2}"

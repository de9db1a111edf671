#!/bin/bash
# check.sh <property> [quick|thorough] [--seed N] [--shard K]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 PYTHONUTF8=1
# never read stale bytecode: compile /repo's sources afresh on every run
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPYCACHEPREFIX="$scratch/pyc" HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
cd "$here" || exit 2
/opt/venv/bin/python -W ignore run.py "$@"

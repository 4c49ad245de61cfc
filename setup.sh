#!/bin/bash
# Nothing is built: the checks load the modules of /repo from its working tree. This only tells early if they can't.
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/evidence"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONINTMAXSTRDIGITS=0
cd "$D" && exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, sys.argv[1]); from sim import harness, core; core.install(); import mpmath, sympy, scipy.stats, pylatex, dill; print("ok")' "$D"

#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale X]
# check.sh --setup: see that everything the checks need can be imported
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
if [ "$1" = --setup ]; then
    mkdir -p "$here/evidence" "$here/replays"
    exec /opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0, '$here/pbt'); import core, common"
fi
exec /opt/venv/bin/python -W ignore "$here/pbt/main.py" "$@"

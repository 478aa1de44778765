#!/bin/bash
# check.sh <property> [quick|thorough]   run one property's monitor against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
prop=${1:?usage: check.sh C01 [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -m mon.main "$prop" --tier "$tier" "${@:3}"

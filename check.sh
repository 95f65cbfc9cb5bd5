#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python vf/run.py "$1" --tier "${2:-quick}" "${@:3}"

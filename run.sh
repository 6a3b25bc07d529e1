#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$REPO" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export LC_ALL=C.UTF-8
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m sfmon.main "$@"

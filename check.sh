#!/bin/bash
# usage: check.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m vsym.run "$1" --tier "${2:-quick}"

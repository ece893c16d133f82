#!/bin/sh
# run.sh <property> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python check.py "$@"

#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD" PYTHONIOENCODING=utf-8 LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m tkverif.harness "$@"

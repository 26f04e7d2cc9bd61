#!/bin/sh
# check.sh <ID> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/veriftools/pyvenv/bin/python podver/check.py "$@"

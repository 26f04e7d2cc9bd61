#!/bin/sh
cd "$(dirname "$0")" || exit 0
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python podver/setup.py
exit 0

#!/bin/bash
# run.sh P01 [options]: run one check from any directory.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m mc.check "$@"

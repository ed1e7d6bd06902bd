#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m ffsim.runner "$@"

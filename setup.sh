#!/bin/bash
# Builds the shim, and the extension modules if /repo's own build does not match its sources.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m ffsim.env

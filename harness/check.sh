#!/bin/sh
# check.sh PROPERTY TIER
exec /opt/venv/bin/python -B "$(dirname "$0")/check.py" "$@"

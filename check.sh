#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] [HARNESS-SUBSTRING]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vlib.runner "$@"

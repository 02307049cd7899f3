#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
exec /opt/venv/bin/python vlib/main.py "$@"

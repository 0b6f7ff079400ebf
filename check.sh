#!/bin/sh
# check.sh PROPERTY [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python run.py "$@"

#!/bin/bash
# bash /verif/run.sh C01 [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc.core "$@"

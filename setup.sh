#!/bin/bash
# Nothing to build: checks that the interpreter, TensorFlow and the code under test can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -c 'from mc import boot, registry; import tensorD.base.ops; print("ready:", len(registry.CHECKS), "checks")'

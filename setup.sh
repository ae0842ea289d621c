#!/bin/bash
# nothing to compile: check that the interpreter of the project imports the project and the framework
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -c 'import pyswagger, pbt.engine; print("setup ok")'

#!/bin/bash
# usage: check.sh C01 [quick|thorough|replay FILE]
# Runs the property check against /repo's working tree (imported as is: pure Python, nothing to build).
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD:${PBT_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export PYTHONPYCACHEPREFIX=/nonexistent-pycache   # never read stale bytecode
exec /opt/venv/bin/python -W ignore -c "import sys; from pbt.engine import main; sys.exit(main([None] + sys.argv[1:]))" "$@"

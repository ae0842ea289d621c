#!/bin/bash
# tools/prefix_check.sh CNN: which 'fixed' findings of a property fail again on the original code (each must)
cd "$(dirname "$0")/.."
[ -d /tmp/orig ] || { cp -a /repo /tmp/orig; git -C /tmp/orig checkout -q 2ebdab0; }
PBT_REPO=/tmp/orig PYTHONPATH="$PWD:/tmp/orig" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC /opt/venv/bin/python -W ignore - "$1" <<'P'
import sys, json, tempfile
from pbt import engine
pid = sys.argv[1]
run = engine.Run(pid, 'quick', '1', 1)
for e in json.load(open('known_findings.json'))['entries']:
    if e['property'] == pid and e['status'] == 'fixed':
        case = eval(e['case'], dict(engine.ENV))
        cx, msg = engine.run_case(run.part(e['part']), case, tempfile.mkdtemp())
        print('fails' if msg else 'PASSES', e['commit'], e['what'][:80], '|', (msg or '')[:100])
P

"""tools/plant.py SPEC.py: makes seeded/<id>/ from SPEC (ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS),
after confirming in a scratch copy that the tests pass and the demonstration fails with it only."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(ROOT, 'seeded', ns['ID'])
tmp = tempfile.mkdtemp(prefix='plant-')
wt = os.path.join(tmp, 'repo')
try:
    subprocess.check_call(['cp', '-a', '/repo', wt])
    git = lambda *a: subprocess.check_output(['git', '-C', wt] + list(a)).decode()
    git('checkout', '-q', '--', '.')
    blame_bad = []
    for f, old, new in ns['EDITS']:
        p = os.path.join(wt, 'pyswagger', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    patch = git('diff')
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('demo unchanged:', r.returncode, '' if r.returncode == 0 else r.stdout.decode()[-1500:])
    r2 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('demo patched:', r2.returncode, r2.stdout.decode()[-300:])
    env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'none'))
    r3 = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', '--timeout=300', '-x', 'pyswagger/tests'], cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    tail = r3.stdout.decode().strip().split('\n')
    print('tests:', tail[-1], '' if r3.returncode == 0 else '\n'.join(l for l in tail if 'Error' in l or 'FAILED' in l)[-1500:])
    ok = r.returncode == 0 and r2.returncode != 0 and r3.returncode == 0
    if len(sys.argv) > 2 and ok:
        for c in sys.argv[2:]:
            r4 = subprocess.run(['bash', os.path.join(ROOT, 'check.sh'), c, 'quick'], env=dict(os.environ, PBT_REPO=wt, PBT_SHRINK='5'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print('check %s:' % c, r4.returncode, r4.stdout.decode()[:700])
    print('KEEP' if ok else 'REJECTED', ns['ID'])
    if not ok:
        shutil.rmtree(d)
finally:
    shutil.rmtree(tmp)

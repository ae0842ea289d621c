"""MANIFEST.json from the properties that have a check"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(root, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(root, 'props', p.lower() + '.py')):
        t, note = TECH[p]
        checks.append(dict(property=p, quick_cmd='bash check.sh %s quick' % p, thorough_cmd='bash check.sh %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=t, level='exploration', level_note=note))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

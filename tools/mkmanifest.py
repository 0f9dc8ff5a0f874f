"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
TECH = {}
NOTE = {}
exec(open(os.path.join(R, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(R, 'vp', 'props', i.lower() + '.py')):
    checks.append(dict(property=i, quick_cmd='bash run.sh ' + i,
                       thorough_cmd='VERIF_TIER=thorough bash run.sh ' + i,
                       evidence_file='evidence/%s.json' % i,
                       technique=TECH.get(i, DEFAULT_TECH), level='exploration',
                       level_note=NOTE.get(i, DEFAULT_NOTE)))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: the checks import /repo as the package meterstick through a temporary symlink and run from its working tree.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)

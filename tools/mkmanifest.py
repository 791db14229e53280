"""writes MANIFEST.json from vf/props.py"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if not P:
        na.append(dict(property=i, reason=props.NA.get(i, 'check under construction')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 -m vf.check ' + i, thorough_cmd='python3 -m vf.check %s --thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=props.TECHNIQUE, level=P.get('level', 'proof'), level_note=props.note(i)))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the contracts live in /verif/contracts and are attached to the functions by name and signature on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

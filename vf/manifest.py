"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    s = registry.SPECS.get(p['id'])
    if s is None:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s quick' % p['id'],
        'thorough_cmd': './check %s thorough' % p['id'],
        'technique': s.technique,
        'level': 'exploration',
        'level_note': s.note,
        'evidence_file': 'evidence/%s.json' % p['id'],
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check copies the sources from /repo into a scratch directory, drives them under PyPy with '
              'Hypothesis-generated cases and compares with an oracle that does not use the code under test.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

"""Regenerates MANIFEST.json from the list of check modules present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness/checks', i.lower() + '.py')):
        n = notes[i]
        checks.append(dict(
            property=i, quick_cmd='./run.sh %s quick' % i,
            thorough_cmd='./run.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification %s checked with TLC; %s' % (n['spec'], n['bind']),
            level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get(
            'na', 'check under construction')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=na,
         notes='No hooks in /repo: the specifications are bound through the '
               'public API (callbacks, sources, generator objects).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

"""Regenerates DESIGN.md from design.in.md, notes, costs, findings, seeded bugs."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(p, default=None):
    p = os.path.join(V, p)
    return json.load(open(p)) if os.path.exists(p) else default


notes, costs = load('tools/notes.json'), load('tools/costs.json', {})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
rows = ['| | Property | Specification | Bounds and trust | Cost (s) | States, traces (quick) |',
        '|---|---|---|---|---|---|']
for p in props:
    n, c = notes[p['id']], costs.get(p['id'], {})
    q, t = c.get('quick', {}), c.get('thorough', {})
    rows.append('| %s | %s | %s | %s | %s / %s | %s, %s |' % (
        p['id'], p['title'], n['spec'], n['note'], q.get('s', ''), t.get('s', ''),
        q.get('states', ''), q.get('traces', '')))
fixes = ['* ' + f[len('fixed: '):] for f in load('known_findings.json')['fixed']]
res = load('tools/seeded.json', {})
seeded = ['| Bug | Property | Needs | Caught by | |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    name = os.path.basename(os.path.dirname(d))
    m, r = json.load(open(d)), res.get(name, {})
    seeded.append('| %s | %s | %s | %s | %s |' % (
        name, m['property'], m['needs'], r.get('caught', ''), r.get('note', '')))
text = open(os.path.join(V, 'tools/design.in.md')).read()
for k, v in (('TABLE', rows), ('FIXES', fixes), ('SEEDED', seeded)):
    text = text.replace('{{%s}}' % k, '\n'.join(v))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)

"""Runs checks and records their costs: costs.py quick|thorough [PROPERTY...]"""
import json
import os
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, 'tools/costs.json')
tier = sys.argv[1]
names = sys.argv[2:] or ['C%02d' % i for i in range(1, 28)]
for n in names:
    t = time.time()
    rc = subprocess.run([V + '/run.sh', n, tier], stdout=subprocess.DEVNULL,
                        stderr=subprocess.DEVNULL).returncode
    e = json.load(open('%s/evidence/%s.json' % (V, n)))['coverage']
    costs = json.load(open(F)) if os.path.exists(F) else {}
    costs.setdefault(n, {})[tier] = dict(
        s=round(time.time() - t), states=e['states'],
        traces=e['traces_validated_against_impl'])
    print(n, tier, rc, costs[n][tier], flush=True)
    json.dump(costs, open(F, 'w'), indent=1, sort_keys=True)

"""merge_evidence.py OUT MAIN [KEY=PART...]: one evidence file for the runs of several builds."""
import json
import os
import sys

out, main, *parts = sys.argv[1:]
with open(main) as f:
    ev = json.load(f)
for part in parts:
    key, path = part.split('=', 1)
    with open(path) as f:
        more = json.load(f)
    ev['wall_s'] = round(ev['wall_s'] + more['wall_s'], 2)
    ev['violations'] += more['violations']
    cov = more.get('coverage', more)
    ev['coverage'][key] = {k: cov[k] for k in ('evaluations', 'distinct_nontrivial')}
    if 'coverage' not in more:
        ev['coverage'][key].update(rule=cov['rule'], samples=cov['samples'], labels=cov['labels'])
    os.unlink(path)
with open(out, 'w') as f:
    json.dump(ev, f, indent=1)
os.unlink(main)

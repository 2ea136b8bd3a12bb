"""Records, on the tree as it is, the literals of the package and the lines each check does not reach
(workload guidance only): python3 tools/baseline.py [Cxx ...]"""
import json
import os
import subprocess
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
from gostmon import target  # noqa: E402
os.makedirs(target.BASELINE, exist_ok=True)
with open(os.path.join(target.BASELINE, 'constants.json'), 'w', encoding='utf-8') as fh:
    json.dump(dict(sorted(target.constants().items())), fh, indent=0, ensure_ascii=False)
    fh.write('\n')
with open(os.path.join(target.BASELINE, 'bodies.json'), 'w', encoding='utf-8') as fh:
    json.dump(target.bodies(), fh, indent=0, sort_keys=True)
    fh.write('\n')
ids = sys.argv[1:] or [json.loads(x)['id'] for x in open('properties.jsonl', encoding='utf-8')]
for p in ids:
    path = os.path.join(target.BASELINE, p + '.json')
    if os.path.exists(path):
        os.unlink(path)
    for seed in (1, 2, 3):
        r = subprocess.run([sys.executable, 'check.py', p, '--seed', str(seed), '--evidence', '/tmp/ev_base'],
                           env=dict(os.environ, GOSTMON_BASELINE='1'), capture_output=True, text=True)
        print(p, seed, r.returncode, r.stdout.strip().splitlines()[-1:], r.stderr[-300:])
    print(len(json.load(open(path, encoding='utf-8'))), 'texts not reached')

#!/usr/bin/env python3
"""Run the check of every planted bug against a scratch copy of the
repository with the bug in it; write tools/seeded_results.json.

run_seeded.py [id...]
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'tools', 'seeded_results.json')
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
sd = os.path.join(ROOT, 'seeded')
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(sd, k))}
for n in sys.argv[1:] or sorted(os.listdir(sd)):
    meta = json.load(open(os.path.join(sd, n, 'meta.json')))
    sc = '/tmp/seeded_%d' % os.getpid()
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run('cp -a /repo %s && git -C %s checkout -q -- . && '
                   'git -C %s apply %s/%s/patch.diff' % (sc, sc, sc, sd, n),
                   shell=True, check=True)
    try:
        p = subprocess.run(
            ['timeout', '900', './check', meta['property'], 'quick'],
            cwd=ROOT, capture_output=True, text=True,
            env=dict(os.environ, VERIF_REPO=sc, VERIF_SEED='1',
                     VERIF_TIER='quick'))
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    where = [x.strip() for x in p.stdout.splitlines()
             if x.strip().startswith('scenario ')]
    if p.returncode == 1 and 'VIOLATION property=' in p.stdout:
        res[n] = '%s: %s' % (meta['property'], where[0] if where else '')
    else:
        res[n] = 'not reported (exit %d)' % p.returncode
    print(n, res[n], flush=True)
    json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)

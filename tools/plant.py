#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and write seeded/<id>/.

plant.py FILE...   each FILE defines SEEDS: a list of dictionaries with id,
property, edits [(file, old, new)], demo (Python text), needs, what.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/sh
# run in the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def plant(s):
    sc = '/tmp/plant_%d' % os.getpid()
    shutil.rmtree(sc, ignore_errors=True)
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (sc, sc))
    try:
        out = os.path.join('/tmp/planted', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip())
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        d = sh('sh %s/demo.sh' % out, cwd=sc)
        if d.returncode:
            return 'demo fails on the clean tree: ' + d.stderr[-400:]
        for f, old, new in s['edits']:
            p = os.path.join(sc, f)
            t = open(p, encoding='utf-8').read()
            # blank lines may be left out of the text to look for
            ls = [x for x in old.split('\n') if x.strip()]
            pat = r'\n(?:[ ]*\n)*'.join(re.escape(x) for x in ls)
            n = len(re.findall(pat, t))
            if n != 1:
                return 'edit found %d times: %s' % (n, old[:60])
            new = new.strip('\n')
            t = re.sub(pat, lambda m: new, t)
            open(p, 'w', encoding='utf-8').write(t)
        diff = sh('git diff', cwd=sc).stdout
        base = sh('git diff 2df3205 HEAD --unified=0', cwd=sc).stdout
        ours = {x[1:] for x in base.splitlines() if x.startswith('+')}
        gone = [x[1:] for x in diff.splitlines() if x.startswith('-') and
                not x.startswith('---') and x[1:].strip()]
        if gone and all(x in ours for x in gone):
            return 'changes only lines of our own commits'
        d = sh('sh %s/demo.sh' % out, cwd=sc)
        if not d.returncode:
            return 'demo passes with the change'
        open(out + '/patch.diff', 'w').write(diff)
        t = open('/opt/vp/test.sh').read().replace('/repo', sc)
        tf = sc + '.test.sh'
        open(tf, 'w').write(t)
        sh('bash %s %s.json' % (tf, sc))
        passed = json.load(open(sc + '.json'))['passed']
        miss = [x for x in BASE if x not in passed]
        if miss:
            return 'tests fail: %s' % miss[:3]
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['what']},
                  open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, VERIF_REPO=sc, VERIF_SEED='1',
                   VERIF_TIER='quick')
        c = sh('timeout 900 ./check %s quick' % s['property'], cwd=ROOT,
               env=env)
        v = [x for x in c.stdout.splitlines() if x.startswith('VIOLATION')]
        dst = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'planted; check exit %d %s' % (
            c.returncode, 'caught' if c.returncode == 1 and v else
            'MISSED: ' + (c.stdout + c.stderr)[-300:])
    finally:
        shutil.rmtree(sc, ignore_errors=True)
        for x in ('.test.sh', '.json'):
            if os.path.exists(sc + x):
                os.remove(sc + x)


only = [x[1:] for x in sys.argv[1:] if x[0] == '=']
os.environ.pop("VERIF_REPO", None)
for fn in [x for x in sys.argv[1:] if x[0] != '=']:
    for s in runpy.run_path(fn)['SEEDS']:
        if not only or s['id'] in only:
            print(s['id'], plant(s), flush=True)

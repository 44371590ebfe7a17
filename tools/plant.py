"""Plants bugs: writes /verif/seeded/<id>/ from a specification and tries each one in a scratch copy.

usage: plant.py SPEC.py [id ...]      SPEC.py defines BUGS: a list of dicts with id, property, edits, needs, breaks, demo
       plant.py --run [id ...]        runs the checks against the planted bugs that exist
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(ROOT, 'seeded'))
PY = '/opt/venv/bin/python'
HEAD = """import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import numpy as np
import spaudiopy as spa
assert os.path.dirname(os.path.dirname(os.path.abspath(spa.__file__))) == os.path.realpath(os.getcwd())
"""


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/mpl', **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors='replace')


def scratch(name):
    d = '/tmp/plant-%s' % name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def check(bug, d, runs=None):
    rc, out = sh('python3 %s/check.py %s' % (ROOT, bug['property']), timeout=900, env=dict(VERIF_REPO=d, VERIF_SEED='1'))
    line = [l for l in out.splitlines() if 'run' in l][:1]
    return ('CAUGHT' if rc == 1 and 'VIOLATION property=%s' % bug['property'] in out else 'missed (rc %d)' % rc), \
        (line or [out[-300:]])[0][:300]


def plant(bug, tests=True):
    d = scratch(bug['id'])
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %s' % (s.count(old), f, old[:60]), ''
            open(p, 'w').write(s.replace(old, new))
        rc, patch = sh('git diff', cwd=d)
        t = os.path.join(SEEDED, bug['id'])
        os.makedirs(t, exist_ok=True)
        open(os.path.join(t, 'patch.diff'), 'w').write(patch)
        body = bug['demo']
        with open(os.path.join(t, 'demo.py'), 'w') as f:
            f.write(body if 'RAW' in body[:8] else HEAD + body)
        with open(os.path.join(t, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(os.path.join(t, 'meta.json'), 'w'), indent=1)
        r0, o0 = sh('bash %s/demo.sh' % t, cwd='/repo', timeout=300)
        r1, o1 = sh('bash %s/demo.sh' % t, cwd=d, timeout=300)
        if r0 != 0:
            return 'DEMO FAILS ON CLEAN', o0[-400:]
        if r1 == 0:
            return 'DEMO PASSES WITH BUG', o1[-400:]
        if tests:
            rc, out = sh('%s -m pytest -q -p no:cacheprovider --timeout=300 tests' % PY, cwd=d)
            if rc != 0:
                return 'TESTS FAIL', out[-600:]
        return check(bug, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def existing(name):
    d = scratch(name)
    try:
        t = os.path.join(SEEDED, name)
        rc, out = sh('git apply %s/patch.diff' % t, cwd=d)
        if rc:
            return 'PATCH DOES NOT APPLY', out[-200:]
        return check(json.load(open(os.path.join(t, 'meta.json'))), d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == '--run':
        for n in a[1:] or sorted(os.listdir(SEEDED)):
            print('%-28s %s | %s' % ((n,) + existing(n)), flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    for b in ns['BUGS']:
        if a[1:] and b['id'] not in a[1:]:
            continue
        print('%-28s %s | %s' % ((b['id'],) + plant(b)), flush=True)


main()

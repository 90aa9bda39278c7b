"""Plants bugs described in a spec file in scratch copies of /repo, confirms
them (tests pass, the demonstration tells the trees apart), runs the check of
the property on the copy and writes /verif/seeded/<id>/.

usage: plant.py spec.py [id...]     spec.py: BUGS = [dict(id, property, file,
       old, new (or edits=[(file, old, new), ...]), needs, breaks, demo)]
       plant.py --measure [id...]   runs the checks on the planted bugs kept
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(
    ['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'],
    text=True).strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


LOCK = threading.Lock()


def sh(cmd, cwd, env=None, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=t, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def copy():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def check(prop, r):
    out = {}
    for p in prop if isinstance(prop, list) else [prop]:
        rc, o = sh(['bash', 'run_check.sh', p, 'quick'], VERIF,
                   dict(os.environ, AUXI_REPO=r, VERIF_SEED=os.environ.get(
                       'VERIF_SEED', '1')), 900)
        out[p] = 'caught' if rc == 1 and 'VIOLATION property=%s ' % p in o \
            else 'MISSED' if rc == 0 else 'rc%d %s' % (rc, o[-300:])
    return out


def note(i, res):
    with LOCK:
        f = os.path.join(VERIF, 'tools', 'measured.json')
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[i] = res
        json.dump(d, open(f, 'w'), indent=0, sort_keys=True)


def plant(b):
    d, r = copy()
    try:
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'old text found %d times in %s' % (
                    s.count(old), f)
            n = s[:s.index(old)].count('\n') + 1
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh(['git', 'diff'], r)
        # removed lines have to be of the original
        for f in {e[0] for e in edits}:
            _, df = sh(['git', 'diff', '-U0', '--', f], r)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', df, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                if c:
                    _, bl = sh(['git', 'blame', '-l', '-s', '-L', '%d,+%d'
                                % (a, c), 'HEAD', '--', f], r)
                    for line in bl.splitlines():
                        if line.split()[0].lstrip('^')[:30] != BASE[:30]:
                            return b['id'], 'NOT ORIGINAL: ' + line
        seeded = os.path.join(VERIF, 'seeded', b['id'])
        tmp = os.path.join(d, 'demo')
        os.makedirs(tmp)
        open(os.path.join(tmp, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(tmp, 'demo.sh'), 'w').write(
            '#!/bin/bash\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
            'PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        env = dict(os.environ)
        c0, o0 = sh(['bash', os.path.join(tmp, 'demo.sh')], '/repo', env, 250)
        c1, o1 = sh(['bash', os.path.join(tmp, 'demo.sh')], r, env, 250)
        if c0 != 0 or c1 == 0:
            return b['id'], 'DEMO: unchanged %d, changed %d\n%s\n%s' % (
                c0, c1, o0[-600:], o1[-600:])
        t = open('/opt/vp/test.sh').read().replace('/repo', r)
        open(os.path.join(d, 't.sh'), 'w').write(t)
        sh(['bash', os.path.join(d, 't.sh'), os.path.join(d, 'o.json')], d)
        passed = set(json.load(open(os.path.join(d, 'o.json')))['passed'])
        if STABLE - passed:
            return b['id'], 'TESTS FAIL: %s' % sorted(STABLE - passed)[:3]
        res = check(b.get('checks', b['property']), r)
        note(b['id'], res)
        os.makedirs(seeded, exist_ok=True)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(tmp, n), seeded)
        open(os.path.join(seeded, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(seeded, 'meta.json'), 'w'), indent=1)
        return b['id'], 'planted; %s' % res
    except Exception as e:
        return b['id'], 'ERROR %r' % e
    finally:
        shutil.rmtree(d)


def measure(i):
    d, r = copy()
    try:
        m = json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))
        rc, o = sh(['git', 'apply', os.path.join(
            VERIF, 'seeded', i, 'patch.diff')], r)
        if rc:
            return i, 'does not apply: ' + o
        res = check(m['property'], r)
        note(i, res)
        return i, str(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == '--measure':
        todo = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF,
                                                              'seeded')))
        fn = measure
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        todo = [b for b in ns['BUGS']
                if not sys.argv[2:] or b['id'] in sys.argv[2:]]
        fn = plant
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(fn, todo):
            print(i, r, flush=True)

"""Confirms that each planted bug still applies, touches lines of the original
repository, and is told apart by its demonstration (tests are not run)."""
import os
import re
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import BASE, VERIF, copy, sh  # noqa: E402


def blame(r, f, n):
    if n < 1:
        return True
    rc, o = sh(['git', 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), 'HEAD',
                '--', f], r)
    return rc != 0 or o.split()[0].lstrip('^')[:30] == BASE[:30]


def one(i):
    d, r = copy()
    try:
        p = os.path.join(VERIF, 'seeded', i)
        if sh(['git', 'apply', os.path.join(p, 'patch.diff')], r)[0]:
            return i, 'DOES NOT APPLY'
        own = []
        for f in sh(['git', 'diff', '--name-only'], r)[1].split():
            df = sh(['git', 'diff', '-U0', '--', f], r)[1]
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', df, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                ls = range(a, a + c) if c else (a, a + 1)
                own += [blame(r, f, n) for n in ls]
        why = '' if any(own) else 'NOT ORIGINAL '
        if not all(own):
            why += '(own lines touched: %d of %d)' % (own.count(False),
                                                      len(own))
        env = dict(os.environ)
        demo = os.path.join(d, 'demo')
        shutil.copytree(p, demo)
        a = sh(['bash', os.path.join(demo, 'demo.sh')], '/repo', env, 250)[0]
        b = sh(['bash', os.path.join(demo, 'demo.sh')], r, env, 250)[0]
        if a or not b:
            why += ' DEMO %d %d' % (a, b)
        return i, why
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    with ThreadPoolExecutor(6) as ex:
        for i, w in ex.map(one, sys.argv[1:] or sorted(os.listdir(
                os.path.join(VERIF, 'seeded')))):
            if w:
                print(i, w, flush=True)

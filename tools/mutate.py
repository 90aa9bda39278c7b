"""Mutation campaign: which small changes of a source file do neither the
tests of the repository nor the checks notice?

usage: mutate.py OUT.jsonl WORKERS FILE... [--only N]

Every mutant is made in a scratch copy of /repo, first shown to the tests of
its folder; if these pass, to the checks whose properties name the file
(tools/proplist.py), in a scratch copy of /verif without shrinking.  A line of
OUT per mutant: file, line, what, result.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from proplist import PROPS  # noqa

SLOW = ['M02', 'S02', 'B03', 'M04', 'M05', 'P01', 'C03', 'C02', 'F04', 'T01',
        'B04', 'T02', 'B05', 'B06']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult}
COPY = {'deepcopy', 'copy', 'list', 'sorted', 'dict', 'abs', 'array', 'float',
        'set', 'strip', 'lower', 'upper', 'reversed', 'int', 'str', 'clone'}


def sites(tree):
    """(description, apply) of every mutant; apply works on a copy."""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.If) and '__main__' in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id.startswith('__'):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue

        def add(what, fn, i=i, n=n):
            out.append((getattr(n, 'lineno', 0), what, i, fn))
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                new = CMP.get(type(op))
                if new:
                    def f(m, k=k, new=new):
                        m.ops[k] = new()
                    add('%s -> %s' % (type(op).__name__, new.__name__), f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            new = BIN.get(type(n.op))
            if new:
                def f(m, new=new):
                    m.op = new()
                add('%s -> %s' % (type(n.op).__name__, new.__name__), f)
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            add('and <-> or', f)
            for k in range(len(n.values)):
                def f(m, k=k):
                    del m.values[k]
                if len(n.values) > 1:
                    add('condition %d dropped' % k, f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(m):
                m.op = ast.Not()
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            add('not dropped', f)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            def f(m):
                v = m.value
                m.value = v + 1 if type(v) is int else \
                    v * 1.001 if v else 1e-3
            add('constant %r changed' % n.value, f)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            def f(m):
                m.value = not m.value
            add('constant %r inverted' % n.value, f)
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                def f(m, v=v):
                    m.test = ast.Constant(v)
                add('if -> %s' % v, f)
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                def f(m, k=k):
                    del m.ifs[k]
                add('filter dropped', f)
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                n.func.id if isinstance(n.func, ast.Name) else ''
            if nm in COPY:
                arg = n.args[0] if n.args else n.func.value if isinstance(
                    n.func, ast.Attribute) else None
                if arg is not None:
                    def f(m):
                        a = m.args[0] if m.args else m.func.value
                        m.func = ast.Name('_same', ast.Load())
                        m.args, m.keywords = [a], []
                    add('%s() dropped' % nm, f)
            for k, kw in enumerate(n.keywords):
                def f(m, k=k):
                    del m.keywords[k]
                add('argument %s dropped' % kw.arg, f)
            if nm in ('min', 'max'):
                def f(m, nm=nm):
                    m.func = ast.Name('max' if nm == 'min' else 'min',
                                      ast.Load())
                add('min <-> max', f)
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for k, s in enumerate(b):
                if id(s) in skip:
                    continue
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise,
                                  ast.Delete)) or isinstance(s, ast.Expr) \
                        and not isinstance(s.value, ast.Constant):
                    if isinstance(s, ast.Assign) and not isinstance(
                            s.targets[0], (ast.Attribute, ast.Subscript)) \
                            and isinstance(n, (ast.Module, ast.ClassDef)):
                        continue

                    def f(m, k=k, fld=fld):
                        getattr(m, fld)[k] = ast.Pass()
                    out.append((s.lineno, 'statement dropped: %s' %
                                ast.unparse(s)[:60], i, f))
                if isinstance(s, (ast.Break, ast.Continue)):
                    def f(m, k=k, fld=fld):
                        o = getattr(m, fld)[k]
                        getattr(m, fld)[k] = ast.Continue() if isinstance(
                            o, ast.Break) else ast.Break()
                    out.append((s.lineno, 'break <-> continue', i, f))
    return sorted(out, key=lambda o: (o[0], o[1]))


def mutate(src, i, fn):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[i]
    fn(n)
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    if '_same(' in text:
        k = next((j for j, s in enumerate(tree.body) if not (isinstance(
            s, ast.Expr) and isinstance(s.value, ast.Constant)) and not (
            isinstance(s, ast.ImportFrom) and s.module == '__future__')), 0)
        tree.body.insert(k, ast.parse('def _same(x):\n    return x').body[0])
        ast.fix_missing_locations(tree)
        text = ast.unparse(tree)
    return text + '\n'


def sh(cmd, cwd, t, **env):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **env), text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'timeout'


def main():
    out, workers = sys.argv[1], int(sys.argv[2])
    files = [a for a in sys.argv[3:] if not a.startswith('--')]
    only = [int(a.split('=')[1]) for a in sys.argv if
            a.startswith('--only=')]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['node']))
    work = []
    for f in files:
        src = open('/repo/' + f).read()
        ms = [(f, src) + s for s in sites(ast.parse(src))
              if (f, s[0], s[1], s[2]) not in done]
        if only and len(ms) > only[0]:
            random.Random(1).shuffle(ms)
            ms = ms[:only[0]]
        work += ms
    print(len(work), 'mutants', flush=True)
    lock = threading.Lock()
    it = iter(work)

    def run(w):
        base = '/tmp/mut/w%d' % w
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree('/repo', base + '/repo', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(VERIF, base + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      '__pycache__'))
        p = base + '/verif/pbt/runner.py'
        s = open(p).read()
        open(p, 'w').write(s.replace('(Phase.generate, Phase.shrink)',
                                     '(Phase.generate,)').replace(
            'shards, n, secs = facet.quick_shards, facet.quick,',
            'shards, n, secs = 1, facet.quick if facet.quick < 50 else '
            'max(60, facet.quick * facet.quick_shards * 3 // 10),'))
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            f, src, line, what, i, fn = m
            try:
                text = mutate(src, i, fn)
            except Exception as e:
                continue
            if text == ast.unparse(ast.parse(src)) + '\n':
                continue
            path = base + '/repo/' + f
            open(path, 'w').write(text)
            res = test(base, f)
            if res is None:
                res = checks(base, f)
            open(path, 'w').write(src)
            with lock, open(out, 'a') as o:
                o.write(json.dumps(dict(file=f, line=line, what=what, node=i,
                                        result=res)) + '\n')
        shutil.rmtree(base, ignore_errors=True)

    def test(base, f):
        d = os.path.dirname(f)
        mods = [os.path.join(d, x) for x in sorted(os.listdir(
            base + '/repo/' + d)) if x.endswith('_test.py')]
        for x in mods:
            rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                        '-p', 'no:cacheprovider', '--timeout=60', '-W',
                        'ignore', x], base + '/repo', 200,
                       PYTHONPATH=base + '/repo', MPLBACKEND='Agg',
                       PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       TZ='UTC', OMP_NUM_THREADS='1')
            if rc not in (0, 5) and not broken(x, rc, base):
                return 'tests'
        return None

    bad = {}

    def broken(x, rc, base):
        """Whether a module of tests fails on /repo, too."""
        if x not in bad:
            bad[x] = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                         'no:cacheprovider', x], '/repo', 200,
                        PYTHONPATH='/repo', MPLBACKEND='Agg', TZ='UTC',
                        PYTHONDONTWRITEBYTECODE='1')[0] not in (0, 5)
        return bad[x]

    def checks(base, f):
        ids = [p['id'] for p in PROPS if f in p['files'] and not p['na']]
        ids.sort(key=lambda i: SLOW.index(i) if i in SLOW else -1)
        last = 'SURVIVED'
        for i in ids:
            rc, o = sh(['bash', 'run_check.sh', i, 'quick', '--no-evidence',
                        '--jobs', '1'], base + '/verif', 900,
                       AUXI_REPO=base + '/repo', VERIF_SEED='1')
            if rc == 1:
                return i
            if rc != 0:
                last = '%s rc%d' % (i, rc)
        return last

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(run, range(workers)))


if __name__ == '__main__':
    main()

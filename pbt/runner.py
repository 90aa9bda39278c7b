"""
Runs the facets of one property and writes its evidence.

    python -m pbt.runner S01 quick
    python -m pbt.runner --replay replays/S01-parse.json

A property module (pbt/props/<id>.py) has
    RULE         what makes a generated case non-trivial
    ASSUMPTIONS  list of strings
    FACETS       list of Facet

A facet draws plain-data (JSON) cases from a hypothesis strategy and hands each
to `check(case)`.  `check` returns a truthy label when the case was non-trivial
and raises Violation when the property is broken.  Any other exception counts
as a violation too: the checks only ask for things the property promises.
"""
import argparse
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import queue as queue_mod
import resource
import signal
import sys
import time
import traceback
from contextlib import redirect_stdout

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import Verbosity
from hypothesis.errors import UnsatisfiedAssumption

from pbt.core import Facet, Violation, KnownFinding  # noqa: F401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'known_findings.jsonl')
SHRINK_SECONDS = 40.0
# [s] processor time after which a case counts as hanging
HANG_SECONDS = 60.0
# [B] address space of a worker
MEMORY = 6 << 30
QUICK_SHARDS = 4


class _Stop(BaseException):
    """Ends a search (time is up)."""


def load_known():
    known = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or \
                        line.startswith('fixed:'):
                    continue
                d = json.loads(line)
                known[(d['property'], d['id'])] = d
    return known


def dump(case):
    return json.dumps(case, sort_keys=True, default=repr)


class Hang(Violation):
    pass


def on_hang(*_):
    raise Hang('a call hangs: the case did not end')


def evaluate(facet, case, known, prop, seconds=HANG_SECONDS):
    """-> (label, known_ids, failure or None)"""
    out = io.StringIO()
    hits = []
    try:
        signal.signal(signal.SIGVTALRM, on_hang)
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
        try:
            with redirect_stdout(out):
                label = facet.check(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if isinstance(label, KnownFinding):
            raise label
        return label, hits, None
    except UnsatisfiedAssumption:
        raise
    except KnownFinding as k:
        for f in k.findings:
            if (prop, f) not in known:
                return None, hits, ('%s (finding %s is not listed)' % (k, f),
                                    None)
        hits.extend(k.findings)
        return 'known:' + '+'.join(k.findings), hits, None
    except Violation as v:
        return None, hits, (str(v), None)
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc(limit=-6)
        return None, hits, ('unexpected %s: %s' % (type(e).__name__, e), tb)


def run_facet(prop, facet, n, seed_value, seconds, conn):
    """Runs in a child process; sends one result dict."""
    known = load_known()
    st = {'n': 0, 'nontrivial': set(), 'samples': {}, 'known': {},
          'best': None, 'first': None, 'labels': {}}
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))

    def body(case):
        now = time.time()
        if st['first'] is not None:
            if now - st['first'] > SHRINK_SECONDS:
                raise _Stop()
        elif now - t0 > seconds:
            raise _Stop()
        label, hits, failure = evaluate(
            facet, case, known, prop,
            HANG_SECONDS if st['first'] is None else 10.0)
        if st['first'] is None:
            st['n'] += 1
            for h in hits:
                st['known'][h] = st['known'].get(h, 0) + 1
                st['samples'].setdefault('known:' + h, dump(case))
            if label:
                text = dump(case)
                st['nontrivial'].add(
                    hashlib.blake2b(text.encode(), digest_size=8).digest())
                lab = label if isinstance(label, str) else 'nontrivial'
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
                if lab not in st['samples'] or (
                        st['n'] % 97 == 0 and len(text) < 600):
                    st['samples'][lab] = text
        if failure is not None:
            if st['first'] is None:
                st['first'] = time.time()
            text = dump(case)
            if st['best'] is None or len(text) <= len(st['best'][0]):
                st['best'] = (text, case, failure)
            raise AssertionError(failure[0])

    harness_error = None
    try:
        os.chdir(os.environ.get('PBT_SCRATCH', '/tmp'))
        for case in facet.examples:
            try:
                body(case)
            except AssertionError:
                break
        if st['best'] is None:
            test = given(facet.strategy)(body)
            test = settings(
                max_examples=n, database=None, deadline=None,
                derandomize=False, report_multiple_bugs=False,
                print_blob=False, verbosity=Verbosity.quiet,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))(test)
            test = seed(seed_value)(test)
            test()
    except _Stop:
        pass
    except BaseException:
        if st['best'] is None:
            harness_error = traceback.format_exc()
    res = {'facet': facet.name, 'n': st['n'],
           'nontrivial': [h.hex() for h in st['nontrivial']],
           'samples': st['samples'], 'known': st['known'],
           'labels': st['labels'],
           'seconds': round(time.time() - t0, 2),
           'harness_error': harness_error, 'violation': None}
    if st['best'] is not None:
        res['violation'] = {'case': json.loads(st['best'][0]),
                            'message': st['best'][2][0],
                            'traceback': st['best'][2][1]}
    conn.put(res)


def run_all(prop, module, tier, base_seed, jobs, only=None):
    tasks = []
    for i, facet in enumerate(module.FACETS):
        if only and facet.name not in only:
            continue
        if tier == 'thorough':
            shards, n, secs = 4, facet.thorough, facet.thorough_seconds
        else:
            shards, n, secs = facet.quick_shards, facet.quick, \
                facet.quick_seconds
            if n >= 50:  # not those that only go through a fixed list
                shards *= QUICK_SHARDS
        for s in range(shards):
            h = hashlib.sha256(('%s/%s/%s/%s' % (
                base_seed, prop, facet.name, s)).encode()).digest()
            tasks.append((facet, n, int.from_bytes(h[:6], 'big'), secs))
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    running, results = [], []
    todo = list(tasks)
    hung = False
    while todo or running:
        while todo and len(running) < jobs:
            facet, n, sv, secs = todo.pop(0)
            p = ctx.Process(target=run_facet,
                            args=(prop, facet, n, sv, secs, q))
            p.start()
            running.append((p, facet, time.time(), secs))
        try:
            results.append(q.get(timeout=1.0))
        except queue_mod.Empty:
            pass
        alive = []
        for (p, facet, t0, secs) in running:
            if p.is_alive():
                if time.time() - t0 > secs + SHRINK_SECONDS + 60:
                    p.kill()
                    hung = True
                    results.append({
                        'facet': facet.name, 'n': 0, 'nontrivial': [],
                        'samples': {}, 'known': {}, 'labels': {},
                        'seconds': time.time() - t0, 'harness_error': None,
                        'violation': {
                            'case': None,
                            'message': 'the search did not return within its '
                                       'time limit: a call hangs',
                            'traceback': None}})
                else:
                    alive.append((p, facet, t0, secs))
            else:
                p.join()
                if p.exitcode != 0:
                    results.append({
                        'facet': facet.name, 'n': 0, 'nontrivial': [],
                        'samples': {}, 'known': {}, 'labels': {},
                        'seconds': 0, 'violation': None,
                        'harness_error': 'worker died with exit code %r'
                        % p.exitcode})
        running = alive
        if hung:  # the others would only hang as well
            for (p, _, _, _) in running:
                p.kill()
            return results
    while len(results) < len(tasks):
        results.append(q.get(timeout=10))
    return results


def write_evidence(prop, module, tier, base_seed, results, wall, nviol):
    cov_n = sum(r['n'] for r in results)
    distinct = set()
    samples = []
    per = {}
    for r in results:
        distinct |= {(r['facet'], h) for h in r['nontrivial']}
        d = per.setdefault(r['facet'], {'n': 0, 'labels': {}})
        d['n'] += r['n']
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        for lab, s in sorted(r['samples'].items())[:4]:
            if len(samples) < 24:
                samples.append({'facet': r['facet'], 'label': lab,
                                'case': s if len(s) <= 1500
                                else s[:1500] + '...'})
    ev = {
        'property': prop, 'tier': tier, 'seed': base_seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': cov_n,
            'distinct_nontrivial': len(distinct),
            'rule': module.RULE + ' Facets: ' + '; '.join(
                '%s (%d cases)' % (k, v['n']) for k, v in per.items()),
            'samples': samples,
        },
        'wall_s': round(wall, 2),
        'violations': nviol,
        'assumptions': list(module.ASSUMPTIONS),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)
    return per


def load_module(prop):
    return importlib.import_module('pbt.props.' + prop.lower())


def repo_does_not_load(e):
    """Whether e, raised on import, was raised by the code under test."""
    repo = os.path.realpath(os.environ['AUXI_REPO']) + os.sep
    if isinstance(e, SyntaxError):
        last = e.filename or ''
    else:
        last = [f.filename for f in traceback.extract_tb(e.__traceback__)
                if not f.filename.startswith('<frozen')][-1]
    return os.path.realpath(last).startswith(repo)


def load_violation(prop, e):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-load.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'facet': '__load__', 'case': None,
                   'message': '%s: %s' % (type(e).__name__, e)}, f, indent=1)
    print('%s: the code under test does not load: %s: %s' % (
        prop, type(e).__name__, e))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d['property']
    if d['facet'] == '__load__':
        try:
            load_module(prop)
        except Exception as e:
            if not repo_does_not_load(e):
                raise
            return load_violation(prop, e)
        print('replay passes')
        return 0
    module = load_module(prop)
    facet = {f.name: f for f in module.FACETS}[d['facet']]
    _, hits, failure = evaluate(facet, d['case'], load_known(), prop)
    if failure:
        print(failure[0])
        if failure[1]:
            print(failure[1])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for h in hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, h))
    print('replay passes')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--facet', action='append')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(os.path.abspath(
            a.replay if os.path.exists(a.replay)
            else os.path.join(VERIF, a.replay)))
    base_seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    prop = a.property
    try:
        with redirect_stdout(io.StringIO()):
            module = load_module(prop)
    except Exception as e:
        traceback.print_exc()
        if repo_does_not_load(e):
            return load_violation(prop, e)
        print('HARNESS-ERROR property=%s: the check does not load' % prop)
        return 2
    results = run_all(prop, module, a.tier, base_seed, a.jobs, a.facet)
    known = load_known()
    errors = [r for r in results if r['harness_error']]
    violations = {}
    for r in results:
        if r['violation']:
            old = violations.get(r['facet'])
            if old is None or len(dump(r['violation']['case'])) < \
                    len(dump(old['case'])):
                violations[r['facet']] = r['violation']
    per = {}
    if not a.no_evidence:
        per = write_evidence(prop, module, a.tier, base_seed, results,
                             time.time() - t0, len(violations))
    for r in errors:
        print('HARNESS-ERROR property=%s facet=%s\n%s' % (
            prop, r['facet'], r['harness_error']))
    # every known finding that belongs to this property, by its own witness
    seen = {}
    for r in results:
        for k, v in r['known'].items():
            seen[k] = seen.get(k, 0) + v
    for (p, fid), d in sorted(known.items()):
        if p == prop and seen.get(fid):
            print('KNOWN-FINDING: property=%s %s: %s (%d generated cases)' % (
                prop, fid, d['what'], seen[fid]))
    for facet, v in sorted(violations.items()):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, facet))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'facet': facet, 'case': v['case'],
                       'message': v['message'],
                       'traceback': v['traceback']}, f, indent=1)
        print('%s/%s: %s' % (prop, facet, v['message']))
        if v['traceback'] and a.v:
            print(v['traceback'])
        print('case: %s' % dump(v['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if a.v:
        for k, v in per.items():
            print('  %s: %d cases %s' % (k, v['n'], v['labels']))
    n = sum(r['n'] for r in results)
    print('property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d '
          'violations=%d wall=%.1fs' % (
              prop, a.tier, base_seed, n,
              len({(r['facet'], h) for r in results for h in r['nontrivial']}),
              len(violations), time.time() - t0))
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

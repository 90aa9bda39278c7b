"""Facets, violations and comparison helpers shared by the property modules."""
import math
import os
import shutil
import tempfile
from contextlib import contextmanager


class Violation(Exception):
    pass


class KnownFinding(Exception):
    """The case fails in exactly the way of one or more listed findings."""

    def __init__(self, findings, msg):
        super().__init__(msg)
        self.findings = [findings] if isinstance(findings, str) \
            else list(findings)


class Facet:
    def __init__(self, name, strategy, check, quick=300, thorough=6000,
                 quick_seconds=150, thorough_seconds=280, quick_shards=1,
                 examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.quick_seconds = quick_seconds
        self.thorough_seconds = thorough_seconds
        self.quick_shards = quick_shards
        self.examples = list(examples)


def req(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def isclose(a, b, rel=1e-9, abs_=1e-12):
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def close(a, b, what, rel=1e-9, abs_=1e-12):
    try:
        ok = isclose(a, b, rel, abs_)
    except (TypeError, ValueError):
        raise Violation('%s: not a number: got %r, expected %r'
                        % (what, a, b))
    if not ok:
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def close_list(a, b, what, rel=1e-9, abs_=1e-12):
    a = list(a)
    b = list(b)
    if len(a) != len(b):
        raise Violation('%s: lengths differ: got %d, expected %d'
                        % (what, len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        close(x, y, '%s[%d]' % (what, i), rel, abs_)


def same(a, b, what):
    if not (a == b):
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def raises(what, exc, fn, *args, **kw):
    """fn must raise an exception of one of the types in exc."""
    try:
        r = fn(*args, **kw)
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (
            what, exc, type(e).__name__, e))
    raise Violation('%s: expected a rejection (%s), returned %r'
                    % (what, exc, r))


@contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix='case', dir=os.environ.get('PBT_SCRATCH'))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)

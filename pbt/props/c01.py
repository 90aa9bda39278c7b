"""C01: the clock."""
from datetime import datetime

from hypothesis import strategies as st

from auxi.core.time import Clock, TimePeriod
from pbt import caltime as cal
from pbt.core import Facet, KnownFinding, req, same
from pbt.gen_time import moments, periods

RULE = ('non-trivial: at least one tick, or a period index other than 0; '
        'month-end and leap-day starts are labelled.')
ASSUMPTIONS = ['start between 1900 and 2100, at most 5000 periods after the start or '
               '100 before',
               'naive datetimes']


def make(case):
    return Clock('clock', description='d', start_datetime=cal.dt(
        case['start']), timestep_period_duration=TimePeriod[case['period']],
        **({} if case.get('count') is None
           else {'timestep_period_count': case['count']}))


def label(case):
    d = case['start']
    if d[1] == 2 and d[2] == 29:
        return 'leap day'
    if d[2] > 28:
        return 'month end'
    return case['period']


def check_at(case):
    c = make(case)
    s = cal.dt(case['start'])
    prev = None
    for ix in sorted(case['ixs']):
        got = c.get_datetime_at_period_ix(ix)
        same(got, cal.at(s, case['period'], ix), 'period %d of a %s clock '
             'from %s' % (ix, case['period'], s))
        req(prev is None or got >= prev, 'time runs backwards at %d', ix)
        prev = got
    same(c.get_datetime(), s, 'clock after only being asked')
    same(c.timestep_ix, 0, 'timestep index')
    same((c.name, c.description, c.timestep_period_count),
         ('clock', 'd', case.get('count') or 1), 'name, description and count')
    # a clock without settings counts months from the first moment
    d = Clock('d')
    for ix in case['ixs']:
        if ix >= 0:
            same(d.get_datetime_at_period_ix(ix), cal.at(
                datetime.min, 'month', ix), 'period %d of a default clock' % ix)
    return label(case) if any(case['ixs']) else None


def check_run(case):
    """Histories of ticks, resets and questions against a counter."""
    c = make(case)
    s = cal.dt(case['start'])
    n = 0
    case = dict(case)
    for op in case['ops']:
        if op[0] == 'tick':
            for _ in range(op[1]):
                c.tick()
            n += op[1]
        elif op[0] == 'reset':
            c.reset()
            n = 0
        elif op[0] == 'start':
            # the clock is set to another start
            s = cal.dt(op[1])
            c.start_datetime = s
        elif op[0] == 'period':
            case['period'] = op[1]
            c.timestep_period_duration = TimePeriod[op[1]]
        else:
            same(c.get_datetime_at_period_ix(op[1]),
                 cal.at(s, case['period'], op[1]), 'period %d' % op[1])
        same(c.timestep_ix, n, 'timestep index after %s' % case['ops'])
        same(c.get_datetime(), cal.at(s, case['period'], n),
             'time after %d ticks of a %s clock from %s'
             % (n, case['period'], s))
        same(c.start_datetime, s, 'start of the clock')
    return label(case) if n else None


def check_two(case):
    """Clocks do not share state; a time step is a number of periods."""
    a, b = make(case), make(dict(case, count=None))
    s = cal.dt(case['start'])
    for _ in range(case['n']):
        a.tick()
    same(b.timestep_ix, 0, 'index of another clock')
    same(b.get_datetime(), s, 'time of another clock')
    same(a.timestep_period_count, case['count'], 'period count')
    got = a.get_datetime()
    want = cal.at(s, case['period'], case['n'] * case['count'])
    if got != want:
        if got == cal.at(s, case['period'], case['n']):
            raise KnownFinding('C01-period-count', 'a time step of %d periods '
                               'advances the clock by one' % case['count'])
        same(got, want, 'time after %d steps of %d periods'
             % (case['n'], case['count']))
    return 'count' if case['n'] else None


FACETS = [
    Facet('at', st.fixed_dictionaries({
        'start': moments(), 'period': periods,
        'ixs': st.lists(st.one_of(st.integers(0, 60), st.integers(-100, 0),
                                  st.integers(0, 5000)),
                        min_size=1, max_size=8)}).filter(
        lambda c: c['period'] != 'year' or max(c['ixs']) < 3000),
        check_at, quick=3200, thorough=30000),
    Facet('run', st.fixed_dictionaries({
        'start': moments(), 'period': periods,
        'ops': st.lists(st.one_of(
            st.tuples(st.just('tick'), st.integers(1, 30)),
            st.tuples(st.just('tick'), st.just(1)),
            st.tuples(st.just('reset'), st.just(0)),
            st.tuples(st.just('start'), moments()),
            st.tuples(st.just('period'), periods),
            st.tuples(st.just('ask'), st.integers(-50, 500))).map(list),
            min_size=1, max_size=14)}), check_run, quick=2000,
        thorough=20000),
    Facet('count', st.fixed_dictionaries({
        'start': moments(), 'period': periods, 'n': st.integers(0, 30),
        'count': st.integers(1, 6)}), check_two, quick=800, thorough=5000),
]

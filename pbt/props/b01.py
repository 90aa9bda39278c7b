"""B01: an activity executes in exactly the periods of its schedule."""
from datetime import datetime

from hypothesis import strategies as st

from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.basic import BasicActivity
from auxi.modelling.business.structure import Activity
from auxi.modelling.financial.des import GeneralLedger
from pbt import bizref as biz
from pbt import caltime as cal
from pbt.core import Facet, req, same
from pbt.gen_time import moments, periods

RULE = ('non-trivial: the activity executes in some but not all periods of '
        'the run.')
ASSUMPTIONS = ['runs of at most 60 periods; an activity is due when a whole '
               'number of intervals has passed since the start of the run']


STEP = {'millisecond': 0.001, 'second': 1, 'minute': 60, 'hour': 3600,
        'day': 86400, 'week': 7 * 86400, 'month': 30 * 86400,
        'year': 365 * 86400}


@st.composite
def schedules(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(10, 40)))
    period = draw(periods)
    step = STEP[period]
    jit = st.sampled_from([0, 0, 0.5 * step, -0.5 * step, min(1, 0.1 * step),
                           -min(1, 0.1 * step)])
    where = [st.integers(-3, n + 3), st.integers(0, n), st.integers(0, 6),
             st.integers(max(0, n - 3), n + 1)]
    near = st.one_of([st.none()] + [st.tuples(w, jit).map(list)
                                    for w in where])
    if draw(st.booleans()):
        a = draw(st.integers(0, n))
        b = draw(st.integers(a, n + 1))
        near = None
    return {'start': draw(moments(1990, 2060)), 'period': period,
            'count': n,
            'from': [a, draw(jit)] if near is None else draw(near),
            'to': [b, draw(jit)] if near is None else draw(near),
            'interval': draw(st.one_of(st.just(1), st.integers(1, 4),
                                       st.integers(1, n + 1))),
            'dates': step >= 86400 and draw(st.booleans())}


def make(case):
    m = dict(case)
    start = biz.moment(m, case['from'], datetime.min)
    end = biz.moment(m, case['to'], datetime.max)
    s, e = start, end
    if case['dates']:
        # dates as strings
        if case['from'] is not None:
            start = start.replace(hour=0, minute=0, second=0, microsecond=0)
            s = start.strftime('%Y-%m-%d')
        if case['to'] is not None:
            end = end.replace(hour=0, minute=0, second=0, microsecond=0)
            e = end.strftime('%Y-%m-%d')
    kw = {}
    if case['from'] is not None:
        kw['start'] = s
    if case['to'] is not None:
        kw['end'] = e
    a = BasicActivity('act', dt_account='Bank/Default', cr_account='Sales',
                      amount=1, interval=case['interval'], **kw)
    a.set_parent_path('M/E/C')
    clock = Clock('clock', start_datetime=cal.dt(case['start']),
                  timestep_period_duration=TimePeriod[case['period']])
    return a, clock, start, end


def run(a, clock, n):
    gl = GeneralLedger('gl', biz.structure())
    clock.reset()
    a.prepare_to_run(clock, n)
    out = []
    for i in range(n):
        k = len(gl.transactions)
        a.run(clock, gl)
        req(len(gl.transactions) - k <= 1, 'executed twice in period %d', i)
        if len(gl.transactions) > k:
            t = gl.transactions[-1]
            same(t.tx_date, clock.get_datetime(), 'date of period %d' % i)
            out.append(i)
        clock.tick()
    return out


def label(case, out):
    return case['period'] if 0 < len(out) < case['count'] else None


def check_schedule(case):
    d = Activity('d')
    same((d.interval, d.start_datetime, d.end_datetime, d.description),
         (1, datetime.min, datetime.max, None), 'default schedule')
    a, clock, start, end = make(case)
    want = biz.window(case, start, end, case['interval'])
    got = run(a, clock, case['count'])
    same(got, want, 'periods of an activity from %s to %s every %d periods, '
         'in %d periods (%s) from %s' % (
             start, end, case['interval'], case['count'], case['period'],
             clock.start_datetime))
    same(run(a, clock, case['count']), want, 'periods of a second run')
    # a run of another length in between leaves no trace
    run(a, clock, case['count'] // 2 + 1)
    same(run(a, clock, case['count']), want, 'periods of a third run')
    return label(case, got)


def check_bounds(case):
    """Never at or before the start, never after the end, only every
    interval-th period; every such period away from the ends is used."""
    a, clock, start, end = make(case)
    got = run(a, clock, case['count'])
    k = case['interval']
    for i in range(case['count']):
        t = cal.at(cal.dt(case['start']), case['period'], i)
        due = (i + 1) % k == 0
        if i in got:
            req(due, 'executed in period %d, interval %d', i, k)
            req(i == 0 or t > start, 'executed at %s, start %s', t, start)
            req(i == 0 or t <= end, 'executed at %s, end %s', t, end)
        elif due and t > start and i + k <= case['count']:
            nxt = cal.at(cal.dt(case['start']), case['period'], i + k - 1)
            req(nxt > end, 'not executed at %s, from %s to %s', t, start, end)
    # an interval of zero puts no restriction on the periods
    a, clock, start, end = make(dict(case, interval=0))
    every = run(a, clock, case['count'])
    one, clock, start, end = make(dict(case, interval=1))
    req(set(run(one, clock, case['count'])) <= set(every),
        'an interval of zero leaves out periods: %r', every)
    return label(case, got)


@st.composite
def inners(draw):
    c = draw(schedules())
    c['shift'] = draw(st.integers(1, 10))
    return c


def check_nested(case):
    """A later end or an earlier start never takes executions away."""
    a, clock, start, end = make(case)
    if case['to'] is None or case['from'] is None:
        return None
    got = run(a, clock, case['count'])
    b, _, _, _ = make(dict(case, to=[case['to'][0] + case['shift'],
                                     case['to'][1]]))
    later = run(b, clock, case['count'])
    req(set(got) <= set(later), 'a later end takes away %r',
        sorted(set(got) - set(later)))
    b, _, _, _ = make(dict(case, **{'from': [
        case['from'][0] - case['shift'], case['from'][1]]}))
    earlier = run(b, clock, case['count'])
    # (longer intervals need room for a whole interval before the end)
    if end >= cal.dt(case['start']) and case['interval'] == 1:
        req(set(got) <= set(earlier) | {0}, 'an earlier start takes away %r',
            sorted(set(got) - set(earlier)))
    return label(case, got)


edits = st.tuples(schedules(), schedules(), st.sampled_from(
    ['from', 'to', 'interval', 'count', 'start', 'all'])).map(list)


def check_edited(case):
    """The schedule is that of the settings at the time of the run: what they
    were in an earlier run does not matter."""
    old, new, what = case
    if what != 'all':
        new = dict(old, **{what: new[what]})
    a, clock, start, end = make(old)
    run(a, clock, old['count'])
    b, clock, start, end = make(new)
    a.start_datetime, a.end_datetime = b.start_datetime, b.end_datetime
    a.interval = b.interval
    want = biz.window(new, start, end, new['interval'])
    same(run(b, clock, new['count']), want, 'periods of a new activity')
    same(run(a, clock, new['count']), want, 'periods after changing %s from '
         '%r' % (what, {k: old[k] for k in ('from', 'to', 'interval',
                                            'count')}))
    return label(new, want)


FACETS = [
    Facet('edited', edits, check_edited, quick=700, thorough=8000),
    Facet('schedule', schedules(), check_schedule, quick=1500, thorough=15000),
    Facet('bounds', schedules(), check_bounds, quick=1000, thorough=10000),
    Facet('nested', inners(), check_nested, quick=800, thorough=8000),
]

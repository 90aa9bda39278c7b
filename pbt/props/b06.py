"""B06: running a model is repeatable and free of hidden state."""
import copy
from datetime import datetime

from hypothesis import strategies as st

from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from pbt import bizref as biz
from pbt import caltime as cal
from pbt.core import Facet, same
from pbt.gen_time import moments, periods
from pbt.props.b03 import compare

RULE = ('non-trivial: at least one transaction is posted by every run that is '
        'compared (rerun, edits, separate) or at least two periods (clock).')
ASSUMPTIONS = ['siblings have distinct names', 'naive datetimes']

models = biz.models()


def everything(model):
    return [[biz.tx_tuple(t) + (t.is_closing_cr_account,
                                t.is_closing_dt_account)
             for t in e.gl.transactions] for e in model.entities]


def check_rerun(case):
    """Running again, and building again, give the same ledgers; building
    another model in between changes nothing."""
    m = case['model']
    gls = biz.structure() if case['shared'] else None
    model = biz.build(m, gls)
    twin = biz.build(m, gls)
    model.run()
    first = everything(model)
    same(everything(twin), [[] for _ in first], 'ledgers of a twin not run')
    other = biz.build(case['other'], gls)
    other.run()
    twin.run()
    same(everything(model), first, 'ledgers after running another model')
    model.run()
    same(everything(model), first, 'ledgers of a second run')
    model.prepare_to_run()
    same([len(e.gl.transactions) for e in model.entities],
         [0] * len(model.entities), 'transactions after preparing')
    same(model.clock.timestep_ix, 0, 'clock after preparing')
    model.run()
    same(everything(model), first, 'ledgers of a third run')
    # once the horizon is reached nothing more happens
    for e in model.entities:
        e.run(model.clock)
        model.clock.tick()
        e.run(model.clock)
    same(everything(model), first, 'ledgers after running past the end')
    same(everything(twin), first, 'ledgers of a twin')
    again = biz.build(m)
    again.run()
    same(everything(again), first, 'ledgers of an equal model')
    return 'rerun' if any(first) else None


@st.composite
def histories(draw):
    m = draw(biz.models(period=st.sampled_from(['month', 'month', 'year'])))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('count'), st.integers(1, 30)),
        st.tuples(st.just('amount'), st.integers(0, 50),
                  st.integers(1, 1000)),
        st.tuples(st.just('rate'), st.integers(0, 50),
                  st.sampled_from([0.0, 0.1, 0.3])),
        st.tuples(st.just('interval'), st.integers(0, 50),
                  st.integers(1, 4)),
        st.tuples(st.just('add'), st.integers(0, 50), biz.basic()),
        st.tuples(st.just('add'), st.integers(0, 50), biz.loan()),
        st.tuples(st.just('remove'), st.integers(0, 50)),
        st.tuples(st.just('rename'), st.integers(0, 50),
                  st.sampled_from(['R1', 'R2'])),
        st.tuples(st.just('duration'), st.integers(0, 50),
                  st.integers(1, 30)),
        st.tuples(st.just('when'), st.integers(0, 50), st.sampled_from(
            ['start', 'end']), biz.when),
        st.tuples(st.just('accounts'), st.integers(0, 50),
                  biz.ACCOUNT_PAIRS),
        st.tuples(st.just('label'), st.integers(0, 50), st.sampled_from(
            ['name', 'desc']), st.sampled_from(['N1', 'N2', ''])),
        st.tuples(st.just('drop'), st.integers(0, 50)),
        st.tuples(st.just('nest'), st.integers(0, 50), biz.component(
            biz.basic(), 1)),
        st.tuples(st.just('top'), st.integers(0, 50), st.sampled_from(
            ['rename', 'remove', 'add', 'model']), biz.component(
                biz.basic(), 1)),
        st.tuples(st.just('clock'), moments(2000, 2050), st.sampled_from(
            ['month', 'year', 'week'])),
        st.tuples(st.just('stray'), st.integers(0, 50)),
        st.tuples(st.just('stray'), st.integers(0, 50)),
        st.tuples(st.just('run'))).map(list), max_size=9))
    return {'model': m, 'ops': ops, 'first': draw(st.integers(0, 3)) > 0}


def pin(m):
    """Make all moments of activities independent of the clock."""
    def visit(comps):
        for c in comps:
            for a in c['acts']:
                for k in ('start', 'end'):
                    if isinstance(a.get(k), (list, tuple)):
                        a[k] = biz.moment(m, a[k], None).isoformat()
            visit(c['comps'])
    for e in m['entities']:
        visit(e['comps'])


def components(m, model):
    out = []

    def walk(specs, objs):
        for i, (s, o) in enumerate(zip(specs, objs)):
            out.append((s, o, specs, i, objs))
            walk(s['comps'], o.components)
    for e, o in zip(m['entities'], model.entities):
        walk(e['comps'], o.components)
    return out


def check_edits(case):
    """A model that is edited between runs behaves like a new model built
    that way."""
    m = copy.deepcopy(case['model'])
    model = biz.build(m)
    posted = 0
    if case['first']:
        model.run()
        posted = compare(model, m, 'first run')
    for op in case['ops']:
        comps = components(m, model)
        acts = [(a, b) for s, o, _, _, _ in comps
                for a, b in zip(s['acts'], o.activities)]
        if op[0] == 'count':
            m['count'] = op[1]
            model.period_count = op[1]
        elif op[0] == 'run':
            model.run()
            posted += compare(model, m, 'run after %r' % case['ops'])
        elif op[0] == 'stray':
            # posted by hand, and gone with the next run
            for i, e in enumerate(model.entities):
                e.gl.create_transaction(
                    'stray', tx_date=cal.dt(m['start']),
                    dt_account='Bank/Default', cr_account='Sales', amount=7,
                    source=[None, '', e.path, 'x'][(op[1] + i) % 4])
        elif op[0] in ('amount', 'interval') and acts:
            a, b = acts[op[1] % len(acts)]
            a[op[0]] = op[2]
            setattr(b, op[0], op[2])
        elif op[0] == 'rate' and acts:
            a, b = acts[op[1] % len(acts)]
            if a['kind'] == 'loan':
                a['rate'] = op[2]
                b.interest_rate = op[2]
        elif op[0] == 'duration' and acts:
            a, b = acts[op[1] % len(acts)]
            if a['kind'] == 'loan':
                a['duration'] = op[2]
                b.duration = op[2]
        elif op[0] == 'when' and acts:
            a, b = acts[op[1] % len(acts)]
            if a['kind'] == 'basic':
                a[op[2]] = op[3]
                if op[2] == 'start':
                    b.start_datetime = biz.moment(m, op[3], datetime.min)
                else:
                    b.end_datetime = biz.moment(m, op[3], datetime.max)
        elif op[0] == 'accounts' and acts:
            a, b = acts[op[1] % len(acts)]
            if a['kind'] == 'basic':
                a['dt'], a['cr'] = b.dt_account, b.cr_account = op[2]
        elif op[0] == 'label' and acts:
            a, b = acts[op[1] % len(acts)]
            if op[2] == 'desc':
                a['desc'] = b.description = op[3]
            elif op[3]:
                a['name'] = b.name = op[3]
        elif op[0] == 'drop' and comps:
            s, o = comps[op[1] % len(comps)][:2]
            if s['acts']:
                i = op[1] % len(s['acts'])
                del s['acts'][i], o.activities[i]
        elif op[0] == 'nest' and comps:
            s, o = comps[op[1] % len(comps)][:2]
            new = dict(op[2], name='New', comps=biz.distinct(op[2]['comps']))
            if 'New' not in [x['name'] for x in s['comps']]:
                new = copy.deepcopy(new)
                s['comps'].append(new)
                biz.fill(m, o, [new])
        elif op[0] == 'top':
            i = op[1] % len(m['entities']) if m['entities'] else 0
            names = [e['name'] for e in m['entities']]
            if op[2] == 'model':
                m['name'] = model.name = 'Renamed'
            elif op[2] == 'add' and 'NewE' not in names:
                new = copy.deepcopy({'name': 'NewE', 'comps': biz.distinct(
                    [op[3]])})
                m['entities'].append(new)
                biz.fill(m, model.create_entity('NewE', biz.structure()),
                         new['comps'])
            elif op[2] == 'rename' and m['entities'] and 'RE' not in names:
                m['entities'][i]['name'] = model.entities[i].name = 'RE'
            elif op[2] == 'remove' and len(m['entities']) > 1:
                model.remove_entity(m['entities'][i]['name'])
                del m['entities'][i]
        elif op[0] == 'clock':
            pin(m)
            m['start'], m['period'] = op[1], op[2]
            model.clock.start_datetime = cal.dt(op[1])
            model.clock.timestep_period_duration = TimePeriod[op[2]]
        elif op[0] == 'add' and comps:
            s, o = comps[op[1] % len(comps)][:2]
            # moments are relative to the calendar of this model
            new = copy.deepcopy(op[2])
            s['acts'].append(new)
            o.add_activity(biz.make_activity(m, new))
        elif op[0] == 'remove' and comps:
            s, o, specs, i, objs = comps[op[1] % len(comps)]
            parents = list(model.entities) + [c[1] for c in comps]
            p = next(p for p in parents if p.components is objs)
            p.remove_component(s['name'])
            del specs[i]
        elif op[0] == 'rename' and comps:
            s, o, specs, _, _ = comps[op[1] % len(comps)]
            if op[2] not in [x['name'] for x in specs]:
                s['name'] = op[2]
                o.name = op[2]
    model.run()
    posted += compare(model, m, 'last run after %r' % case['ops'])
    same(everything(model), everything_of(m), 'ledgers after edits')
    return 'edited' if posted and case['ops'] else None


def everything_of(m):
    model = biz.build(m)
    model.run()
    return everything(model)


def check_separate(case):
    """What an entity posts does not depend on the other entities."""
    m = case['model']
    model = biz.build(m)
    model.run()
    whole = everything(model)
    for i, e in enumerate(m['entities']):
        same(everything_of(dict(m, entities=[e]))[0], whole[i],
             'ledger of %s on its own' % e['name'])
    if len(m['entities']) > 1:
        model.remove_entity(m['entities'][0]['name'])
        model.run()
        same(everything(model), whole[1:], 'ledgers without the first entity')
        return 'separate' if whole[0] and any(whole[1:]) else None
    return None


# ------------------------------------------------------------------- clock
clocks = st.fixed_dictionaries({
    'start': moments(1990, 2060), 'period': periods,
    'count': st.integers(1, 40), 'form': st.sampled_from(
        ['datetime', 'date', 'str'])})


class Probe:
    """Stands in for an entity and notes when it is run."""

    def __init__(self):
        self.seen, self.prepared = [], []
        self.name = 'probe'

    def prepare_to_run(self, clock, n):
        self.prepared.append((clock.get_datetime(), n))

    def run(self, clock):
        self.seen.append((clock.timestep_ix, clock.get_datetime()))


def check_clock(case):
    """A run visits every period once, in order, at its time."""
    d = cal.dt(case['start'])
    arg = d
    if case['form'] != 'datetime':
        d = datetime(d.year, d.month, d.day)
        arg = d.date() if case['form'] == 'date' else d.strftime('%Y-%m-%d')
    m = TimeBasedModel('M', start_datetime=arg,
                       period_duration=TimePeriod[case['period']],
                       period_count=case['count'])
    p, q = Probe(), Probe()
    m.entities.extend([p, q])
    for _ in range(2):
        m.run()
        want = [(i, cal.at(d, case['period'], i))
                for i in range(case['count'])]
        for x in (p, q):
            same(x.seen, want, 'periods of a run')
            same(x.prepared, [(d, case['count'])], 'preparation of a run')
            x.seen, x.prepared = [], []
        same(m.clock.timestep_ix, case['count'], 'clock after the run')
    return case['form'] if case['count'] > 1 else None


FACETS = [
    Facet('rerun', st.fixed_dictionaries({'model': models, 'other': models,
                                          'shared': st.booleans()}),
          check_rerun, quick=90, thorough=2500),
    Facet('edits', histories(), check_edits, quick=200, thorough=5000),
    Facet('separate', st.fixed_dictionaries({'model': models}),
          check_separate, quick=100, thorough=3000),
    Facet('clock', clocks, check_clock, quick=300, thorough=8000),
]

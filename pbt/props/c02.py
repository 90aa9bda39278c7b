"""C02: objects survive being written to a file and read back."""
import os
from datetime import date, datetime

from hypothesis import strategies as st

from auxi.core.objects import NamedObject, Object
from auxi.core.reporting import ReportFormat
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.financial.des import (
    GeneralLedger, GeneralLedgerStructure, Transaction, TransactionTemplate)
from pbt import bizref as biz
from pbt import caltime as cal
from pbt.core import Facet, req, same, scratch_dir
from pbt.gen_time import moments, periods

RULE = ('non-trivial: an object with at least one nested, shared or cyclic '
        'reference, a moved clock, or a model or ledger with transactions.')
ASSUMPTIONS = ['dictionary keys are strings',
               'values are JSON values, dates, times or auxi objects']

text = st.one_of(st.sampled_from(['a', 'Name', 'x/y', '', 'é ü', '"q"\\',
                                  'py/id', '1']), st.text(max_size=12))
scalars = st.one_of(st.none(), st.booleans(), st.integers(-10**12, 10**12),
                    st.floats(allow_nan=False), text)
values = st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(text.filter(
        lambda k: not k.startswith('py/')), c, max_size=3)), max_leaves=10)


def through_file(o, d, name='f.json'):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        # what was there before is gone
        f.write('{"py/object": "other"}' * 10000)
    o.write(p)
    before = open(p).read()
    r = Object.read(p)
    r.write(p)
    return r, before, open(p).read()


def alike(a, b, what, seen=None):
    """Same types, same values, same sharing."""
    seen = {} if seen is None else seen
    if isinstance(a, (list, dict)) or hasattr(a, '__dict__') and not \
            isinstance(a, type) and isinstance(a, Object) \
            and not hasattr(type(a), '__members__'):
        if id(a) in seen:
            req(seen[id(a)] == id(b), '%s: a shared object was duplicated',
                what)
            return
        req(id(b) not in seen.values(), '%s: distinct objects were merged',
            what)
        seen[id(a)] = id(b)
    req(type(a) is type(b), '%s: %r became %r', what, type(a), type(b))
    if isinstance(a, (list, tuple)):
        req(len(a) == len(b), '%s: length %d became %d', what, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            alike(x, y, '%s[%d]' % (what, i), seen)
    elif isinstance(a, dict):
        same(sorted(b), sorted(a), what + ' keys')
        for k in a:
            alike(a[k], b[k], '%s[%r]' % (what, k), seen)
    elif id(a) in seen:
        same(sorted(vars(b)), sorted(vars(a)), what + ' attributes')
        for k in vars(a):
            alike(vars(a)[k], vars(b)[k], '%s.%s' % (what, k), seen)
    else:
        same(b, a, what)


# ------------------------------------------------------------------- plain
KINDS = {'named': lambda c: NamedObject(c['name'], c['desc']),
         'project': lambda c: Project(c['name'], c['desc']),
         'variable': lambda c: Variable(c['name'], c['value'], c['units'],
                                        c['category'], c['desc']),
         'group': lambda c: VariableGroup(c['name'], c['value'], c['units'],
                                          c['category'], c['desc']),
         'template': lambda c: TransactionTemplate(
             c['name'], c['units'], c['category'], c['desc']),
         'tx': lambda c: Transaction(
             c['name'], c['desc'], cal.dt(c['when']), c['units'],
             c['category'], c['desc'], c['amount']),
         'txd': lambda c: Transaction(
             c['name'], c['desc'], cal.dt(c['when']).date(), c['units'],
             c['category'], c['desc'], c['amount'], True, False)}
plain = st.fixed_dictionaries({
    'kind': st.sampled_from(sorted(KINDS)), 'name': text,
    'desc': st.one_of(st.none(), text), 'value': values, 'units': text,
    'category': text, 'when': moments(1900, 2100),
    'amount': st.one_of(st.integers(-9, 10**9), st.floats(
        allow_nan=False, allow_infinity=False))})


def check_plain(case):
    o = KINDS[case['kind']](case)
    # what was handed in is what is there
    same(o.name, case['name'], 'name')
    same(o.description, case['desc'], 'description')
    if case['kind'] in ('variable', 'group'):
        alike(case['value'], o.value, 'value')
        alike(case['value'], o(), 'called')
        same((o.units, o.category), (case['units'], case['category']),
             'units and category')
    with scratch_dir() as d:
        r, t1, t2 = through_file(o, d)
        alike(o, r, case['kind'])
        same(t2, t1, 'text after reading and writing again')
        same(str(r), str(o), 'text of the object read back')
        same(hash(r), hash(o), 'hash of the object read back')
        # other objects written to the same file, with a text of the same
        # length among them
        p = os.path.join(d, 'f.json')
        for name in (case['name'][::-1], 'x' * len(case['name']),
                     case['name'] + 'longer', case['name']):
            c2 = dict(case, name=name)
            KINDS[case['kind']](c2).write(p)
            same(Object.read(p).name, name, 'name in a file written again')
    return case['kind']


# ------------------------------------------------------------------ graphs
class Box(Object):
    def __init__(self, content):
        self.content = content


@st.composite
def graphs(draw):
    n = draw(st.integers(1, 6))
    node = st.fixed_dictionaries({
        'kind': st.sampled_from(['variable', 'group']), 'name': text,
        'refs': st.lists(st.integers(0, n - 1), max_size=3),
        'attrs': st.dictionaries(st.sampled_from(
            ['alpha', 'zeta', '_m', 'aa', 'owner']), st.integers(0, n - 1),
            max_size=3),
        'keyed': st.booleans()})
    return {'nodes': draw(st.lists(node, min_size=n, max_size=n)),
            # the root as the only attribute of an object, and far from it
            'boxed': draw(st.booleans()),
            'deep': draw(st.sampled_from([0, 0, 0, 3, 10, 25]))}


def check_graph(case):
    nodes = [KINDS[c['kind']]({'name': c['name'], 'desc': None,
                               'value': None, 'units': None,
                               'category': None}) for c in case['nodes']]
    for o, c in zip(nodes, case['nodes']):
        refs = [nodes[i] for i in c['refs']]
        o.value = {'k%d' % i: r for i, r in enumerate(refs)} \
            if c['keyed'] else refs
        for k, i in c['attrs'].items():
            setattr(o, k, nodes[i])
    with scratch_dir() as d:
        root = nodes[0]
        if case['boxed']:
            root = Box([root, nodes[-1], root])
        for i in range(case['deep']):
            o = Variable('v%d' % i, [root])
            o.owner = root
            root = o
        r, t1, t2 = through_file(root, d)
        alike(root, r, 'root')
        same(t2, t1, 'text after reading and writing again')
    used = [i for c in case['nodes'] for i in
            c['refs'] + list(c['attrs'].values())]
    return 'shared' if len(used) != len(set(used)) else (
        'nested' if used else None)


# ------------------------------------------------------------------- clock
clocks = st.fixed_dictionaries({
    'start': moments(), 'period': periods, 'ticks': st.integers(0, 30),
    'name': text, 'more': st.integers(1, 5)})


def check_clock(case):
    c = Clock(case['name'], start_datetime=cal.dt(case['start']),
              timestep_period_duration=TimePeriod[case['period']])
    for _ in range(case['ticks']):
        c.tick()
    with scratch_dir() as d:
        r, _, _ = through_file(c, d)
    alike(c, r, 'clock')
    for _ in range(case['more']):
        same(r.get_datetime(), c.get_datetime(), 'time')
        same(r.timestep_ix, c.timestep_ix, 'index')
        r.tick()
        c.tick()
    r.reset()
    same(r.get_datetime(), cal.dt(case['start']), 'time after reset')
    return 'moved' if case['ticks'] else None


# ------------------------------------------------------------------ models
def check_model(case):
    m = case['model']
    model = biz.build(m)
    if case['ran']:
        model.run()
    with scratch_dir() as d:
        back, t1, t2 = through_file(model, d)
    same(t2, t1, 'text after reading and writing again')
    alike(model, back, 'model')
    for e in back.entities:
        stack = list(e.components)
        while stack:
            c = stack.pop()
            req(c.gl is e.gl, 'component %s has a ledger of its own', c.path)
            stack.extend(c.components)
        # the structure is found by identity at year end
        g = e.gl.structure
        req(g.get_account('Sales') is g.accounts[1], 'account lookup')
    n = 0
    if case['ran']:
        for a, b in zip(model.entities, back.entities):
            same([biz.tx_tuple(t) for t in b.gl.transactions],
                 [biz.tx_tuple(t) for t in a.gl.transactions], 'ledger')
    model.run()
    back.run()
    for a, b in zip(model.entities, back.entities):
        same([biz.tx_tuple(t) for t in b.gl.transactions],
             [biz.tx_tuple(t) for t in a.gl.transactions],
             'ledger of the restored model after running')
        n += len(a.gl.transactions)
        for kind in ('balance_sheet', 'income_statement', 'transaction_list'):
            same(getattr(b.gl, kind)(format=ReportFormat.string),
                 getattr(a.gl, kind)(format=ReportFormat.string), kind)
    return ('ran' if case['ran'] else 'not run') if n else None


models = st.fixed_dictionaries({'model': biz.models(), 'ran': st.booleans()})


# ----------------------------------------------------------------- ledgers
ledgers = st.fixed_dictionaries({
    'name': text, 'txs': st.lists(st.tuples(
        text, st.sampled_from(biz.USER), st.sampled_from(biz.USER),
        moments(2000, 2030), st.booleans(),
        st.one_of(st.none(), text), st.floats(-1e6, 1e6)).map(list),
        max_size=6)})


def check_ledger(case):
    g = GeneralLedger(case['name'], biz.structure())
    for (n, a, b, w, dated, src, amount) in case['txs']:
        w = cal.dt(w)
        g.create_transaction(n, None, w.date() if dated else w, a, b, src,
                             amount)
    with scratch_dir() as d:
        r, t1, t2 = through_file(g, d)
        s, _, _ = through_file(g.structure, d, 'gls.json')
    same(t2, t1, 'text after reading and writing again')
    alike(g, r, 'ledger')
    alike(g.structure, s, 'structure')
    same(type(s), GeneralLedgerStructure, 'type')
    for kind in ('balance_sheet', 'income_statement', 'transaction_list'):
        same(getattr(r, kind)(format=ReportFormat.string),
             getattr(g, kind)(format=ReportFormat.string), kind)
    same(s.report(format=ReportFormat.string),
         g.structure.report(format=ReportFormat.string), 'structure report')
    for t, c in zip(r.transactions, case['txs']):
        w = cal.dt(c[3])
        req(type(t.tx_date) is (date if c[4] else datetime) and t.tx_date == (
            w.date() if c[4] else w), 'date of a transaction')
    return 'txs' if case['txs'] else None


FACETS = [
    Facet('plain', plain, check_plain, quick=500, thorough=20000),
    Facet('graph', graphs(), check_graph, quick=600, thorough=20000),
    Facet('clock', clocks, check_clock, quick=200, thorough=8000),
    Facet('model', models, check_model, quick=120, thorough=3000),
    Facet('ledger', ledgers, check_ledger, quick=120, thorough=3000),
]

"""B03: basic activities post exactly their transactions, per entity."""
import copy

from hypothesis import strategies as st

from auxi.core.reporting import ReportFormat
from pbt import bizref as biz
from pbt import ledger as led
from pbt.core import Facet, Violation, close, req, same

RULE = 'non-trivial: at least one activity posts at least one transaction.'
ASSUMPTIONS = ['siblings have distinct names', 'naive datetimes']

NAMES = ('period', 'date', 'source', 'name', 'description', 'dt account',
         'cr account', 'amount')


def compare(model, m, what='ledger'):
    """The ledgers of a model that ran against the reference."""
    n = 0
    for e, (path, txs) in zip(model.entities, biz.simulate(m)):
        same(e.path, path, 'path of the entity')
        got = [biz.tx_tuple(t) for t in e.gl.transactions
               if t.source != e.path]
        # interest on what is left of a loan is exact to its amount only
        size = max([1.0] + [abs(w[7]) for w in txs])
        for g, w in zip(got, txs):
            w = (w[1], w[2]) + w[3:]
            for k in range(6):
                if g[k] != w[k]:
                    raise Violation('%s of %s: transaction %r, expected %r'
                                    % (what, path, g, w))
            close(g[6], w[6], '%s of %s: amount of %r' % (what, path, g),
                  1e-9, 1e-9 * size if w[3] == 'Consider interest' else 1e-9)
        same(len(got), len(txs), '%s of %s: number of transactions'
             % (what, path))
        for t in e.gl.transactions:
            req(t.source == e.path or not (
                t.is_closing_cr_account or t.is_closing_dt_account),
                'an ordinary transaction is marked as closing')
        n += len(got)
    return n


basics = st.fixed_dictionaries({
    'model': st.one_of(biz.models(acts=biz.basic()), biz.models()),
    'again': st.one_of(st.none(), st.integers(0, 11))})


def check_ledger(case):
    m = case['model']
    model = biz.build(m)
    model.run()
    n = compare(model, m)
    if case['again'] is not None:
        # the names at the time of the run count
        m = copy.deepcopy(m)
        e = m['entities'][case['again'] % len(m['entities'])]
        o = model[e['name']]
        if case['again'] % 3 == 0:
            m['name'] = model.name = 'M9'
        if case['again'] % 3 == 1:
            e['name'] = o.name = 'E9'
        c, o = e['comps'][0], o.components[0]
        if case['again'] % 2 == 0:
            c['name'] = o.name = 'C9'
        if c['comps']:
            c['comps'][-1]['name'] = o.components[-1].name = 'D9'
        if c['acts']:
            c['acts'][-1]['name'] = o.activities[-1].name = 'A9'
        model.run()
        n += compare(model, m, 'ledger after renaming')
    return 'posted' if n else None


def check_report(case):
    """The transaction list of a component shows what it and its parts
    posted, and adds up."""
    m = case['model']
    model = biz.build(m)
    model.run()
    for e, (path, txs) in zip(model.entities, biz.simulate(m)):
        for c in e.components:
            mine = [t for t in txs if led.from_component(t[2], c.path)]
            rows = led.csv_rows(e.gl.transaction_list, component_path=c.path)
            same(len(rows) - 2, len(mine), 'rows of ' + c.path)
            close(float(rows[-1][5]), sum(t[7] for t in mine),
                  'total of ' + c.path, 1e-9, 0.0101)
            for k in c.components:
                mine = [t for t in txs if led.from_component(t[2], k.path)]
                rows = led.csv_rows(e.gl.transaction_list,
                                    component_path=k.path)
                same(sorted(r[1] for r in rows[1:-1]),
                     sorted(t[2] for t in mine), 'sources of ' + k.path)
    return 'posted' if any(t for _, t in biz.simulate(m)) else None


def check_scale(case):
    """Amounts are linear: a factor on every activity is a factor on every
    transaction."""
    m = case['model']
    k = case['factor']

    def scaled(comps):
        return [dict(c, acts=[dict(a, amount=a['amount'] * k)
                              for a in c['acts']], comps=scaled(c['comps']))
                for c in comps]
    m2 = dict(m, entities=[dict(e, comps=scaled(e['comps']))
                           for e in m['entities']])
    one, two = biz.build(m), biz.build(m2)
    one.run()
    two.run()
    n = 0
    for a, b in zip(one.entities, two.entities):
        x = [t for t in a.gl.transactions if t.source != a.path]
        y = [t for t in b.gl.transactions if t.source != b.path]
        same(len(y), len(x), 'number of transactions')
        size = max([1.0] + [abs(s.amount) for s in x])
        for s, t in zip(x, y):
            same(biz.tx_tuple(t)[:6], biz.tx_tuple(s)[:6], 'transaction')
            close(t.amount, k * s.amount, 'amount', 1e-9, 1e-9 * size
                  if s.description == 'Consider interest' else 1e-9)
        n += len(x)
    return 'posted' if n else None


FACETS = [
    Facet('ledger', basics, check_ledger, quick=220, thorough=6000),
    Facet('report', basics, check_report, quick=80, thorough=2500),
    Facet('scale', st.fixed_dictionaries({
        'model': biz.models(), 'factor': st.sampled_from([2, 10, 0.5])}),
        check_scale, quick=80, thorough=2500),
]

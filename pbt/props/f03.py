"""F03: the transaction list."""
from hypothesis import strategies as st

from pbt import ledger as led
from pbt.core import Facet, close, req, same

RULE = ('non-trivial: at least one transaction is listed and at least one is '
        'left out, or the listed ones had to be put in order.')
ASSUMPTIONS = ['naive dates; component paths with a trailing slash are '
               'those of the component without it']

cases = st.fixed_dictionaries({
    'txs': led.ledgers(led.tx(), 9), 'start': led.bounds,
    'early': st.booleans(),
    'slash': st.sampled_from([False] * 4 + [True]),
    'end': led.bounds, 'path': st.one_of(
        st.just(''), st.just(''), st.sampled_from(
            [s for s in led.SOURCES if s] + ['Mod', 'Model/A/O',
                                             'Model/a', 'MODEL']))})


def expected(case):
    sel = [t for t in case['txs'] if led.within(case, t)
           and led.from_component(t['source'], case['path'])]
    order = sorted(sel, key=lambda t: led.as_datetime(led.moment(
        t['day'], t['time'])))
    return sel, order


def check_list(case):
    kw = led.kwargs(case, 'start', 'end', 'component_path')
    if case['slash'] and case['path'] and all(
            t['source'] != case['path'] for t in case['txs']):
        kw['component_path'] += '/'
    g = led.make(case, (lambda g: led.csv_rows(g.transaction_list, **kw))
                 if case['early'] else None)
    rows = led.csv_rows(g.transaction_list, **kw)
    same(rows[0], ['Date', 'Source', 'Tx Name', 'Debit Account',
                   'Credit Account', 'Amount', 'Description'], 'header')
    sel, order = expected(case)
    same(len(rows) - 2, len(order), 'number of transactions listed')
    for r, t in zip(rows[1:-1], order):
        src = t['source'] or ''
        same(r[0], str(led.moment(t['day'], t['time'])), 'date')
        same(r[1], src, 'source')
        same(r[2], '' if src.endswith(t['name']) else t['name'], 'name')
        same(r[3:5], [t['dt'], t['cr']], 'accounts')
        same(r[5], '%.2f' % t['amount'], 'amount')
        same(r[6], t['desc'] or '', 'description')
    tot = rows[-1]
    same(tot[:5] + tot[6:], ['', '', 'Total', '', '', ''], 'total row')
    total = sum(t['amount'] for t in order)
    close(float(tot[5]), total, 'total', 1e-9, 0.0101)
    req('.' in tot[5] and len(tot[5].split('.')[1]) == 2,
        'total %r has no two decimals', tot[5])
    if not order:
        return None
    return 'ordered' if sel != order else (
        'filtered' if len(order) < len(case['txs']) else None)


def check_split(case):
    """Listing up to a day and from the next day on is listing everything;
    the list of a component is the union of those of its parts."""
    g = led.make(case)
    d = case['cut']
    first = led.csv_rows(g.transaction_list, end=led.moment(d, None))
    second = led.csv_rows(g.transaction_list, start=led.moment(d + 1, None))
    every = led.csv_rows(g.transaction_list)
    same(first[1:-1] + second[1:-1], every[1:-1], 'list cut after day %d' % d)
    amount = lambda rows: float(rows[-1][5])
    close(amount(first) + amount(second), amount(every), 'total', 1e-9, 0.03)
    for path in ('Model', 'Model/A', 'Model/A/Ops'):
        whole = led.csv_rows(g.transaction_list, component_path=path)[1:-1]
        same(whole, [r for r in every[1:-1] if led.from_component(
            r[1], path)], 'list of ' + path)
    return 'cut' if len(first) > 2 and len(second) > 2 else None


split = st.fixed_dictionaries({
    'txs': st.lists(led.tx(), min_size=1, max_size=9),
    'cut': st.integers(0, 25)})

FACETS = [
    Facet('list', cases, check_list, quick=2000, thorough=15000),
    Facet('split', split, check_split, quick=800, thorough=6000),
]

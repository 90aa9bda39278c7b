"""F04: balance sheet and income statement."""
import random

from hypothesis import strategies as st

from pbt import ledger as led
from pbt.core import Facet, Violation, close, req, same

RULE = ('non-trivial: at least one transaction is counted; "mixed" when one '
        'account is both debited and credited, "filtered" when a transaction '
        'is left out.')
ASSUMPTIONS = ['naive dates; component paths without trailing slash',
               'amounts are compared to a cent']

TOL = 0.0101
few = ['Bank/Default', 'Sales/A', 'Cost of Sales/F', 'Expense/W',
       'Long Term Borrowing/L', 'Retained Income/Q', 'Sales', 'Tax/T',
       'Cost of Sales', 'Other Income/R', 'Share Capital', 'Other Income/A',
       'Expense/Cost of Sales', 'Expense/A', 'Account Payable/Default',
       'Expense/w', 'Other Income/Cost of Sales']
txs = st.one_of(led.ledgers(led.tx(), 8), led.ledgers(led.tx(few), 10),
                led.ledgers(led.tx(few[:5]), 10))
cases = st.fixed_dictionaries({
    'txs': txs, 'start': led.bounds, 'end': led.bounds,
    'early': st.booleans(),
    'path': st.one_of(st.just(''), st.just(''), st.sampled_from(
        [s for s in led.SOURCES if s] + ['Mod', 'Model/A/O', 'Model/a',
                                         'MODEL']))})


def sums(sel, types, debit_sign):
    out = {}
    for t in sel:
        for acc, sign in ((t['dt'], debit_sign), (t['cr'], -debit_sign)):
            if led.TYPES[acc] in types:
                out.setdefault(acc, 0)
                out[acc] += sign * t['amount']
    return out


def table(rows, what):
    out = {}
    for k, v in rows:
        req(k not in out, '%s: %s is there twice', what, k)
        req('.' in v and len(v.split('.')[1]) == 2, '%s: %s has the amount '
            '%r', what, k, v)
        out[k] = float(v)
    return out


def equal(got, want, what):
    if sorted(got) != sorted(want):
        raise Violation('%s: accounts %r, expected %r' % (
            what, sorted(got), sorted(want)))
    for k in want:
        close(got[k], want[k], '%s: %s' % (what, k), 1e-9, TOL)


def split_at(rows, ix, word):
    for i, r in enumerate(rows):
        if r[ix] == word:
            return rows[:i], rows[i], rows[i + 1:]
    raise Violation('no row %r in %r' % (word, rows))


def is_rule(r):
    return set(''.join(r)) <= {'-'}


def read_balance_sheet(rows):
    same([c.strip() for c in rows[0]],
         ['Assets', '', 'Liabilities and Equity', '', ''], 'header')
    body, total = rows[1:-1], rows[-1]
    same((total[0], total[2]), ('Total', 'Total'), 'last row')
    assets = table([(r[0], r[1]) for r in body if r[0] and not is_rule(
        [r[0]])], 'assets')
    right = [r[2:] for r in body]
    same(right[0][0], 'Liabilities', 'first section')
    lia, ltot, rest = split_at(right[1:], 0, 'Total liabilities')
    _, _, rest = split_at(rest, 0, "Owners' Equity")
    eq, etot, _ = split_at(rest, 0, "Total owners' equities")
    lia = table([(r[0], r[1]) for r in lia if not is_rule(r)], 'liabilities')
    eq = table([(r[0], r[1]) for r in eq if not is_rule(r)], 'equity')
    return (assets, lia, eq, float(ltot[2]), float(etot[2]),
            float(total[1]), float(total[4]))


def label(case, sel, interesting):
    used = [t for t in sel if led.TYPES[t['dt']] in interesting
            or led.TYPES[t['cr']] in interesting]
    if not used:
        return None
    d, c = {t['dt'] for t in used}, {t['cr'] for t in used}
    if d & c:
        return 'mixed'
    return 'filtered' if len(sel) < len(case['txs']) else 'plain'


def check_balance_sheet(case):
    kw = led.kwargs(case, 'end')
    g = led.make(case, (lambda g: led.csv_rows(g.balance_sheet, **kw))
                 if case['early'] else None)
    got = read_balance_sheet(led.csv_rows(g.balance_sheet, **kw))
    sel = [t for t in case['txs'] if led.within(dict(case, start=None), t)]
    assets = sums(sel, ('asset',), 1)
    lia = sums(sel, ('liability',), -1)
    eq = sums(sel, ('equity',), -1)
    equal(got[0], assets, 'assets')
    equal(got[1], lia, 'liabilities')
    equal(got[2], eq, 'equity')
    close(got[3], sum(lia.values()), 'total liabilities', 1e-9, TOL)
    close(got[4], sum(eq.values()), 'total equity', 1e-9, TOL)
    close(got[5], sum(assets.values()), 'total assets', 1e-9, TOL)
    close(got[6], sum(lia.values()) + sum(eq.values()),
          'total liabilities and equity', 1e-9, TOL)
    return label(case, sel, ('asset', 'liability', 'equity'))


def read_income_statement(rows):
    same(rows[0], ['', 'Debit', 'Credit'], 'header')
    rows = [r for r in rows[1:] if not is_rule(r)]
    same(rows[0][0], 'Revenues', 'first section')
    rev, _, rest = split_at(rows[1:], 0, 'Cost of Sales')
    # "Cost of Sales" is the heading, and may be an account too
    cos, gross, rest = split_at(
        rest, 0, 'Gross Revenues (including interest income)')
    _, _, rest = split_at(rest, 0, 'Expenses')
    exp, etot, rest = split_at(rest, 0, 'Total Expenses')
    same(len(rest), 1, 'rows after the expenses')
    same(rest[0][0], 'Net Income', 'last row')
    for r in rev + [gross, rest[0]]:
        same(r[1], '', 'debit of %s' % r[0])
    for r in cos + exp + [etot]:
        same(r[2], '', 'credit of %s' % r[0])
    net = rest[0][2]
    net = -float(net[1:-1]) if net.startswith('(') else float(net)
    return (table([(r[0], r[2]) for r in rev], 'revenues'),
            table([(r[0], r[1]) for r in cos], 'cost of sales'),
            table([(r[0], r[1]) for r in exp], 'expenses'),
            float(gross[2]), float(etot[1]), net)


def check_income_statement(case):
    kw = led.kwargs(case, 'start', 'end', 'component_path')
    g = led.make(case, (lambda g: led.csv_rows(g.income_statement, **kw))
                 if case['early'] else None)
    got = read_income_statement(led.csv_rows(g.income_statement, **kw))
    sel = [t for t in case['txs'] if led.within(case, t)
           and led.from_component(t['source'], case['path'])
           and not t['closing']]
    rev = sums(sel, ('revenue',), -1)
    exp = sums(sel, ('expense',), 1)
    cos = {k: v for k, v in exp.items() if k.startswith('Cost of Sales')}
    oth = {k: v for k, v in exp.items() if k not in cos}
    equal(got[0], rev, 'revenues')
    equal(got[1], cos, 'cost of sales')
    equal(got[2], oth, 'expenses')
    close(got[3], sum(rev.values()) - sum(cos.values()), 'gross revenues',
          1e-9, TOL)
    close(got[4], sum(oth.values()), 'total expenses', 1e-9, TOL)
    close(got[5], sum(rev.values()) - sum(exp.values()), 'net income', 1e-9,
          TOL)
    return label(case, sel, ('revenue', 'expense'))


def shuffled(case):
    out = list(case['txs'])
    random.Random(case['order']).shuffle(out)
    return out


def check_order(case):
    """The order of posting does not matter; days add up."""
    a, b = led.make(case), led.make(dict(case, txs=shuffled(case)))
    x = read_balance_sheet(led.csv_rows(a.balance_sheet))
    y = read_balance_sheet(led.csv_rows(b.balance_sheet))
    for i, what in enumerate(('assets', 'liabilities', 'equity')):
        equal(y[i], x[i], what + ' posted in another order')
    x = read_income_statement(led.csv_rows(a.income_statement))
    y = read_income_statement(led.csv_rows(b.income_statement))
    for i, what in enumerate(('revenues', 'cost of sales', 'expenses')):
        equal(y[i], x[i], what + ' posted in another order')
    parts = [read_income_statement(led.csv_rows(a.income_statement, **k))
             for k in (dict(end=led.moment(case['cut'], None)),
                       dict(start=led.moment(case['cut'] + 1, None)))]
    close(parts[0][5] + parts[1][5], x[5], 'net income of two parts', 1e-9,
          0.03)
    return 'order' if len(case['txs']) > 1 else None


order = st.fixed_dictionaries({
    'txs': txs, 'order': st.integers(0, 10**6),
    'cut': st.integers(0, 25)})

FACETS = [
    Facet('balance', cases, check_balance_sheet, quick=1350, thorough=12000),
    Facet('income', cases, check_income_statement, quick=1350,
          thorough=12000),
    Facet('order', order, check_order, quick=450, thorough=5000),
]

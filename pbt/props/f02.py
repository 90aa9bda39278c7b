"""F02: the ledger records transactions faithfully, in double entry."""
from datetime import datetime

from hypothesis import strategies as st

from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.business.structure import Component, Entity
from auxi.modelling.financial.des import GeneralLedger, Transaction
from pbt import bizref as biz
from pbt import ledger as led
from pbt.core import Facet, close, raises, req, same

RULE = ('non-trivial: a ledger with at least two transactions, or an '
        'activity on accounts of which at least one does not exist.')
ASSUMPTIONS = ['accounts of the generated structure']

cases = st.fixed_dictionaries({'txs': led.ledgers(led.tx(), 10),
                               'split': st.integers(0, 10)})


def fields(t):
    return (t.name, t.description, t.tx_date, t.dt_account, t.cr_account,
            t.source, t.amount, t.is_closing_dt_account,
            t.is_closing_cr_account)


def check_record(case):
    """Every transaction is kept as given, in order; ledgers are separate."""
    s = biz.structure()
    g, other = GeneralLedger('g', s), GeneralLedger('other', s)
    same(g.transactions, [], 'new ledger')
    made = []
    for i, t in enumerate(case['txs']):
        to = other if i < case['split'] else g
        n = len(to.transactions)
        x = to.create_transaction(
            t['name'], t['desc'], led.moment(t['day'], t['time']), t['dt'],
            t['cr'], t['source'], t['amount'])
        req(len(to.transactions) == n + 1 and to.transactions[-1] is x,
            'the created transaction is not the last of the ledger')
        made.append((to, x))
    for to in (g, other):
        want = [x for (l, x) in made if l is to]
        req(len(want) == len(to.transactions) and all(
            a is b for a, b in zip(want, to.transactions)),
            'ledger does not hold its transactions in order')
    for (l, x), t in zip(made, case['txs']):
        same(fields(x), (t['name'], t['desc'], led.moment(
            t['day'], t['time']), t['dt'], t['cr'], t['source'], t['amount'],
            False, False), 'transaction')
        same(fields(Transaction(*fields(x))), fields(x), 'its copy')
        same(fields(Transaction(t['name'])), (
            t['name'], None, datetime.min.date(), None, None, None, 0.0,
            False, False), 'transaction without particulars')
    lone = g.create_transaction('plain')
    same(fields(lone), ('plain', None, datetime.min.date(), None, None, None,
                        0.0, False, False), 'transaction of defaults')
    req(g.transactions.pop() is lone, 'the last of the ledger')
    # reports and lookups do not change the ledger
    before = [fields(x) for x in g.transactions]
    for kind in ('balance_sheet', 'income_statement', 'transaction_list'):
        led.printed(getattr(g, kind))
    same([fields(x) for x in g.transactions], before,
         'ledger after reporting')
    return 'several' if len(case['txs']) > 1 else None


def money(s):
    return float(s)


def totals(g):
    """(assets, liabilities and equity, net income) as reported."""
    bs = led.csv_rows(g.balance_sheet)
    inc = led.csv_rows(g.income_statement)
    net = inc[-1][2]
    net = -float(net[1:-1]) if net.startswith('(') else float(net)
    return float(bs[-1][1]), float(bs[-1][4]), net


def check_balance(case):
    """Whatever is posted: assets = liabilities + equity + net income."""
    case = dict(case, txs=[dict(t, closing='') for t in case['txs']])
    g = led.make(case)
    a, le, net = totals(g)
    size = sum(abs(t['amount']) for t in case['txs'])
    close(a, le + net, 'assets against liabilities, equity and net income',
          1e-9, 0.04 + 1e-9 * size)
    # reversing every transaction takes all of it back
    for t in list(g.transactions):
        g.create_transaction(t.name, None, t.tx_date, t.cr_account,
                             t.dt_account, t.source, t.amount)
    for what, x in zip(('assets', 'liabilities and equity', 'net income'),
                       totals(g)):
        close(x, 0, what + ' after reversing everything', 0, 0.011)
    return 'several' if len(case['txs']) > 1 else None


# ---------------------------------------------- posting only to known accounts
accs = st.one_of(st.sampled_from(sorted(led.TYPES)), st.sampled_from(
    ['', 'sales', 'Sales/', 'Sales/Z', 'Bank/Default/x', '/Sales', 'Nope']))
acts = st.fixed_dictionaries({'kind': st.sampled_from(['basic', 'loan']),
                              'accounts': st.lists(accs, min_size=3,
                                                   max_size=3),
                              'where': st.sampled_from(['top', 'sub'])})


def check_accounts(case):
    """An activity is only accepted if all its accounts exist."""
    e = Entity('E', biz.structure())
    c = e.create_component('C')
    if case['where'] == 'sub':
        c = c.create_component('D')
    a = case['accounts']
    if case['kind'] == 'basic':
        a = a[:2]
        act = BasicActivity('act', dt_account=a[0], cr_account=a[1], amount=1)
    else:
        act = BasicLoanActivity('act', bank_account=a[0], loan_account=a[1],
                                interest_account=a[2], amount=1,
                                start=datetime(2016, 1, 1))
    bad = [x for x in a if x not in led.TYPES]
    if bad:
        raises('activity on %r' % bad, ValueError, c.add_activity, act)
        same(c.activities, [], 'activities after a rejected one')
        return 'rejected'
    c.add_activity(act)
    req(c('act') is act, 'the accepted activity is not found')
    return None


FACETS = [
    Facet('record', cases, check_record, quick=1000, thorough=8000),
    Facet('balance', cases, check_balance, quick=1000, thorough=8000),
    Facet('accounts', acts, check_accounts, quick=1200, thorough=8000),
]

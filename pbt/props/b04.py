"""B04: loans amortise."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from auxi.core.time import TimePeriod
from auxi.modelling.business.basic import BasicLoanActivity
from auxi.modelling.business.models import TimeBasedModel
from pbt import bizref as biz
from pbt import caltime as cal
from pbt import ledger as led
from pbt.core import Facet, KnownFinding, close, req, same
from pbt.gen_time import moments
from pbt.props.b03 import compare

RULE = 'non-trivial: at least one repayment is made.'
ASSUMPTIONS = ['annual rates between 0 and 200 %, at most 10 years',
               'the rate per period is a twelfth of the annual rate']

rates = st.one_of(st.sampled_from([0.0, 0, 0.12, 0.15, 1.0]),
                  st.floats(0.0005, 2))
loans = st.fixed_dictionaries({
    'start': moments(2000, 2040, midnight=True), 'lead': st.integers(0, 6),
    'day': st.integers(0, 20), 'amount': st.one_of(
        st.integers(1, 10**7), st.floats(0.5, 1e7)),
    'rate': rates, 'duration': st.one_of(st.integers(1, 12),
                                         st.integers(1, 120)),
    'string': st.booleans(), 'extra': st.integers(0, 20),
    'rate2': rates, 'amount2': st.integers(1, 10**6),
    'duration2': st.one_of(st.integers(1, 12), st.integers(1, 120)),
    'edit': st.sampled_from(['', '', 'rate', 'amount', 'both', 'duration',
                             'all']),
    'early': st.booleans()})


def make(case):
    d = list(case['start'])
    d[2] = min(d[2], 28)
    start = cal.dt(d)
    when = cal.add_months(start.replace(day=1), case['lead']).replace(
        day=1 + case['day'])
    m = TimeBasedModel('M', start_datetime=start,
                       period_duration=TimePeriod.month,
                       period_count=case['lead'] + max(
                           case['duration'], case['duration2']) + 4
                       + case['extra'])
    e = m.create_entity('E', biz.structure())
    a = BasicLoanActivity(
        'Loan', bank_account='Bank/Default',
        loan_account='Long Term Borrowing/L', interest_account='Expense/I',
        amount=case['amount'], interest_rate=case['rate'],
        start=when.strftime('%Y-%m-%d') if case['string'] else when,
        duration=case['duration'])
    e.create_component('C').add_activity(a)
    return m, e, a, when


def postings(e):
    return [t for t in e.gl.transactions if t.source != e.path]


def verify(m, e, when, amount, rate, n):
    """Drawn once, repaid in n equal instalments, to exactly nothing."""
    m.run()
    txs = postings(e)
    same([t.description for t in txs],
         ['Make a loan'] + ['Consider interest', 'Pay principle'] * n,
         'transactions of a loan over %d months' % n)
    first = txs[0]
    same((first.dt_account, first.cr_account, first.amount),
         ('Bank/Default', 'Long Term Borrowing/L', amount), 'drawing')
    req(first.tx_date > when or first.tx_date == m.clock.start_datetime,
        'drawn at %s, start %s', first.tx_date, when)
    owed, months = amount, [first.tx_date]
    inst, interest = [], 0.0
    for i, p in zip(txs[1::2], txs[2::2]):
        same((i.dt_account, i.cr_account), ('Expense/I',
                                            'Long Term Borrowing/L'),
             'interest accounts')
        same((p.dt_account, p.cr_account), ('Long Term Borrowing/L',
                                            'Bank/Default'),
             'repayment accounts')
        close(i.amount, owed * rate / 12, 'interest on %r' % owed, 1e-7,
              1e-7 * amount)
        same(i.tx_date, p.tx_date, 'dates of interest and repayment')
        months.append(i.tx_date)
        owed += i.amount - p.amount
        req(owed > -1e-6 * amount, 'more is repaid than owed: %r', owed)
        interest += i.amount
        inst.append(p.amount)
    for a, b in zip(months, months[1:]):
        same((b.year * 12 + b.month) - (a.year * 12 + a.month), 1,
             'months between repayments')
    close(owed, 0, 'owed after the last repayment', 0, 1e-6 * amount)
    for p in inst:
        close(p, inst[0], 'repayment', 1e-9)
    close(sum(inst), amount + interest, 'sum of repayments', 1e-9,
          1e-7 * amount)
    close(inst[0], biz.annuity(amount, rate, n), 'repayment', 1e-6,
          1e-9 * amount)
    # the ledger agrees
    rows = led.csv_rows(e.gl.balance_sheet)
    lia = [float(r[3]) for r in rows if r[2] == 'Long Term Borrowing/L']
    close(lia[0], 0, 'loan account at the end', 0,
          0.011 + 1e-6 * amount)


def check_amortise(case):
    m, e, a, when = make(case)
    if not case['early']:
        verify(m, e, when, case['amount'], case['rate'], case['duration'])
    # and again after changing the terms
    amount, rate = case['amount'], case['rate']
    if case['edit'] in ('amount', 'both', 'all'):
        a.amount = amount = case['amount2']
    if case['edit'] in ('rate', 'both', 'all'):
        a.interest_rate = rate = case['rate2']
    n = case['duration']
    if case['edit'] in ('duration', 'all'):
        a.duration = n = case['duration2']
    same((a.amount, a.interest_rate, a.duration), (amount, rate, n), 'terms')
    verify(m, e, when, amount, rate, n)
    return 'edited' if case['edit'] else 'loan'


month_ends = st.fixed_dictionaries({
    'year': st.integers(2000, 2030), 'month': st.integers(1, 12),
    'day': st.sampled_from([26, 27, 28, 29, 29, 30, 30, 31, 31]),
    'lead': st.integers(0, 14), 'when': st.one_of(
        st.integers(26, 31), st.integers(1, 31)),
    'amount': st.integers(1, 10**6), 'rate': rates,
    'duration': st.one_of(st.integers(1, 3), st.integers(1, 14),
                          st.sampled_from([12, 24, 36])),
    'by': st.sampled_from(['given', 'set'])})


def check_month_end(case):
    """A clock and a loan at the end of the month: months differ in length."""
    n, rate, amount = case['duration'], case['rate'], case['amount']
    first = datetime(case['year'], case['month'], 1)
    last = cal.add_months(first, 1) - timedelta(days=1)
    start = first.replace(day=min(case['day'], last.day))
    when = cal.add_months(first, case['lead'])
    last = cal.add_months(when, 1) - timedelta(days=1)
    when = when.replace(day=min(case['when'], last.day))
    m = TimeBasedModel('M', start_datetime=start,
                       period_duration=TimePeriod.month,
                       period_count=case['lead'] + n + 6)
    e = m.create_entity('E', biz.structure())
    a = BasicLoanActivity(
        'Loan', bank_account='Bank/Default',
        loan_account='Long Term Borrowing/L', interest_account='Expense/I',
        amount=amount, interest_rate=rate, start=when,
        duration=n if case['by'] == 'given' else n + 1)
    a.duration = n
    e.create_component('C').add_activity(a)
    times = [cal.add_months(start, i) for i in range(case['lead'] + n + 6)]
    drawn = [i for i, t in enumerate(times) if t > when][0]
    if times[drawn + n] > cal.add_months(when, n + 1):
        # the end of the loan comes before its last payment
        m.run()
        if len(postings(e)) == 2 * n - 1:
            raise KnownFinding('B04-month-end', 'loan of %d months from %s '
                               'with a clock from %s' % (n, when, start))
    verify(m, e, when, amount, rate, n)
    same([t.tx_date for t in postings(e)][::2], times[drawn:drawn + n + 1],
         'dates of the loan')
    return 'month end' if start.day > 28 or when.day > 28 else 'loan'


def check_compare(case):
    """A dearer or shorter loan has larger repayments; nothing else moves
    them; interest is what makes the difference."""
    n = case['duration']
    m, e, a, _ = make(case)
    m.run()
    base = [t.amount for t in postings(e) if t.description ==
            'Pay principle']
    m2, e2, _, _ = make(dict(case, rate=case['rate'] + 0.01))
    m2.run()
    dear = [t.amount for t in postings(e2) if t.description ==
            'Pay principle']
    req(len(base) == len(dear) == n and dear[0] > base[0],
        'a dearer loan is not dearer: %r, %r', base[:1], dear[:1])
    m3, e3, _, _ = make(dict(case, duration=n + 1))
    m3.run()
    slow = [t.amount for t in postings(e3) if t.description ==
            'Pay principle']
    req(len(slow) == n + 1 and slow[0] < base[0] * (1 + 1e-9),
        'a longer loan has larger repayments: %r, %r', base[:1], slow[:1])
    req(sum(slow) >= sum(base) * (1 - 1e-9),
        'a longer loan costs less: %r, %r', sum(base), sum(slow))
    return 'compared'


def check_none(case):
    """A loan over no months, or of no amount, is never made."""
    case = dict(case, **{case['none']: 0})
    m, e, a, _ = make(case)
    m.run()
    same(postings(e), [], 'transactions of a loan with no ' + case['none'])
    setattr(a, case['none'], case[case['none'] + '2'])
    m.run()
    req(postings(e), 'no transactions after giving the loan a %s',
        case['none'])
    setattr(a, case['none'], 0)
    m.run()
    same(postings(e), [], 'transactions of a loan without ' + case['none'])
    return case['none']


none = st.builds(lambda c, k: dict(c, none=k), loans, st.sampled_from(
    ['amount', 'duration']))
models = st.fixed_dictionaries({'model': biz.models(acts=biz.loan())})


def check_models(case):
    """Any start, interval, horizon and calendar, against the reference."""
    m = case['model']
    model = biz.build(m)
    model.run()
    n = compare(model, m)
    model.run()
    compare(model, m, 'second ledger')
    return 'posted' if n > 1 else None


FACETS = [
    Facet('amortise', loans, check_amortise, quick=200, thorough=6000),
    Facet('month_end', month_ends, check_month_end, quick=400,
          thorough=8000),
    Facet('compare', loans, check_compare, quick=100, thorough=3000),
    Facet('models', models, check_models, quick=200, thorough=6000),
    Facet('none', none, check_none, quick=60, thorough=1000),
]

"""Generated ledgers and reports read back as cells."""
import csv
import io
import os
from contextlib import redirect_stdout
from datetime import date, datetime, time

from hypothesis import strategies as st

from auxi.core.reporting import ReportFormat
from auxi.modelling.financial.des import GeneralLedger
from pbt import bizref as biz
from pbt import caltime as cal
from pbt.core import Violation, scratch_dir

BASE_STRUCTURE = [
    # name, number, type
    ('Unallocated Income Statement', 'I05', 'revenue'),
    ('Sales', 'I10', 'revenue'), ('Cost of Sales', 'I15', 'expense'),
    ('Other Income', 'I20', 'revenue'), ('Expense', 'I25', 'expense'),
    ('Tax', 'I30', 'expense'), ('Dividends', 'I35', 'expense'),
    ('Share Capital', 'B10', 'asset'), ('Retained Income', 'B15', 'equity'),
    ('Shareholders Loan', 'B20', 'liability'),
    ('Long Term Borrowing', 'B25', 'liability'),
    ('Other Long Term Liabilities', 'B30', 'liability'),
    ('Fixed Assets', 'B35', 'asset'), ('Investments', 'B40', 'asset'),
    ('Other Fixed Assets', 'B45', 'asset'), ('Inventory', 'B50', 'asset'),
    ('Accounts Receivable', 'B55', 'asset'), ('Bank', 'B60', 'asset'),
    ('Other Current Assets', 'B65', 'asset'),
    ('Account Payable', 'B70', 'liability'), ('Taxation', 'B75', 'liability'),
    ('Other Current Liabilities', 'B80', 'liability')]
BASE_SUB = [('Bank', 'Default', '0000'),
            ('Unallocated Income Statement', 'Gross Profit', '0000'),
            ('Unallocated Income Statement', 'Income Summary', '0010'),
            ('Retained Income', 'Retained Earnings', '0000'),
            ('Tax', 'Income Tax Expense', '0000')]
BASE_TYPES = {n: t for n, _, t in BASE_STRUCTURE}
# every account of the structure that biz.structure() makes
TYPES = dict(biz.TYPES)
TYPES.update(BASE_TYPES)
TYPES.update({a + '/' + b: BASE_TYPES[a] for a, b, _ in BASE_SUB})

SOURCES = [None, '', 'model/a', 'Model', 'Model/A', 'Model/A/Ops', 'Model/A/Ops/Sell',
           'Model/A/Ops2', 'Model/A/Ops2/Sell', 'Model/AB', 'Model/B/Ops',
           'Other', 'A', 'Model/A/Ops/Sell/More']
WORDS = ['Sell', 'Buy', 'x', 'Sell 1', '007', '1e5', '12', 'T', 'Ops/Sell',
         '1,5', 'R&D', '50%', 'a_b', '#1', '$']

amounts = st.one_of(
    st.integers(-10**7, 10**7), st.sampled_from([0, 0.0, 0.005, -0.01, 1e9]),
    st.integers(-10**9, 10**9).map(lambda n: n / 100.0),
    st.floats(-1e7, 1e7))


def tx(accounts=None, words=None):
    accs = st.sampled_from(accounts or sorted(TYPES))
    return st.fixed_dictionaries({
        'name': words or st.sampled_from(WORDS),
        'desc': st.one_of(st.none(), words or st.sampled_from(WORDS)),
        'day': st.integers(0, 25), 'time': st.one_of(st.none(), st.sampled_from(
            [0, 1, 43200, 86399, 86399.5])),
        'dt': accs, 'cr': accs, 'source': st.sampled_from(SOURCES),
        'amount': amounts,
        'closing': st.sampled_from(['', '', '', '', 'dt', 'cr'])})


def moment(day, secs):
    d = date(2016, 2, 20).toordinal() + day
    d = date.fromordinal(d)
    if secs is None:
        return d
    return datetime.combine(d, time.min) + secs * (
        datetime(2000, 1, 1, 0, 0, 1) - datetime(2000, 1, 1))


bounds = st.one_of(st.none(), st.tuples(
    st.integers(-1, 26), st.one_of(
        st.none(), st.sampled_from(['str', 0, 1, 43200, 86399]))).map(list))


def bound(b):
    """The argument for a report (None: leave it out)."""
    if b is None:
        return None
    if b[1] == 'str':
        return moment(b[0], None).strftime('%Y-%m-%d')
    return moment(b[0], b[1])


def as_datetime(b, at=time.min):
    if isinstance(b, str):
        b = datetime.strptime(b, '%Y-%m-%d').date()
    if isinstance(b, datetime):
        return b
    return datetime.combine(b, at)


def within(case, t, start='start', end='end'):
    w = as_datetime(moment(t['day'], t['time']))
    s, e = bound(case.get(start)), bound(case.get(end))
    return (s is None or as_datetime(s) <= w) and (
        e is None or w <= as_datetime(e, time.max))


def from_component(source, path):
    source = source or ''
    return not path or source == path or source.startswith(path + '/')


def post(g, txs):
    for t in txs:
        x = g.create_transaction(
            t['name'], t['desc'], moment(t['day'], t['time']), t['dt'],
            t['cr'], t['source'], t['amount'])
        x.is_closing_dt_account = t['closing'] == 'dt'
        x.is_closing_cr_account = t['closing'] == 'cr'


def make(case, look=None):
    """The ledger of a case; look(ledger) is called when half of it is there
    (what is asked early must not matter later)."""
    g = GeneralLedger('gl', biz.structure())
    half = len(case['txs']) // 2
    post(g, case['txs'][:half])
    if look is not None:
        look(g)
    post(g, case['txs'][half:])
    return g


def ledgers(base, most):
    """Lists of transactions, few of them long."""
    return st.one_of(st.lists(base, max_size=most), st.lists(
        base, max_size=most), st.lists(base, max_size=most), st.tuples(
            st.lists(base, min_size=2, max_size=8), st.integers(2, 9)).map(
                repeated))


def repeated(x):
    txs, n = x
    return [dict(t, day=(t['day'] + 5 * i) % 26) for i in range(n)
            for t in txs]


def kwargs(case, *names):
    out = {}
    for n in names:
        if n == 'component_path':
            if case.get('path'):
                out[n] = case['path']
        elif case.get(n) is not None:
            out[n] = bound(case[n])
    return out


def csv_rows(fn, **kw):
    """The cells of a report, from its csv file."""
    with scratch_dir() as d:
        p = os.path.join(d, 'rpt')
        fn(format=ReportFormat.csv, output_path=p, **kw)
        if os.listdir(d) != ['rpt.csv']:
            raise Violation('files written for csv: %r' % os.listdir(d))
        with open(p + '.csv', newline='') as f:
            return list(csv.reader(f))


def printed(fn, **kw):
    out = io.StringIO()
    with redirect_stdout(out):
        r = fn(**kw)
    return r, out.getvalue()

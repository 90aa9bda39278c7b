"""B05: the year-end procedure closes the income statement accounts."""
from hypothesis import strategies as st

from pbt import bizref as biz

from pbt import ledger as led
from pbt.core import Facet, KnownFinding, Violation, close, isclose, req, same

RULE = ('non-trivial: at least one year is closed with at least one account '
        'to write off.')
ASSUMPTIONS = ['a year is closed in the first period that begins at or after '
               'its end; the year in which the run ends is not closed',
               'the accounts Sales and Cost of Sales themselves are closed '
               'like other income; their sub accounts through gross profit']

GP = 'Unallocated Income Statement/Gross Profit'
IS = 'Unallocated Income Statement/Income Summary'
RE = 'Retained Income/Retained Earnings'

acts = st.one_of(biz.basic(), biz.basic(), biz.basic(), biz.loan())
per = st.sampled_from(['month', 'month', 'month', 'year', 'week', 'day'])
models = st.fixed_dictionaries({'model': biz.models(acts=acts, period=per)})
# never a loss in gross profit terms: nothing that the findings cover
clean_basic = st.builds(
    lambda d, c, k: dict(d, dt=c[0], cr=c[1], amount=abs(d['amount']) + k),
    biz.basic(), st.sampled_from([
        ('Bank/Default', 'Other Income/R'), ('Bank/Default', 'Sales'),
        ('Expense/W/W1', 'Bank/Default'), ('Bank', 'Other Income'),
        ('Fixed Assets/V', 'Bank/Default'), ('Tax/T', 'Bank/Default'),
        ('Other Income/R', 'Bank/Default'),
        ('Bank/Default', 'Expense/W')]), st.integers(1, 3))
clean = st.fixed_dictionaries({'model': biz.models(
    acts=clean_basic, period=st.sampled_from(['month', 'month', 'week']))})


def expected(gp, inc):
    """[(transaction, transaction as the finding makes it, finding)]"""
    out = []
    profit = 0.0
    for acc, v in gp.items():
        profit += v
        good = (acc, GP, v) if v > 0 else (GP, acc, -v)
        out.append((good, (good[1], good[0], good[2]), 'B05-gross-profit'))
    total = profit
    for acc, v in inc.items():
        total += v
        out.append(((acc, IS, v) if v > 0 else (IS, acc, -v), None, None))
    out.append(((GP, IS, profit) if profit > 0 else (IS, GP, -profit), None,
                None))
    if total > 0:
        out.append(((IS, RE, total), None, None))
    else:
        out.append(((RE, IS, -total), (RE, IS, total), 'B05-loss'))
    return out


def close_year(got, want, where, scale):
    """Match the transactions of one year end; -> findings that show."""
    tol = 1e-9 * scale + 1e-9
    got = [g for g in got if abs(g[2]) > tol]
    hits = set()
    left = list(got)
    for good, bad, finding in want:
        if abs(good[2]) <= tol:
            continue
        for form, f in ((good, None), (bad, finding)):
            m = [g for g in left if form and g[:2] == form[:2]
                 and isclose(g[2], form[2], 1e-9, tol)]
            if m:
                left.remove(m[0])
                if f:
                    hits.add(f)
                break
        else:
            raise Violation('%s: no transaction %r among %r' % (
                where, good, got))
    if left:
        raise Violation('%s: unexpected transactions %r' % (where, left))
    return hits


def verify(m):
    model = biz.build(m)
    model.run()
    hits, closed = set(), 0
    for e, (path, txs) in zip(model.entities, biz.simulate(m)):
        mine = [t for t in e.gl.transactions if t.source == path]
        years = biz.closing(m, path, txs)
        scale = sum(abs(t[7]) for t in txs)
        dates = [y[0] for y in years]
        for t in mine:
            req(t.tx_date in dates, 'closing transaction at %s, years end at '
                '%s', t.tx_date, dates)
            req(t.is_closing_cr_account, 'not marked as closing')
            req(t.name == t.description and any(
                "'%s'" % a in t.name for a in (t.dt_account, t.cr_account)),
                'a closing transaction from %r to %r is called %r (%r)',
                t.dt_account, t.cr_account, t.name, t.description)
        for end, gp, inc in years:
            got = [(t.dt_account, t.cr_account, t.amount) for t in mine
                   if t.tx_date == end]
            hits |= close_year(got, expected(gp, inc), '%s, year to %s' % (
                path, end), scale)
            closed += bool(gp or inc)
    return model, hits, closed


def check_years(case):
    model, hits, closed = verify(case['model'])
    if hits:
        raise KnownFinding(sorted(hits), 'year end')
    return 'closed' if closed else None


def net(t_list, acc):
    return sum((t.amount if t.cr_account == acc else 0)
               - (t.amount if t.dt_account == acc else 0) for t in t_list)


def check_effect(case):
    """Closing leaves nothing in the closed accounts and puts the net income
    of the year in retained earnings (unless a listed finding applies)."""
    m = case['model']
    model, hits, closed = verify(m)
    for e, (path, txs) in zip(model.entities, biz.simulate(m)):
        ends = [y[0] for y in biz.closing(m, path, txs)]
        if not ends:
            continue
        done = [t for t in e.gl.transactions if t.tx_date <= ends[-1]]
        scale = sum(abs(t.amount) for t in done)
        business = [t for t in done if t.source != path]
        # net of all income accounts of the business transactions
        income = sum(net(business, a) for a, k in led.TYPES.items()
                     if k in ('revenue', 'expense'))
        if hits:
            continue
        for a, k in led.TYPES.items():
            if k in ('revenue', 'expense'):
                close(net(done, a), 0, 'balance of %s after closing' % a, 0,
                      1e-9 * scale + 1e-9)
        close(net(done, RE), income + net(business, RE), 'retained earnings',
              0, 1e-9 * scale + 1e-9)
        for end in ends:
            led.csv_rows(e.gl.balance_sheet, end=end)
        # closing does not change what was earned
        rows = led.csv_rows(e.gl.income_statement, end=ends[-1])
        n = rows[-1][2]
        n = -float(n[1:-1]) if n.startswith('(') else float(n)
        close(n, income, 'net income reported after closing', 1e-9, 0.0101)
        # and the balance sheet balances, with nothing left to distribute
        rows = led.csv_rows(e.gl.balance_sheet, end=ends[-1])
        close(float(rows[-1][1]), float(rows[-1][4]), 'balance sheet total',
              1e-9, 0.0201)
    if hits:
        raise KnownFinding(sorted(hits), 'year end')
    return 'closed' if closed else None


def check_calendar(case):
    """Years are counted from the start of the run: what is posted in the
    last period of a year and in the first of the next are kept apart."""
    n = case['years']
    m = {'name': 'M', 'start': case['start'], 'period': 'month',
         'count': 12 * n + case['rest'], 'entities': [{'name': 'E', 'comps': [
             {'name': 'C', 'comps': [], 'acts': [
                 {'kind': 'basic', 'name': 'in', 'desc': None,
                  'dt': 'Bank/Default', 'cr': 'Other Income/R', 'start': None,
                  'end': None, 'amount': case['income'], 'interval': 1},
                 {'kind': 'basic', 'name': 'out', 'desc': None,
                  'dt': 'Expense/W', 'cr': 'Bank/Default', 'start': None,
                  'end': None, 'amount': case['cost'],
                  'interval': case['interval']}]}]}]}
    model, hits, closed = verify(m)
    e = model.entities[0]
    years = biz.closing(m, 'M/E', biz.simulate(m)[0][1])
    same(len(years), n if case['rest'] else n - 1, 'years closed')
    for end, gp, inc in years:
        moved = [t for t in e.gl.transactions if t.source == 'M/E'
                 and t.tx_date == end]
        r = [t for t in moved if t.dt_account == 'Other Income/R']
        same(len(r), 1, 'write offs of the income')
        close(r[0].amount, 12 * case['income'], 'income of a year')
    if hits:
        raise KnownFinding(sorted(hits), 'year end')
    return 'closed' if closed else None


from pbt.gen_time import moments  # noqa: E402

calendar = st.fixed_dictionaries({
    'start': moments(2000, 2050), 'years': st.integers(1, 4),
    'rest': st.integers(0, 11), 'income': st.integers(1, 10**6),
    'cost': st.integers(1, 10**6), 'interval': st.integers(1, 13)})


def one(acc, cr):
    return {'model': {
        'name': 'M', 'start': [2016, 1, 1, 0, 0, 0, 0], 'period': 'month',
        'count': 13, 'entities': [{'name': 'E', 'comps': [
            {'name': 'C', 'comps': [], 'acts': [
                {'kind': 'basic', 'name': 'a', 'desc': None, 'dt': acc,
                 'cr': cr, 'start': None, 'end': None, 'amount': 10,
                 'interval': 1}]}]}]}}


FACETS = [
    Facet('years', models, check_years, quick=300, thorough=8000,
          examples=[one('Bank/Default', 'Sales/A'),
                    one('Expense/W', 'Bank/Default')]),
    Facet('effect', clean, check_effect, quick=250, thorough=6000),
    Facet('calendar', calendar, check_calendar, quick=100, thorough=3000),
]

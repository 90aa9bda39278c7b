"""Generated business models (plain data), their construction through auxi's
public interface, and a reference simulation of them."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from pbt import caltime as cal
from pbt.gen_time import moments

# account -> type; the accounts in EXTRA are created by build()
BASE = {
    'Bank': 'asset', 'Bank/Default': 'asset', 'Sales': 'revenue',
    'Cost of Sales': 'expense', 'Other Income': 'revenue',
    'Expense': 'expense', 'Tax': 'expense', 'Dividends': 'expense',
    'Long Term Borrowing': 'liability', 'Fixed Assets': 'asset',
    'Retained Income': 'equity', 'Share Capital': 'asset',
    'Account Payable': 'liability',
}
EXTRA = ['Sales/A', 'Sales/B', 'Sales/B/B1', 'Cost of Sales/F',
         'Cost of Sales/F/F1', 'Expense/W', 'Expense/W/W1', 'Other Income/R',
         'Long Term Borrowing/L', 'Fixed Assets/V', 'Tax/T',
         'Account Payable/P', 'Retained Income/Q', 'Expense/I',
         # names that occur elsewhere too
         'Other Income/A', 'Other Income/B1', 'Expense/A', 'Bank/L',
         'Account Payable/Default', 'Expense/Sales', 'Expense/Sales/W',
         'Expense/Cost of Sales', 'Other Income/Cost of Sales',
         'Account Payable/p', 'Expense/w', 'Sales/Expense']
TYPES = dict(BASE)
for _a in EXTRA:
    TYPES[_a] = BASE[_a.split('/')[0]]
TYPES['Unallocated Income Statement/Gross Profit'] = 'revenue'
TYPES['Unallocated Income Statement/Income Summary'] = 'revenue'
TYPES['Retained Income/Retained Earnings'] = 'equity'
USER = [a for a in TYPES if not a.startswith('Unalloc')
        and a != 'Retained Income/Retained Earnings']
BALANCE = [a for a in USER if TYPES[a] in ('asset', 'liability', 'equity')]
INCOME = [a for a in USER if TYPES[a] in ('revenue', 'expense')]

names = st.sampled_from(['A', 'B', 'C', 'Ops', 'Ops2', 'HR', 'x y', 'A2',
                         'ops', 'a'])
amounts = st.one_of(st.integers(1, 100000), st.integers(1, 100).map(float),
                    st.floats(0.01, 1e6), st.sampled_from([0, -5, 0.0, 0.004, 1e-6,
                                                         0.49, 1e9]))
# [period index, jitter] relative to the model's calendar, or None
JITTER = [0, 0, 0, 1, -1, 43200, -43200]
when = st.one_of(st.none(), st.tuples(
    st.one_of(st.integers(-3, 40), st.integers(0, 8)),
    st.sampled_from(JITTER)).map(list))

ACCOUNT_PAIRS = st.one_of(
    st.tuples(st.sampled_from(BALANCE), st.sampled_from(INCOME)),
    st.tuples(st.sampled_from(INCOME), st.sampled_from(BALANCE)),
    st.tuples(st.just('Bank/Default'), st.sampled_from(
        ['Sales/A', 'Sales/B/B1', 'Other Income/R', 'Sales'])),
    st.tuples(st.sampled_from(['Cost of Sales/F', 'Expense/W', 'Expense/I']),
              st.just('Bank/Default')),
    st.tuples(st.sampled_from(USER), st.sampled_from(USER)))


@st.composite
def basic(draw, positive=False):
    d, c = draw(ACCOUNT_PAIRS)
    start = draw(when)
    end = draw(when)
    return {'kind': 'basic', 'name': draw(names), 'desc': draw(
        st.sampled_from([None, None, 'Some text', ''])), 'dt': d, 'cr': c,
        'amount': draw(amounts), 'start': start, 'end': end,
        'interval': draw(st.one_of(st.just(1), st.integers(1, 4),
                                   st.integers(1, 13)))}


@st.composite
def loan(draw):
    return {'kind': 'loan', 'name': draw(names), 'desc': draw(
        st.sampled_from([None, 'Loan text', ''])), 'bank': 'Bank/Default',
        'loan': draw(st.sampled_from(['Long Term Borrowing/L',
                                      'Account Payable/P'])),
        'interest': draw(st.sampled_from(['Expense/I', 'Expense/W/W1'])),
        'amount': draw(amounts), 'rate': draw(st.one_of(
            st.sampled_from([0.0, 0.15, 0.12, 1.0, 0]),
            st.floats(0.001, 0.6))),
        'start': [draw(st.integers(-3, 12)), draw(st.sampled_from(JITTER))],
        'duration': draw(st.one_of(st.integers(1, 8), st.integers(1, 48),
                                   st.just(60))),
        'interval': draw(st.sampled_from([1, 1, 1, 1, 2, 3]))}


def component(acts, depth):
    sub = st.just([]) if depth == 0 else st.one_of(
        st.lists(component(acts, depth - 1), max_size=2),
        st.lists(component(acts, depth - 1), max_size=2),
        st.lists(component(acts, 0), min_size=3, max_size=4))
    return st.fixed_dictionaries({
        'name': names, 'acts': st.one_of(
            st.lists(acts, max_size=3), st.lists(acts, max_size=3),
            st.lists(acts, min_size=4, max_size=6)), 'comps': sub})


def distinct(comps):
    """Sibling components need distinct names."""
    seen = set()
    out = []
    for c in comps:
        n = c['name']
        while n in seen:
            n += "'"
        seen.add(n)
        out.append(dict(c, name=n, comps=distinct(c['comps'])))
    return out


@st.composite
def models(draw, acts=None, max_entities=2, depth=2, period=None):
    acts = acts if acts is not None else st.one_of(basic(), basic(), loan())
    per = draw(period if period is not None else st.sampled_from(
        ['month', 'month', 'month', 'month', 'year', 'week', 'day', 'hour']))
    hi = {'month': 40, 'year': 6, 'week': 120, 'day': 40, 'hour': 30}[per]
    ents = draw(st.lists(st.fixed_dictionaries({
        'name': names, 'comps': st.lists(component(acts, depth), min_size=1,
                                         max_size=2)}),
        min_size=1, max_size=max_entities))
    ents = [dict(e, comps=distinct(e['comps'])) for e in distinct(
        [dict(e, comps=e['comps']) for e in ents])]
    return {'name': draw(st.sampled_from(['Model', 'M'])),
            'start': draw(moments(2000, 2050)), 'period': per,
            'count': draw(st.one_of(
                st.integers(1, hi), st.integers(min(hi, 13), hi),
                st.integers(min(hi, 13), hi), st.just(1))),
            'entities': ents}


def moment(m, w, default):
    if w is None:
        return default
    if isinstance(w, str):
        return datetime.fromisoformat(w)
    return cal.at(cal.dt(m['start']), m['period'], w[0]) + timedelta(
        seconds=w[1])


# ------------------------------------------------------------- construction
def structure():
    from auxi.modelling.financial.des import GeneralLedgerStructure
    g = GeneralLedgerStructure('GLS')
    for a in EXTRA:
        parent, name = a.rsplit('/', 1)
        g.get_account(parent).create_account(name, number='1' + name)
    return g


def make_activity(m, a):
    from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
    kw = {'amount': a['amount'], 'interval': a['interval'],
          'description': a['desc'],
          'start': moment(m, a['start'], datetime.min)}
    if a['kind'] == 'basic':
        kw['end'] = moment(m, a['end'], datetime.max)
    else:
        kw.update(interest_rate=a['rate'], duration=a['duration'])
    kw = terse(a['name'], kw, {
        'amount': 0, 'interval': 1, 'description': None, 'interest_rate': 0,
        'start': datetime.min, 'end': datetime.max, 'duration': 60})
    if a['kind'] == 'basic':
        return BasicActivity(a['name'], dt_account=a['dt'],
                             cr_account=a['cr'], **kw)
    return BasicLoanActivity(
        a['name'], bank_account=a['bank'], loan_account=a['loan'],
        interest_account=a['interest'], **kw)


def terse(name, kw, defaults):
    """Arguments, of every other name without those that have their default
    value."""
    return {k: v for k, v in kw.items()
            if len(name) % 2 == 0 or k not in defaults or v != defaults[k]}


def build(m, gls=None):
    """gls: a structure for all entities, instead of one for each."""
    from auxi.core.time import TimePeriod
    from auxi.modelling.business.models import TimeBasedModel
    model = TimeBasedModel(m['name'], **terse(m['name'], {
        'start_datetime': cal.dt(m['start']), 'period_count': m['count'],
        'period_duration': TimePeriod[m['period']]}, {
        'period_count': 1, 'period_duration': TimePeriod.year}))

    for e in m['entities']:
        fill(m, model.create_entity(e['name'], gls or structure()),
             e['comps'])
    return model


def fill(m, parent, comps):
    for c in comps:
        comp = parent.create_component(c['name'])
        for a in c['acts']:
            comp.add_activity(make_activity(m, a))
        fill(m, comp, c['comps'])


# --------------------------------------------------------------- reference
def window(m, start, end, interval):
    """Period indices in which an activity executes."""
    t0 = cal.dt(m['start'])
    times = [cal.at(t0, m['period'], i) for i in range(m['count'])]
    n = m['count']
    if start == datetime.min:
        first = 0
    else:
        later = [i for i, t in enumerate(times) if t > start]
        if later:
            first = later[0]
        else:
            first = 0 if start <= t0 else n
    stop = first + n
    if end != datetime.max:
        past = [i for i, t in enumerate(times) if t > end]
        if past:
            stop = max(past[0], first)
    return [i for i in range(n) if first <= i and i + interval <= stop
            and (i + 1) % interval == 0]


def annuity(amount, rate, n):
    r = rate / 12.0
    if r == 0:
        return amount / n
    return amount * r / (1 - (1 + r) ** -n)


def activity_txs(m, a, source):
    """{period index: [tx, ...]}; tx = (name, description, dt, cr, amount)"""
    out = {}
    label = a['name'] if a['desc'] is None else a['desc']
    if a['amount'] <= 0:
        return out
    if a['kind'] == 'basic':
        for i in window(m, moment(m, a['start'], datetime.min),
                        moment(m, a['end'], datetime.max), a['interval']):
            out[i] = [(label, '', a['dt'], a['cr'], a['amount'])]
        return out
    start = moment(m, a['start'], datetime.min)
    end = cal.add_months(start, a['duration'] + 1)
    left = a['amount']
    pay = annuity(a['amount'], a['rate'], a['duration'])
    months = 0
    for i in window(m, start, end, a['interval']):
        if months > a['duration']:  # paid off
            break
        if months == 0:
            out[i] = [(label, 'Make a loan', a['bank'], a['loan'],
                       a['amount'])]
        else:
            interest = left * a['rate'] / 12.0
            out[i] = [(label, 'Consider interest', a['interest'], a['loan'],
                       interest),
                      (label, 'Pay principle', a['loan'], a['bank'], pay)]
            left += interest - pay
        months += a['interval']
    return out


def paths(m):
    """All (path, activity spec) of each entity, in order of execution."""
    out = []
    for e in m['entities']:
        acts = []

        def walk(prefix, comps):
            for c in comps:
                p = prefix + '/' + c['name']
                walk(p, c['comps'])
                for a in c['acts']:
                    acts.append((p + '/' + a['name'], a))
        walk(m['name'] + '/' + e['name'], e['comps'])
        out.append((m['name'] + '/' + e['name'], acts))
    return out


def simulate(m):
    """Per entity: the business transactions in order of posting,
    (ix, date, source, name, description, dt, cr, amount)."""
    t0 = cal.dt(m['start'])
    res = []
    for path, acts in paths(m):
        per = [(src, activity_txs(m, a, src)) for src, a in acts]
        txs = []
        for i in range(m['count']):
            for src, d in per:
                for t in d.get(i, []):
                    txs.append((i, cal.at(t0, m['period'], i), src) + t)
        res.append((path, txs))
    return res


def under(acc, top):
    return acc.startswith(top + '/')


def closing(m, path, txs):
    """The closing transactions of one entity, per closed year:
    [(date, [(dt, cr, amount)], [known-bad variant of the same])]"""
    t0 = cal.dt(m['start'])
    last = cal.at(t0, m['period'], m['count'] - 1)
    horizon = cal.at(t0, m['period'], m['count'])
    out = []
    y0, y1 = t0, cal.add_months(t0, 12)
    for i in range(m['count']):
        now = cal.at(t0, m['period'], i)
        if now < y1:
            continue
        end = y1 - timedelta(seconds=1)
        gp, inc = {}, {}
        for t in txs:
            if not (y0 <= t[1] <= end):
                continue
            for acc, sign in ((t[6], 1), (t[5], -1)):
                typ = TYPES[acc]
                if under(acc, 'Sales') or under(acc, 'Cost of Sales'):
                    gp[acc] = gp.get(acc, 0) + sign * t[7]
                elif typ in ('revenue', 'expense'):
                    inc[acc] = inc.get(acc, 0) + sign * t[7]
        out.append((end, gp, inc))
        y0, y1 = y1, min(cal.add_months(y1, 12), horizon)
    return out


def tx_tuple(t):
    return (t.tx_date, t.source, t.name, t.description, t.dt_account,
            t.cr_account, t.amount)

"""Independent calendar arithmetic for clocks."""
import calendar
from datetime import datetime, timedelta

PERIODS = ['millisecond', 'second', 'minute', 'hour', 'day', 'week', 'month',
           'year']
_STEP = {'millisecond': timedelta(milliseconds=1),
         'second': timedelta(seconds=1), 'minute': timedelta(minutes=1),
         'hour': timedelta(hours=1), 'day': timedelta(days=1),
         'week': timedelta(days=7)}


def add_months(d, n):
    k = d.year * 12 + (d.month - 1) + n
    y, m = divmod(k, 12)
    m += 1
    return d.replace(year=y, month=m,
                     day=min(d.day, calendar.monthrange(y, m)[1]))


def at(start, period, ix):
    if period == 'month':
        return add_months(start, ix)
    if period == 'year':
        return add_months(start, 12 * ix)
    return start + ix * _STEP[period]


def dt(x):
    """[y, m, d, H, M, S, us] -> datetime"""
    return datetime(*x)

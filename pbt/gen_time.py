import calendar

from hypothesis import strategies as st

from pbt.caltime import PERIODS


@st.composite
def moments(draw, lo=1900, hi=2100, midnight=None):
    y = draw(st.one_of(st.integers(2010, 2024), st.integers(lo, hi)))
    if draw(st.integers(0, 7)) == 0:
        # leap days
        y = y // 4 * 4
        if y >= lo and calendar.isleap(y):
            return [y, 2, 29, 0, 0, 0, 0]
    m = draw(st.integers(1, 12))
    last = calendar.monthrange(y, m)[1]
    d = draw(st.one_of(st.just(1), st.integers(1, last), st.just(last)))
    if midnight or (midnight is None and draw(st.booleans())):
        return [y, m, d, 0, 0, 0, 0]
    return [y, m, d, draw(st.integers(0, 23)), draw(st.integers(0, 59)),
            draw(st.integers(0, 59)), draw(st.sampled_from(
                [0, 1, 999999, 500000]))]


periods = st.sampled_from(PERIODS)

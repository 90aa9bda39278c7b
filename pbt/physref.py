"""Reference formulas for physical properties, written from the literature the
modules quote, and helpers shared by the P and D property modules."""
import math

from hypothesis import strategies as st

from pbt import formula as F

R = 8.314462618
G = 9.80665


def M(compound):
    """[kg/kmol]"""
    return F.mass_of(F.parse(compound))


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


@st.composite
def logfl(draw, lo, hi):
    """A float spread evenly over the orders of magnitude of [lo, hi]."""
    return 10 ** draw(fl(math.log10(lo), math.log10(hi)))


@st.composite
def composition(draw, names, min_size=1, max_size=6, zeros=True, total=None):
    """{name: amount} with a positive total; total 1 half the time."""
    ns = draw(st.lists(st.sampled_from(names), min_size=min_size,
                       max_size=max_size, unique=True))
    xs = [draw(st.one_of(fl(0.001, 1.0), st.just(0.0)) if zeros else
               fl(0.001, 1.0)) for _ in ns]
    if sum(xs) == 0.0:
        xs[0] = 1.0
    if total is None:
        total = draw(st.sampled_from([1.0, None, 100.0]))
    if total:
        t = sum(xs)
        xs = [x / t * total for x in xs]
    return dict(zip(ns, xs))


def urbain(T, x):
    t = sum(x.values())
    x = {k: v / t for k, v in x.items()}

    def s(**w):
        return sum(x.get(k, 0.0) * c for k, c in w.items())

    g = s(SiO2=1, P2O5=1)
    m = s(CaO=1, MgO=1, Na2O=1, K2O=1, CaF2=3, FeO=1, MnO=1, TiO2=2, ZrO2=2)
    a = s(Al2O3=1, Fe2O3=1, B2O3=1)
    n = 1 + s(CaF2=1, Fe2O3=1, TiO2=1, ZrO2=1)
    al = m / (m + a)
    g /= n
    B = (13.8 + 39.9355 * al - 44.049 * al ** 2) \
        + (30.481 - 117.1505 * al + 129.9978 * al ** 2) * g \
        + (-40.9429 + 234.0846 * al - 300.04 * al ** 2) * g ** 2 \
        + (60.7619 - 153.9276 * al + 211.1616 * al ** 2) * g ** 3
    return math.exp(-0.2693 * B - 11.6725 + 1000 * B / T) * T / 10


RIBOUD = {'SiO2': 's', 'PO2.5': 's', 'TiO2': 's', 'ZrO2': 's', 'CaO': 'c',
          'MgO': 'c', 'FeO1.5': 'c', 'FeO': 'c', 'MnO': 'c', 'BO1.5': 'c',
          'Al2O3': 'a', 'CaF2': 'f', 'Na2O': 'n', 'K2O': 'n'}
DOUBLE = {'P2O5': 'PO2.5', 'Fe2O3': 'FeO1.5', 'B2O3': 'BO1.5'}


def riboud(T, x):
    q = {}
    for k, v in x.items():
        if k in DOUBLE:
            q[DOUBLE[k]] = q.get(DOUBLE[k], 0.0) + 2 * v
        elif k in RIBOUD:
            q[k] = q.get(k, 0.0) + v
    t = sum(q.values())
    cat = dict.fromkeys('scafn', 0.0)
    for k, v in q.items():
        cat[RIBOUD[k]] += v / t
    A = -17.51 - 33.76 * cat['a'] + 1.73 * cat['c'] + 5.82 * cat['f'] \
        + 7.02 * cat['n']
    B = 31140 + 68833 * cat['a'] - 23896 * cat['c'] - 46356 * cat['f'] \
        - 39159 * cat['n']
    return math.exp(A + B / T) * T / 10


def amounts(y):
    n = {k: v / M(k) for k, v in y.items()}
    t = sum(n.values())
    return {k: v / t for k, v in n.items()}


def wilke(x, mu):
    t = sum(x.values())
    x = {k: v / t for k, v in x.items()}
    r = 0.0
    for i in x:
        d = 0.0
        for j in x:
            phi = (1 + math.sqrt(mu[i] / mu[j]) * (M(j) / M(i)) ** 0.25) ** 2 \
                / math.sqrt(8 * (1 + M(i) / M(j)))
            d += x[j] * phi
        r += x[i] * mu[i] / d
    return r


def herning(x, mu):
    w = {i: x[i] * math.sqrt(M(i)) for i in x}
    return sum(w[i] * mu[i] for i in x) / sum(w.values())


def mixture_cp(x, cp):
    w = {i: x[i] * M(i) for i in x}
    return sum(w[i] * cp[i] for i in x) / sum(w.values())


def coal_a(y):
    """Mean atomic weight [kg/kmol]."""
    return 1 / sum(v / M(k) for k, v in y.items())


def coal_H(T, y):
    def g(z):
        return 1 / math.expm1(z)
    return R / (coal_a(y) / 1000) * (380 * g(380 / T) + 3600 * g(1800 / T))


def coal_Cp(T, y):
    def g(z):
        return (z / 2 / math.sinh(z / 2)) ** 2
    return R / (coal_a(y) / 1000) * (g(380 / T) + 2 * g(1800 / T))

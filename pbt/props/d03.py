"""D03: natural convection at flat surfaces follows its correlations."""
import math

from hypothesis import strategies as st

from auxi.modelling.process.materials.core import Material
from auxi.tools.materialphysicalproperties.core import StateOfMatter as S
from auxi.tools.materialphysicalproperties.gases import air
from auxi.tools.materialphysicalproperties.liquids import h2o
from auxi.tools.transportphenomena.heattransfer import naturalconvection as N
from pbt import physref as P
from pbt.core import Facet, close, req, same

RULE = ('non-trivial: a surface that is neither vertical nor at the '
        'temperature of the fluid.')
ASSUMPTIONS = [
    'angles from -90 to 90 degrees, negative for hot surfaces that face up; '
    'cold surfaces behave like their hot mirror image',
    'the regions are delimited by the base 10 logarithm of Ra, as their '
    'values (3 to 12) and plot say', 'fluids that expand when heated']


class Power:
    """c (T/300)^n"""

    def __init__(self, c, n):
        self.c, self.n = c, n

    def __call__(self, **state):
        return self.c * (state['T'] / 300.0) ** self.n


def nusselt(theta, Ra, Pr):
    lg = math.log10(Ra) if Ra > 0 else -math.inf
    if theta <= -52:
        return 0.59 * Ra ** 0.25 if lg <= 7 else 0.1 * Ra ** (1 / 3)
    if theta >= 88:
        return 0.58 * Ra ** 0.2
    if theta == 0:
        return 0.678 * Ra ** 0.25 * (Pr / (0.952 + Pr)) ** 0.25
    return 0.68 + 0.67 * Ra ** 0.25 / (
        1 + (0.492 / Pr) ** 0.5625) ** (4 / 9)


SPECIAL = [0.0, 45.0, -45.0, -52.0, -60.0, 60.0, 52.0, 88.0, -88.0, 89.0, 90.0,
           -90.0, 87.999, 88.001, 44.999, 45.001, 1e-9, -1e-9]


@st.composite
def cases(draw):
    c = {'kind': draw(st.sampled_from(['own', 'own', 'air', 'water'])),
         'gas': draw(st.booleans()), 'L': draw(P.logfl(1e-3, 10.0)),
         'theta': draw(st.one_of(P.fl(-90.0, 90.0),
                                 st.sampled_from(SPECIAL))),
         'fluid': {k: [draw(P.logfl(a, b)), draw(P.fl(-2.0, 2.0))]
                   for k, a, b in [('rho', 0.5, 2e3), ('Cp', 500, 5e3),
                                   ('k', 0.01, 1.0), ('mu', 1e-5, 1e-2),
                                   ('beta', 1e-4, 5e-3)]},
         'Tf': draw(P.fl(280.0, 370.0)),
         'Ts': draw(st.one_of(P.fl(280.0, 370.0), P.fl(280.0, 370.0),
                              st.just(None))),
         # the length is scaled to this Rayleigh number
         'Ra': draw(st.one_of(st.none(), P.fl(-1.0, 14.0),
                              st.sampled_from([6.999, 7.001, 4.0, 5.0, 9.0]))),
         'swap': draw(st.booleans())}
    return c

# [degrees] the angles of the regions
BANDS = [(-90.0, -60.0), (-60.0, -52.0), (-52.0, -45.0), (-45.0, 0.0),
         (0.0, 45.0), (45.0, 88.0), (88.0, 89.0), (89.0, 90.0)]


def reference(c, m, gas, Ts, Tf, theta, L):
    f = 0.38 if gas else 0.5
    Tr = Ts - f * (Ts - Tf)
    nu = m.mu(T=Tr) / m.rho(T=Tr) if c['kind'] != 'water' else m.nu(T=Tr)
    al = m.k(T=Tr) / m.rho(T=Tr) / m.Cp(T=Tr)
    be = m.beta(T=Tf if gas else Tr)
    th = theta if Ts > Tf else -theta
    g = P.G * (math.cos(math.radians(th)) if 0 < th < 45 else 1.0)

    def Ra(L):
        return g * be * abs(Ts - Tf) * L ** 3 / (nu * al)
    if L is None:
        L = (10 ** c['Ra'] / Ra(1.0)) ** (1 / 3)
    return th, Ra(L), nu / al, m.k(T=Tr), L, Tr


def check(c):
    if c['kind'] == 'own':
        m = Material('Own', S.unknown,
                     {k: Power(*v) for k, v in c['fluid'].items()})
        gas = c['gas']
    else:
        gas = c['kind'] == 'air'
        m = air if gas else h2o
    Tf = c['Tf']
    Ts = Tf if c['Ts'] is None else c['Ts']
    th, Ra, Pr, k, L, Tr = reference(
        c, m, gas, Ts, Tf, c['theta'],
        c['L'] if c['Ra'] is None or Ts == Tf else None)
    lg = math.log10(Ra) if Ra > 0 else -math.inf
    if abs(lg - 7) < 1e-9 or (th == 0 and abs(lg - 11) < 1e-9):
        return None
    want = nusselt(th, Ra, Pr)
    ifs = N.IsothermalFlatSurface(m) if gas and not c['swap'] else \
        N.IsothermalFlatSurface(m, isgas=gas)
    a = (L, c['theta'], Ts)
    r = 1e-8
    what = ' at angle %r, Ra %r' % (th, Ra)
    Nu = ifs.Nu_x(*a, T=Tf)
    req(not isinstance(Nu, complex), 'Nu is complex: %r', Nu)
    close(Nu, want, 'local Nusselt number' + what, rel=r)
    close(ifs.Tr, Tr, 'reference temperature')
    close(ifs.Nu_L(*a, T=Tf), want / 0.75, 'mean Nusselt number' + what, rel=r)
    close(ifs.h_x(*a, T=Tf), want * k / L, 'local coefficient' + what, rel=r)
    close(ifs.h_L(*a, T=Tf), want / 0.75 * k / L, 'mean coefficient' + what,
          rel=r)
    fresh = N.IsothermalFlatSurface(m, gas)
    close(fresh.h_L(*a, T=Tf), want / 0.75 * k / L,
          'mean coefficient asked first' + what, rel=r)
    # asked for another surface in between
    ifs.h_x(L, -30.0, Ts + 5.0, T=Tf + 1.0)
    close(ifs.h_x(*a, T=Tf), want * k / L, 'local coefficient again' + what,
          rel=r)
    if Ts == Tf:
        return None
    side = 'hot' if Ts > Tf else 'cold'
    return '%s %s %d' % (c['kind'], side, int(th // 15)) \
        if c['theta'] else None


@st.composite
def edges(draw):
    """Angles and Rayleigh numbers at the bounds of the regions."""
    hot = draw(st.booleans())
    band = draw(st.sampled_from(BANDS))
    th = draw(st.one_of(st.sampled_from(SPECIAL), P.fl(*band), P.fl(*band)))
    lg = draw(st.sampled_from([-1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]))
    return {'kind': 'own', 'gas': draw(st.booleans()), 'L': 1.0,
            'theta': th if hot else -th,
            'fluid': {'rho': [1.0, -1.0], 'Cp': [1000.0, 0.1],
                      'k': [0.03, 0.5], 'mu': [2e-5, 0.6],
                      'beta': [3e-3, -1.0]},
            'Tf': 320.0, 'Ts': 330.0 if hot else 310.0,
            'Ra': lg + draw(st.sampled_from([-1e-6, 1e-6, 0.1, 0.5, 0.9])),
            'swap': False}


@st.composite
def regions(draw):
    def bound(a, b):
        return draw(st.one_of(P.fl(a, b), st.integers(int(a), int(b))))
    t = sorted([bound(-90, 90), bound(-90, 90)])
    r = sorted([bound(0, 12), bound(0, 12)])
    opt = draw(st.integers(0, 3))
    return {'t': t, 'ti': [draw(st.booleans()), draw(st.booleans())],
            'r': [None if opt == 1 else r[0], None if opt == 2 else r[1]],
            'ri': [draw(st.booleans()), draw(st.booleans())],
            'p': draw(st.lists(st.tuples(
                st.one_of(st.sampled_from(t), P.fl(-95, 95)),
                st.one_of(st.sampled_from(r), P.fl(-1, 13))).map(list),
                min_size=1, max_size=8))}


def check_region(c):
    R = N.IsothermalFlatSurface.Region
    (t0, t1), (r0, r1) = c['t'], c['r']
    (a, b), (d, e) = c['ti'], c['ri']
    R('other', -90, True, 90, True, None, True, None, True)
    reg = R('q', t0, a, t1, b, r0, d, r1, e, 'about')
    inside = 0
    for th, ra in c['p']:
        want = (t0 < th or a and t0 == th) and (th < t1 or b and th == t1) \
            and (r0 is None or r0 < ra or d and r0 == ra) \
            and (r1 is None or ra < r1 or e and ra == r1)
        inside += want
        same(bool(reg.contains_point(th, ra)), bool(want),
             'containment of %r' % [th, ra])
    return 'in%d' % inside


FACETS = [
    Facet('surface', cases(), check, quick=500, thorough=10000),
    Facet('edges', edges(), check, quick=2500, thorough=30000),
    Facet('region', regions(), check_region, quick=200, thorough=4000),
]

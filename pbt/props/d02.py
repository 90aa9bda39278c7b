"""D02: friction factors satisfy their correlations; pressure drops scale."""
import io
import math
from contextlib import redirect_stdout

from hypothesis import strategies as st

from auxi.tools.transportphenomena.fluidflow import pressuredrop as pd
from pbt import physref as P
from pbt.core import Facet, close, req, same

RULE = 'non-trivial: a rough duct, and a turbulent flow.'
ASSUMPTIONS = ['Reynolds numbers from 2300 to 1e8 and relative roughness up '
               'to 0.05 for turbulent flow']


@st.composite
def cases(draw):
    return {'Re': draw(P.logfl(2300.0, 1e8)),
            'rel': draw(st.one_of(st.just(0.0), P.logfl(1e-7, 0.05))),
            'D': draw(P.logfl(1e-3, 10.0)), 'f': draw(P.fl(0.2, 5.0)),
            'L': draw(P.logfl(1e-2, 1e4)), 'rho': draw(P.logfl(0.01, 1e4)),
            'v': draw(P.fl(-100.0, 100.0)), 'lam': draw(P.logfl(0.1, 2300.0)),
            'w': draw(P.logfl(1e-3, 10.0)), 'h': draw(P.logfl(1e-3, 10.0))}


def quiet(fn, *a, **kw):
    out = io.StringIO()
    with redirect_stdout(out):
        r = fn(*a, **kw)
    return r, out.getvalue()


def check(c):
    Re, D = c['Re'], c['D']
    e = c['rel'] * D
    rel = e / D
    f = float(pd.f_tr_Colebrook(Re, e, D))
    req(f > 0, 'friction factor %r', f)
    s = 1 / math.sqrt(f)
    close(s, -2 * math.log10(rel / 3.7 + 2.51 / Re * s),
          'the Colebrook equation at f=%r' % f, rel=1e-7)
    k = c['f']
    close(pd.f_tr_Colebrook(Re, e * k, D * k), f, 'a similar duct', rel=1e-6)
    if e:
        req(pd.f_tr_Colebrook(Re, 0.0, D) < f, 'a smooth duct resists more')
    req(pd.f_tr_Colebrook(Re * 1.1, e, D) <= f * (1 + 1e-7),
        'friction grows with Re')
    h, _ = quiet(pd.f_tr_Haaland, Re, e, D)
    close(h, (-1.8 * math.log10(6.9 / Re + (rel / 3.7) ** 1.11)) ** -2,
          'Haaland friction factor')
    if Re >= 4000:
        close(h, f, 'Haaland against Colebrook', rel=0.04)
        if rel:
            same(quiet(pd.f_tr_Haaland, Re, e, D)[1], '', 'output in range')
    h2, out = quiet(pd.f_tr_Haaland, Re, e, D, warn=False)
    same((h2, out), (h, ''), 'Haaland without warnings')
    sm = pd.f_ts(Re)
    close(sm, (1.82 * math.log10(Re) - 1.64) ** -2, 'smooth friction factor')
    if Re >= 4000:
        close(sm, pd.f_tr_Colebrook(Re, 0.0, D), 'smooth against Colebrook',
              rel=0.04)
    close(pd.f_l(c['lam']), 64 / c['lam'], 'laminar friction factor')
    L, rho, v = c['L'], c['rho'], c['v']
    dp = pd.Δp(f, L, D, rho, v)
    close(dp, f * L / D * rho * v * v / 2, 'pressure drop')
    close(pd.Δp(f, L * k, D, rho, v), dp * k, 'a longer duct')
    close(pd.Δp(f, L, D, rho, v * k), dp * k * k, 'a faster flow')
    close(pd.Δp(f, L, D * k, rho, v), dp / k, 'a wider duct')
    close(pd.Δp(f, L, D, rho * k, v), dp * k, 'a denser fluid')
    close(pd.Δp(f, L, D, rho, v), pd.Δp(f, L / 3, D, rho, v)
          + pd.Δp(f, 2 * L / 3, D, rho, v), 'the sum over two sections')
    # laminar flow: Hagen and Poiseuille, 32 mu L v / D^2
    mu = rho * abs(v) * D / c['lam']
    if v:
        close(pd.Δp(pd.f_l(c['lam']), L, D, rho, v),
              32 * mu * L * abs(v) / D ** 2, 'laminar pressure drop')
    w, hh = c['w'], c['h']
    close(pd.D_h(math.pi * D * D / 4, math.pi * D), D,
          'hydraulic diameter of a pipe')
    close(pd.D_h(w * hh, 2 * (w + hh)), 2 * w * hh / (w + hh),
          'hydraulic diameter of a rectangular duct')
    return 'rough' if rel else None


@st.composite
def warns(draw):
    return {'Re': draw(st.one_of(P.logfl(100.0, 1e12), st.sampled_from(
        [4000.0, 1e8, 3999.9, 1.00001e8]))),
        'rel': draw(st.one_of(P.logfl(1e-4, 1.0), st.sampled_from(
            [0.0, 0.05, 0.05003, 0.0499]))),
        'D': draw(st.sampled_from([1.0, 0.5, 2.0]))}


def check_warn(c):
    e = c['rel'] * c['D']
    h, out = quiet(pd.f_tr_Haaland, c['Re'], e, c['D'])
    n = (not 0.0 <= c['rel'] <= 0.05) + (not 4000.0 <= c['Re'] <= 1e8)
    same(out.count('WARNING'), n, 'warnings')
    same('Reynolds' in out, not 4000.0 <= c['Re'] <= 1e8,
         'warning of the Reynolds number')
    same('ɛ/D' in out, c['rel'] > 0.05, 'warning of the roughness')
    h2, out = quiet(pd.f_tr_Haaland, c['Re'], e, c['D'], False)
    same((h2, out), (h, ''), 'without warnings')
    lg = math.log10(c['Re'])
    if c['Re'] > 1000.0:
        close(pd.f_ts(c['Re']), (1.82 * lg - 1.64) ** -2, 'smooth ducts')
    close(h, (1.8 * math.log10(6.9 / c['Re'] + (c['rel'] / 3.7) ** 1.11)) **
          -2, 'Haaland, within and beyond its range')
    close(pd.f_l(c['Re']), 64 / c['Re'], 'laminar flow')
    return 'warn%d' % n


FACETS = [
    Facet('duct', cases(), check, quick=1600, thorough=10000),
    Facet('warn', warns(), check_warn, quick=800, thorough=3000),
]

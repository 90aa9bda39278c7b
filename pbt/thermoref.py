"""Reference evaluation of piecewise heat capacity data.

A phase is {'DHref', 'Sref', 'recs': [[Tmin, Tmax, coeffs, exps], ...],
'mag': None or [Tc, beta0, p]}.  Enthalpy and entropy are the reference values
plus the integrals of Cp and Cp/T over the records; beyond the last record the
heat capacity is held constant.
"""
import json
import math
import os

R = 8.314462618


def data():
    path = os.path.join(os.path.dirname(__file__), 'data', 'thermo.json')
    with open(path) as f:
        return json.load(f)


def _poly(rec, T):
    return math.fsum(c * T ** e for c, e in zip(rec[2], rec[3]))


def _int(rec, a, b, shift):
    """Integral of Cp(T) * T**shift from a to b (shift 0 or -1)."""
    out = []
    for c, e in zip(rec[2], rec[3]):
        k = e + shift + 1.0
        if k == 0.0:
            out.append(c * math.log(b / a))
        else:
            # b**k - a**k without cancellation when b is close to a
            out.append(c * a ** k * math.expm1(k * math.log(b / a)) / k)
    return math.fsum(out)


def magnetic(mag, T):
    """(Cp, H, S) of the magnetic contribution (SGTE, Dinsdale 1991)."""
    if not mag:
        return 0.0, 0.0, 0.0
    Tc, beta0, p = mag
    t = T / Tc
    D = 518. / 1125 + 11692. / 15975 * (1. / p - 1)
    B = 474. / 497 * (1. / p - 1)
    A = 79. / (140 * p)
    if t <= 1:
        def g(t):
            return 1 - (A / t + B * (t**3/6 + t**9/135 + t**15/600)) / D
        dg = -(-A / t**2 + B * (t**2/2 + t**8/15 + t**14/40)) / D
        d2 = -(2*A / t**3 + B * (t + 8*t**7/15 + 14*t**13/40)) / D
    else:
        def g(t):
            return -(t**-5/10 + t**-15/315 + t**-25/1500) / D
        dg = (t**-6/2 + t**-16/21 + t**-26/60) / D
        d2 = -(3*t**-7 + 16*t**-17/21 + 26*t**-27/60) / D
    k = R * math.log(beta0 + 1)
    # G = k T g(t):  S = -dG/dT, H = G + T S, Cp = T dS/dT
    S = -k * (g(t) + t * dg)
    H = k * T * g(t) + T * S
    Cp = -k * t * (2 * dg + t * d2)
    return Cp, H, S


def cp(ph, T):
    recs = sorted(ph['recs'], key=lambda r: r[1])
    mag = magnetic(ph.get('mag'), T)[0]
    for r in recs:
        if T < r[1]:
            return _poly(r, T) + mag
    return _poly(recs[-1], recs[-1][1]) + mag


def hs(ph, T):
    recs = sorted(ph['recs'], key=lambda r: r[1])
    _, hm, sm = magnetic(ph.get('mag'), T)
    H, S = [ph['DHref'], hm], [ph['Sref'], sm]
    for r in recs:
        b = min(T, r[1])
        H.append(_int(r, r[0], b, 0.0))
        S.append(_int(r, r[0], b, -1.0))
        if T <= r[1]:
            break
    else:
        last = recs[-1]
        c = _poly(last, last[1])
        H.append(c * (T - last[1]))
        S.append(c * math.log(T / last[1]))
    return math.fsum(H), math.fsum(S)


def scale(ph, T):
    """Magnitude of the terms that go into H and S (for tolerances)."""
    h = abs(ph['DHref']) + 1.0
    s = abs(ph['Sref']) + 1.0
    for r in ph['recs']:
        for c, e in zip(r[2], r[3]):
            m = max(abs(c) * x ** e for x in (r[0], r[1], min(T, r[1])))
            h += m * max(r[1], r[0], T) * (1 + abs(math.log(r[1] / r[0])))
            s += m * (1 + abs(math.log(r[1] / r[0])))
    return h, s

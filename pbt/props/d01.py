"""D01: dimensionless quantities are what they are defined as."""
from hypothesis import strategies as st

from auxi.tools.transportphenomena import dimensionlessquantities as dq
from pbt import physref as P
from pbt.core import Facet, close, req

RULE = ('non-trivial: lengths, velocities and temperatures other than one, in '
        'changed units as well.')
ASSUMPTIONS = ['standard gravity, 9.80665 m/s2, where it is not a parameter']
pos = P.logfl(1e-9, 1e6)


@st.composite
def cases(draw):
    c = {k: draw(pos) for k in ['L', 'beta', 'nu', 'alpha', 'g', 'h', 'k',
                                'D', 'uL', 'ut', 'uT', 'ue']}
    c['v'] = draw(P.fl(-1e3, 1e3))
    c['Ts'] = draw(P.fl(0.5, 9000.0))
    c['Tf'] = draw(P.fl(0.5, 9000.0))
    return c


def check(c):
    L, nu, al, be, g = c['L'], c['nu'], c['alpha'], c['beta'], c['g']
    Ts, Tf, v = c['Ts'], c['Tf'], c['v']
    want = {
        'Gr': g * be * (Ts - Tf) * L * L * L / (nu * nu),
        'Pr': nu / al, 'Re': v * L / nu,
        'Ra': P.G * be * (Ts - Tf) * L * L * L / (nu * al),
        'Nu': c['h'] * L / c['k'], 'Sh': c['h'] * L / c['D']}
    Gr = dq.Gr(L, Ts, Tf, be, nu, g)
    close(Gr, want['Gr'], 'Grashof number', abs_=0)
    close(dq.Pr(nu, al), want['Pr'], 'Prandtl number', abs_=0)
    close(dq.Re(L, v, nu), want['Re'], 'Reynolds number', abs_=0)
    close(dq.Ra(L, Ts, Tf, al, be, nu), want['Ra'], 'Rayleigh number', abs_=0)
    close(dq.Nu(L, c['h'], c['k']), want['Nu'], 'Nusselt number', abs_=0)
    close(dq.Sh(L, c['h'], c['D']), want['Sh'], 'Sherwood number', abs_=0)
    close(dq.Ra(L, Ts, Tf, al, be, nu),
          dq.Gr(L, Ts, Tf, be, nu, P.G) * dq.Pr(nu, al), 'Ra as Gr Pr')
    close(dq.Gr(L=L, Ts=Ts, Tf=Tf, beta=be, nu=nu, g=g), want['Gr'],
          'Grashof number by name', abs_=0)
    close(dq.Ra(L=L, Ts=Ts, Tf=Tf, alpha=al, beta=be, nu=nu), want['Ra'],
          'Rayleigh number by name', abs_=0)
    for what, z in (('Grashof number without gravity',
                     dq.Gr(L, Ts, Tf, be, nu, 0.0)),
                    ('Grashof number of a fluid that does not expand',
                     dq.Gr(L, Ts, Tf, 0.0, nu, g)),
                    ('Rayleigh number at one temperature',
                     dq.Ra(L, Ts, Ts, al, be, nu)),
                    ('Reynolds number at rest', dq.Re(L, 0.0, nu)),
                    ('Nusselt number without transfer', dq.Nu(L, 0.0, c['k'])),
                    ('Sherwood number without transfer',
                     dq.Sh(L, 0.0, c['D']))):
        close(z, 0.0, what, abs_=0)
    # other units of length, time, temperature and energy change nothing
    uL, ut, uT, ue = c['uL'], c['ut'], c['uT'], c['ue']
    d = uL * uL / ut
    close(dq.Gr(L * uL, Ts * uT, Tf * uT, be / uT, nu * d, g * uL / ut / ut),
          Gr, 'Grashof number in other units', rel=1e-7,
          abs_=1e-12 * g * be * (Ts + Tf) * L ** 3 / nu ** 2)
    close(dq.Pr(nu * d, al * d), want['Pr'], 'Prandtl in other units')
    close(dq.Re(L * uL, v * uL / ut, nu * d), want['Re'],
          'Reynolds number in other units')
    close(dq.Nu(L * uL, c['h'] * ue / ut / uL ** 2 / uT,
                c['k'] * ue / ut / uL / uT), want['Nu'],
          'Nusselt number in other units')
    close(dq.Sh(L * uL, c['h'] * uL / ut, c['D'] * d), want['Sh'],
          'Sherwood number in other units')
    # cooling is the opposite of heating
    close(dq.Gr(L, Tf, Ts, be, nu, g), -Gr, 'Grashof number of a cold surface')
    close(dq.Ra(L, Tf, Ts, al, be, nu), -want['Ra'],
          'Rayleigh number of a cold surface')
    req(dq.Gr(L, Ts, Ts, be, nu, g) == 0, 'Gr without a difference')
    return 'hot' if Ts > Tf else 'cold'


FACETS = [Facet('numbers', cases(), check, quick=3000, thorough=20000)]

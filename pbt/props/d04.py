"""D04: the physical constants obey the laws that relate them."""
import math

import numpy
from hypothesis import strategies as st

from auxi.tools import physicalconstants as k
from auxi.tools.chemistry.stoichiometry import mass
from pbt.core import Facet, close, req
from pbt.atomic import MASS as WEIGHTS

RULE = 'non-trivial: every case (a law at a generated state).'
ASSUMPTIONS = ['CODATA 2018 (the reference the module quotes); elementary '
               'charge 1.602176634e-19 C, exact in SI']
E = 1.602176634e-19
# digits published by NIST for 2018
NIST = {'c': 299792458.0, 'G': 6.67430e-11, 'h': 6.62607015e-34,
        'h_bar': 1.054571817e-34, 'N_A': 6.02214076e23, 'k_B': 1.380649e-23,
        'F': 96485.33212, 'R': 8.314462618, 'σ': 5.670374419e-8,
        'm_u': 1.66053906660e-27, 'g': 9.80665,
        'T_NTP': 293.15, 'P_NTP': 101325.0, 'T_STP': 273.15,
        'P_STP': 1.0e5}
X, W = numpy.polynomial.legendre.leggauss(200)


def planck_integral():
    """The integral of x^3/(e^x - 1) from zero to infinity."""
    a, b = 0.0, 60.0
    x = 0.5 * (b - a) * X + 0.5 * (b + a)
    return 0.5 * (b - a) * float(numpy.sum(W * x**3 / numpy.expm1(x)))


PLANCK = planck_integral()


@st.composite
def cases(draw):
    num = st.floats(-6, 6, allow_nan=False).map(lambda e: 10.0**e)
    return {'name': draw(st.sampled_from(sorted(NIST))),
            'n': draw(num), 'T': draw(st.floats(0.1, 2e4)),
            'm': draw(num), 'M': draw(num), 'r': draw(num),
            'element': draw(st.sampled_from(sorted(WEIGHTS)))}


def check(case):
    n, t = case['n'], case['T']
    close(getattr(k, case['name']), NIST[case['name']],
          'constant ' + case['name'], 2e-9, 0)
    # an amount of gas holds the energy of its molecules
    close(n * k.R * t, n * k.N_A * k.k_B * t, 'n R T against N k T', 1e-9, 0)
    # the charge of an amount of ions
    close(n * k.F, n * k.N_A * E, 'charge of an amount of ions', 1e-9, 0)
    # the energy of a photon by its angular frequency
    close(k.h_bar * 2 * math.pi * n, k.h * n, 'photon energy', 1e-9, 0)
    # the radiation of a black body, from Planck's law
    x = k.k_B * t / k.h
    close(2 * math.pi * k.h / k.c**2 * x**4 * PLANCK, k.σ * t**4,
          'black body radiation', 1e-8, 0)
    # attraction
    close(k.G * case['m'] * case['M'] / case['r']**2,
          6.67430e-11 * case['m'] * case['M'] / case['r']**2,
          'attraction of two masses', 1e-9, 0)
    # the mass of an amount of atoms
    el = case['element']
    close(n * 1000.0 * k.N_A * k.m_u * WEIGHTS[el], mass(el, n),
          'mass of atoms of ' + el, 1e-8, 0)
    req(k.T_STP < k.T_NTP and k.P_STP < k.P_NTP, 'standard conditions')
    return case['name']


FACETS = [Facet('laws', cases(), check, quick=200, thorough=3000)]

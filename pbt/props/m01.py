"""M01: packages of chemical materials conserve mass and elements."""
from pbt import packages as pk
from pbt.atomic import MASS
from pbt.core import Facet, close, same
from pbt.formula import parse

RULE = ('non-trivial: at least one package of a history is made by adding or '
        'extracting a positive mass; a material of more than one compound.')
ASSUMPTIONS = ['masses up to 1e6 kg; compounds without a phase',
               'nothing is extracted from an empty package']


def composition(k):
    c = parse(k)
    tot = sum(MASS[e] * n for e, n in c.items())
    return {e: MASS[e] * n / tot for e, n in c.items()}


COMP = {k: composition(k) for k in pk.Chem.KEYS}


def elements(p, r, what):
    want = {}
    for k, m in r.m.items():
        for e, f in COMP[k].items():
            want[e] = want.get(e, 0.0) + m * f
    tol = 1e-9 * r.mass + 1e-15
    same(list(p.material.elements), sorted(want), what + ': elements')
    masses = p.get_element_masses()
    d = p.get_element_mass_dictionary()
    same(sorted(d), sorted(want), what + ': elements of the dictionary')
    for e, m in zip(p.material.elements, masses):
        close(m, want[e], '%s: mass of element %s' % (what, e), 1e-9, tol)
        close(d[e], want[e], '%s: mass of element %s' % (what, e), 1e-9, tol)
        close(p.get_element_mass(e), want[e], '%s: mass of element %s'
              % (what, e), 1e-9, tol)
    close(sum(masses), r.mass, what + ': mass of the elements', 1e-9, tol)
    close(p.get_element_mass('Xe'), 0.0, what + ': mass of xenon')


FACETS = [
    Facet('histories', pk.histories(pk.Chem), lambda c: pk.run(
        pk.Chem, c, elements), quick=700, thorough=20000, quick_shards=2),
    Facet('material', pk.material_cases(pk.Chem), lambda c: pk.check_material(
        pk.Chem, c), quick=300, thorough=6000),
]

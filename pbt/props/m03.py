"""M03: slurry packages conserve mass through every operation."""
from pbt import packages as pk
from pbt.core import Facet

RULE = ('non-trivial: at least one package of a history is made by adding or '
        'extracting a positive mass; a material of more than one size class.')
ASSUMPTIONS = ['masses up to 1e6 kg',
               'nothing is extracted from an empty package']

FACETS = [
    Facet('histories', pk.histories(pk.Slurry), lambda c: pk.run(pk.Slurry, c),
          quick=700, thorough=20000, quick_shards=2),
    Facet('material', pk.material_cases(pk.Slurry), lambda c: pk.check_material(
        pk.Slurry, c), quick=300, thorough=6000),
]

"""M05: thermochemical streams conserve mass, elements and enthalpy."""
from pbt import thermopkg as tp
from pbt.core import Facet

RULE = ('non-trivial: at least one operation of a history mixes, splits or '
        'heats a positive mass.')
ASSUMPTIONS = ['temperatures set between 0 and 1500 C',
               'nothing is extracted from an empty package or stream',
               'temperatures that are solved for are good to 0.05 K',
               'coal is not mixed with other matter of its own material']

FACETS = [
    Facet('histories', tp.histories(), lambda c: tp.run(tp.Stream, c),
          quick=500, thorough=12000, quick_shards=3),
    Facet('coal', tp.histories(True), lambda c: tp.run(tp.Stream, c),
          quick=400, thorough=10000, quick_shards=2),
]

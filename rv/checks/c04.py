from ..engine import differential, min_counts
PROP = 'C04'
RULE = ('One case is a seeded random history of a pdict next to the builtin that does the same (8-160 operations, from '
        'eight kinds of starting point, elements from one of the hostile universes); every result, exception and the full '
        'content after every operation are compared.  Evaluations are compared operations and reads; distinct are '
        'different (operation with arguments, size, universe, outcome).')
def plan(tier): return dict(cases=27000 if tier == 'quick' else 400000, deadline=300 if tier == 'quick' else 600)
def run_case(case): differential(case, ['pdict'])
MIN = min_counts('pdict')
ASSUME = ['the builtin list, set and dict of CPython 3.12 are the specification',
          'which of two equal keys is kept, the iteration order of sets and the choice made by pop/popitem are not claimed']

"""Orderings of sequences, and orderings, subset and disjointness tests of sets, over all ordered pairs of a pool."""
import operator
from collections import deque
from pcollections import pset, tset, pdict, tdict, ldict
from ..core import Violation, short
from ..pools import *
from .c09 import make_pool, attempt
PROP = 'C10'
BUSY = 2
RULE = ('One case is a pool of about 14 sequences or sets (every type, builtins, views; equal, prefix, empty, disjoint and '
        'overlapping contents); an evaluation is one comparison or subset test compared, exceptions included, with the builtins. '
        'Distinct are different (operator, types, sizes, outcome, universe).')
def plan(tier): return dict(cases=5000 if tier == 'quick' else 300000, deadline=300 if tier == 'quick' else 600)
OPS = dict(lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge)


class Plain: pass
# operands that are neither a sequence of pcollections, a list nor a set: both list and set raise TypeError for them
FOREIGN = [None, 5, 2.5, 'ab', b'ab', (), (1, 2), tuple, range(3), range(0), Plain(), {}, {1: 2}, lambda c: dict(enumerate(c)), pdict(), pdict({1: 2}), tdict({1: 2}),
           ldict({1: 2}), NotImplemented, iter, str, repr, deque, lambda c: {1: 2}.values(), lambda c: pdict({1: 2}).items().__iter__()]


def compare(case, fam, name, f, g, a, b, ma, mb, uni):
    want, we = attempt(g, ma, mb)
    case.op(name, type(a).__name__, short(ma, 80), type(b).__name__, short(mb, 80))
    got, ge = attempt(f, a, b)
    case.count['evaluations'] += 1
    case.count['raises' if we is not None else f'{name}:{want}'] += 1
    case.sig(name, type(a).__name__, type(b).__name__, len(ma), len(mb), repr(want), type(we).__name__, uni)
    if we is not None:
        if not isinstance(ge, TypeError):
            raise Violation(f'{fam}:{name}:no-error', f'{type(a).__name__} {name} {type(b).__name__} must raise TypeError, gives '
                            f'{got!r} {ge!r}', a=ma, b=mb)
    elif ge is not None:
        raise Violation(f'{fam}:{name}:raises', f'{type(a).__name__} {name} {type(b).__name__} raised {ge!r}', a=ma, b=mb, want=want)
    elif got is not want:
        raise Violation(f'{fam}:{name}', f'{type(a).__name__} {name} {type(b).__name__} is {got!r}, the builtins give {want!r}', a=ma, b=mb)


def run_case(case):
    rng = case.rng
    fam = ('seq', 'set')[case.index % 2]
    uni, pool = make_pool(case, fam, size=rng.choice((None, None, 0, 1, 2, 3)) if case.index % 200 > 3 else 'large')
    empty = 'plist tlist llist tllist'.split() if fam == 'seq' else ['pset', 'tset']
    pool = pool[:10]
    for k in empty: pool.append((build(k, [], rng), [] if fam == 'seq' else set(), []))
    if fam == 'seq':                         # prefixes and extensions
        base = pool[0][2]
        for k in (max(0, len(base) - 1), len(base) // 2):
            pool.append((build(rng.choice(SEQS), base[:k], rng), list(base[:k]), base[:k]))
    else:
        base = pool[0][2]
        for sub in (base[:-1], base[len(base) // 2:], base[:len(base) // 2]):
            pool.append((build(rng.choice(SETS), sub, rng), set(sub), sub))
    ours = lambda x: type(x).__module__.startswith('pcollections.')
    for a, ma, ca in pool:
        for b, mb, cb in pool:
            if not (ours(a) or ours(b)): continue
            for n, f in OPS.items(): compare(case, fam, n, f, f, a, b, ma, mb, uni)
            if fam == 'set' and type(a).__name__ in SETS:
                q = rng.random()
                if q > .7 and cb: cb = [rng.choice(cb) for _ in range(rng.randrange(9))] + list(cb); rng.shuffle(cb); case.count['duplicates'] += 1
                arg = b if q < .6 else rng.choice((list(cb), tuple(cb), build('plist', cb, rng), build('tlist', cb, rng))) if q < .9 else iter(list(cb)) if q < .95 else (x for x in cb)
                n = rng.choice(('issubset', 'issuperset', 'isdisjoint'))
                if q < .6:
                    for n in ('issubset', 'issuperset', 'isdisjoint'):
                        compare(case, fam, n, lambda x, y: getattr(x, n)(arg), lambda x, y: getattr(x, n)(y), a, b, ma, mb, uni)
                else:
                    case.count['iterable-argument'] += 1
                    compare(case, fam, n, lambda x, y: getattr(x, n)(arg), lambda x, y: getattr(x, n)(list(cb)), a, b, ma, mb, uni)
    for a, ma, ca in pool[:10]:              # operands of another kind: TypeError, whichever side they are on
        if not ours(a) or (fam == 'set' and not isinstance(a, (pset, tset))): continue
        for x in rng.sample(FOREIGN, 4):
            x = x(ca) if callable(x) else x
            for n, f in OPS.items():
                for p, q in ((a, x), (x, a)):
                    try: r = f(p, q)
                    except TypeError: case.count['foreign'] += 1; continue
                    except Exception as e: raise Violation(f'{fam}:{n}:foreign', f'{type(p).__name__} {n} {type(q).__name__} raised {e!r}', a=p, b=q)
                    raise Violation(f'{fam}:{n}:foreign', f'{type(p).__name__} {n} {type(q).__name__} must raise TypeError, gives {r!r}', a=p, b=q)
    if case.sample is None: case.sample = [short(x, 150) for x in case.log[-4:]]
MIN = {'large': 60, 'evaluations': 500000, 'raises': 20000, 'foreign': 100000, 'iterable-argument': 5000, 'duplicates': 3000}
for _n in list(OPS) + ['issubset', 'issuperset', 'isdisjoint']:
    MIN[_n + ':True'] = 2000; MIN[_n + ':False'] = 2000
ASSUME = ["elements' own comparisons are consistent: all four orderings are supported or none, and agree with =="]

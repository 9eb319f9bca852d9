"""setcmp, seqcmp and seqstr against independent definitions."""
import itertools, collections.abc
from ..core import Violation, short
from .. import values
from ..values import HK, PO, GetItemSeq, IterOnly
from ..pools import build, CT, LARGE
from ..ops import mkset, SETMAKERS
from pcollections.util import setcmp, seqcmp, seqstr
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
from .c19 import R, text
PROP = 'C23'
BUSY = 2
RULE = ('One case calls setcmp, seqcmp or seqstr with generated arguments of generated types and compares the result with an independent '
        'definition.  Distinct are different (function, argument types, sizes, result).')
def plan(tier): return dict(cases=180000 if tier == 'quick' else 1500000, deadline=300 if tier == 'quick' else 600)


class USet(collections.abc.Set):
    """A set type of the user's own, with no fast operations."""
    def __init__(self, xs): self.xs = list(dict.fromkeys(xs))
    def __len__(self): return len(self.xs)
    def __iter__(self): return iter(self.xs)
    def __contains__(self, x): return x in self.xs
    @classmethod
    def _from_iterable(cls, it): return cls(it)
class USeq(collections.abc.Sequence):
    def __init__(self, xs): self.xs = list(xs)
    def __len__(self): return len(self.xs)
    def __getitem__(self, i): return self.xs[i]
class Eq:
    """Comparable with = and <, logs nothing, equal across objects."""
    def __init__(self, n): self.n = n
    def __eq__(self, o): return self.n == o.n if isinstance(o, Eq) else NotImplemented
    def __lt__(self, o): return self.n < o.n if isinstance(o, Eq) else NotImplemented
    def __gt__(self, o): return self.n > o.n if isinstance(o, Eq) else NotImplemented
    def __hash__(self): return self.n % 3
    def __repr__(self): return f'Eq({self.n})'


def one_set(rng, xs, large=False):
    k = rng.choice(SETMAKERS + (('lkeys',) if large else ('user', 'lkeys')))
    if k == 'user': return USet(xs), k
    if k == 'lkeys': return ldict({x: lazy(lambda: 1) for x in xs}).keys(), k
    return mkset(k, xs), k


def do_setcmp(case, rng):
    u = values.HASHABLE[rng.choice(('ints', 'hk', 'hk-one', 'str', 'coll-int', 'hk-edge', 'mixed', 'numeq'))]
    a = [rng.choice(u) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))]
    q = rng.randrange(7)
    b = ([rng.choice(u) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))], list(a), a[:-1], a + [rng.choice(u)], [],
         [x for x in u if x not in a][:rng.randrange(5)], a[1:] + [rng.choice(u)])[q]
    rng.shuffle(b)
    if rng.random() < .0008:
        a = rng.sample(range(10**6), rng.choice(LARGE)); b = (list(a), a[:-1], a[1:] + [-1], a[::2], [-1 - x for x in a], a[:-1] + [-1, -2])[rng.randrange(6)]; rng.shuffle(b)
        if rng.random() < .5: a, b = b, a
        case.large()
    A, B = set(a), set(b); large = len(a) > 100
    (x, kx), (y, ky) = one_set(rng, a, large), one_set(rng, b, large)
    if rng.random() < .03: y, ky, B = x, kx, A
    want = 0 if A == B else -1 if A < B else 1 if A > B else None if not (A & B) else Ellipsis
    got = setcmp(x, y)
    case.op('setcmp', kx, a, ky, b)
    case.sig('setcmp', kx, ky, len(A), len(B), repr(want)); case.count['setcmp:' + repr(want)] += 1
    if got is not want and not (type(got) is int and got == want):
        raise Violation(f'setcmp:{want!r}', f'setcmp of {kx} {short(A)} and {ky} {short(B)} is {got!r}, expected {want!r}')
    bad = rng.choice(([], a, tuple(a), None, 3, 'ab', {}, {1: 2}, plist(a), tlist(), pdict(), tdict(), object(), iter(a)))
    for args in ((x, bad), (bad, x), (bad, bad)):
        try: r = setcmp(*args)
        except TypeError: case.count['typeerrors'] += 1; continue
        except Exception as e: raise Violation('setcmp:error', f'setcmp of {short(args)} raised {e!r}')
        raise Violation('setcmp:no-error', f'setcmp of {short(args)} returned {r!r}')


SEQM = dict(list=list, tuple=tuple, plist=plist, tlist=tlist, llist=llist, tllist=tllist, useq=USeq,
            lazyl=lambda xs: llist([lazy(lambda x=x: x) for x in xs]), shifted=lambda xs: plist([0] + list(xs)).delete(0),
            front=lambda xs: __import__('functools').reduce(lambda p, x: p.prepend(x), reversed(list(xs)), plist()))
# equal elements of different types: hashable and not, with unequal hashes, or ordered only among themselves
CROSS = {'cross-list': ([1], plist([1]), tlist([1]), llist([1]), [1, 2], plist([1, 2]), [], plist(), llist([lazy(lambda: 1)])),
         'cross-set': ({1}, frozenset([1]), pset([1]), tset([1]), {1, 2}, pset([1, 2]), set(), frozenset(), {1: 0}.keys()),
         'cross-num': (1, True, 1.0, 0, False, -0.0, 2, 2.0)}
def do_seqcmp(case, rng):
    kind = rng.choice(('int', 'float', 'str', 'Eq', 'tuple', 'po', 'nan', 'text', 'range', 'bytes', 'cross-list', 'cross-set', 'cross-num'))
    u = dict(int=range(4), float=(0, 0.5, 1, True, 2.0, 1.0), str=('a', 'b', 'ab', ''), Eq=[Eq(i) for i in (0, 1, 2, 0, 1)], tuple=[(), (1,), (1, 2), (2,)],
             po=[PO(n) for n in (1, 2, 3, 4, 6, 2)], nan=values.NANS + [1.0, 2.0], text='abc', range='', bytes=b'abc', **CROSS)[kind]
    n = rng.choice((0, 1, 2, 3, 5, 9, 33))
    if rng.random() < .0008: n = rng.choice(LARGE); case.large()
    if kind == 'range':
        a, b = range(rng.randrange(3), rng.randrange(7)), range(rng.randrange(3), rng.randrange(7))
    elif kind in ('text', 'bytes'):
        j = ''.join if kind == 'text' else bytes
        a = j([rng.choice(u) for _ in range(n)]); b = j([rng.choice(u) for _ in range(n)])
        if rng.random() < .5: b = a[:rng.randrange(n + 1)]
    else:
        a = [rng.choice(u) for _ in range(n)]
        q = rng.randrange(5)
        b = ([rng.choice(u) for _ in range(rng.randrange(5))], list(a), a[:-1], a + [rng.choice(u)], list(a))[q]
        if q == 4 and b: b[rng.randrange(len(b))] = rng.choice(u)
    want = 0
    for x, y in itertools.zip_longest(a, b, fillvalue=seqcmp):
        if x is seqcmp: want = -1; break
        if y is seqcmp: want = 1; break
        if x is y or x == y: continue
        want = -1 if x < y else 1 if x > y else None; break
    if kind in ('text', 'bytes', 'range'): x, y = a, b; kx = ky = kind
    else:
        kx, ky = rng.choice(list(SEQM)), rng.choice(list(SEQM))
        x, y = SEQM[kx](a), SEQM[ky](b)
    case.op('seqcmp', kx, a, ky, b)
    case.sig('seqcmp', kx, ky, kind, len(a), len(b), want); case.count['seqcmp:' + repr(want)] += 1
    got = seqcmp(x, y)
    if got is not want and not (type(got) is int and got == want):
        raise Violation(f'seqcmp:{want!r}', f'seqcmp of {kx} {short(a)} and {ky} {short(b)} is {got!r}, expected {want!r}')
    bad = rng.choice(([{1, 2}, set(), {}, {1: 2}, None, 3, object(), iter([1]), pset([1]), tset(), pdict({1: 2}), tdict(), ldict(), {1: 2}.keys(), frozenset([1])]))
    for args in ((x, bad), (bad, x), (bad, bad)):
        try: r = seqcmp(*args)
        except TypeError: case.count['typeerrors'] += 1; continue
        except Exception as e: raise Violation('seqcmp:error', f'seqcmp of {short(args)} raised {e!r}')
        raise Violation('seqcmp:no-error', f'seqcmp of {short(args)} returned {r!r}')
    if kx == ky and kx in ('list', 'tuple') and want is not None:            # the definition agrees with the builtin order
        if (x < y, x == y, x > y) != (want == -1, want == 0, want == 1): raise AssertionError((x, y, want))


def do_seqstr(case, rng):
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 8, 15)) if rng.random() > .0008 else rng.choice(LARGE)
    seps = (', ', ', ', ', ', '', ',', ' | ', '\n', '-----')
    sep = rng.choice(seps)
    xs = [R(text(rng, rng.choice((0, 1, 1, 2, 3, 4, 5, 9)))) for _ in range(n)]
    tostr = rng.choice((None, None, lambda e: '<%s>' % repr(e), lambda e: '', lambda e: repr(e)[:1], repr))
    ts = tostr or repr
    shape = rng.choice(('list', 'tuple', 'gen', 'iter', 'plist', 'tlist', 'llist', 'getitem', 'iteronly', 'dict', 'pdict', 'tdict', 'ldict', 'set', 'pset', 'str', 'inf'))
    kw = {}
    if sep != ', ' or rng.random() < .3: kw['sep'] = sep
    if tostr: kw['tostr'] = tostr
    if shape in ('dict', 'pdict', 'tdict', 'ldict'):
        kv = [(R(text(rng, rng.randrange(4))), x) for x in xs]
        arg = dict(dict=dict, pdict=pdict, tdict=tdict, ldict=ldict)[shape](kv)
        parts = [f'{ts(k)}: {ts(v)}' for k, v in arg.items()]
    elif shape == 'str': arg = 'héllo w'[:n]; parts = [ts(ch) for ch in arg]
    elif shape in ('set', 'pset'): arg = dict(set=set, pset=pset)[shape](xs); parts = [ts(e) for e in arg]
    elif shape == 'inf': arg = None; parts = [ts(e) for e in xs]
    else:
        arg = dict(list=list, tuple=tuple, gen=lambda s: (e for e in s), iter=iter, plist=plist, tlist=tlist, llist=llist, getitem=GetItemSeq,
                   iteronly=IterOnly)[shape](xs); parts = [ts(e) for e in xs]
    full = sep.join(parts)
    limit = None
    if rng.random() < .8 or shape == 'inf':
        limit = rng.choice((3, 4, 5, 60, max(3, len(full)), max(3, len(full) - 1), max(3, len(full) + 1), rng.randrange(3, 40), max(3, len(full) - 3 - len(sep))))
        kw['maxlen'] = limit
    if shape == 'inf':                     # only as many items are looked at as are needed
        tail = 'y' * 5; arg = itertools.chain(xs, (R(tail) for _ in range(4000)))
        parts = parts + [ts(R(tail))] * 300
        full = sep.join(parts)
        if len(full) <= limit: return      # (representations cut to nothing)
    case.op('seqstr', shape, [p[:60] for p in parts[:20]], sep, limit)
    if limit is None or len(full) <= limit: want = full
    else:
        top = sum(1 for e in itertools.accumulate(len(p) + len(sep) for p in parts) if e <= limit + 60)
        for k in range(min(top + 1, len(parts) - 1), -1, -1):
            want = sep.join(parts[:k] + ['...'])
            if len(want) <= limit: break
    got = seqstr(arg, **kw)
    case.sig('seqstr', shape, len(parts), len(want), limit, sep); case.count['seqstr:' + ('whole' if want is full else 'cut')] += 1
    if got != want:
        raise Violation('seqstr:' + ('long' if limit is not None and len(got) > limit else 'text'), f'seqstr is {got!r} ({len(got)}), expected {want!r} ({len(want)})',
                        parts=parts, options=(sep, limit))
    if rng.random() < .1:
        bad = rng.choice((2, 0, -1, 1.5, 'x', 60.0))
        try: r = seqstr(xs, maxlen=bad)
        except TypeError: case.count['typeerrors'] += 1
        except Exception as e: raise Violation('seqstr:maxlen', f'seqstr with maxlen={bad!r} raised {e!r}')
        else: raise Violation('seqstr:maxlen', f'seqstr with maxlen={bad!r} returned {r!r}')


def run_case(case):
    rng = case.rng
    for _ in range(3):
        case.count['evaluations'] += 1
        (do_setcmp, do_seqcmp, do_seqstr)[case.index % 3](case, rng)
    if case.sample is None: case.sample = [short(e, 200) for e in case.log[:1]]
MIN = {'large': 100, 'evaluations': 150000, 'seqstr:cut': 15000, 'seqstr:whole': 15000, 'setcmp:0': 4000, 'setcmp:-1': 4000, 'setcmp:1': 4000, 'setcmp:None': 4000,
       'setcmp:Ellipsis': 4000, 'seqcmp:0': 4000, 'seqcmp:-1': 4000, 'seqcmp:1': 4000, 'seqcmp:None': 500, 'typeerrors': 20000}

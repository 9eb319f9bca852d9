"""Element universes: hostile keys and values."""
import functools
from pcollections import plist, pset, pdict
from . import busy
from .busy import poke


class HK:
    """Hashable with a chosen hash; equal iff same `tag`.  Unequal HKs with equal hashes collide."""
    __slots__ = ('tag', 'h', '__weakref__')
    def __init__(self, tag, h): self.tag = tag; self.h = h
    def __hash__(self): return self.h
    def __eq__(self, o):
        if isinstance(o, HK): return self.tag == o.tag
        return NotImplemented
    def __repr__(self): return f'HK({self.tag},{self.h})'
    def __lt__(self, o):
        if isinstance(o, HK): return self.tag < o.tag
        return NotImplemented
    def __le__(self, o): return self.tag <= o.tag if isinstance(o, HK) else NotImplemented
    def __gt__(self, o): return self.tag > o.tag if isinstance(o, HK) else NotImplemented
    def __ge__(self, o): return self.tag >= o.tag if isinstance(o, HK) else NotImplemented
    def __reduce__(self): return (HK, (self.tag, self.h))


class Box:
    """Mutable, and hashable by its (fixed) name; equal by name and content."""
    def __init__(self, name, content=()): self.name = name; self.content = list(content)
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return self.name == o.name and self.content == o.content if isinstance(o, Box) else NotImplemented
    def __repr__(self): return f'Box({self.name},{self.content})'


class Ident:
    """Compared by identity only, not orderable."""
    __slots__ = ('n', '__weakref__')
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Ident({self.n})'


class NoEq:
    """Never equal to anything, not even to itself (like NaN), hashable."""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    def __hash__(self): return 7
    def __repr__(self): return f'NoEq({self.n})'


class PO:
    """Partially ordered by divisibility; equal iff equal numbers."""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, PO) and self.n == o.n
    def __hash__(self): return hash(self.n)
    def __lt__(self, o): return self.n != o.n and o.n % self.n == 0 if isinstance(o, PO) else NotImplemented
    def __le__(self, o): return o.n % self.n == 0 if isinstance(o, PO) else NotImplemented
    def __gt__(self, o): return self.n != o.n and self.n % o.n == 0 if isinstance(o, PO) else NotImplemented
    def __ge__(self, o): return self.n % o.n == 0 if isinstance(o, PO) else NotImplemented
    def __repr__(self): return f'PO({self.n})'


NANS = [float('nan'), float('nan')]
NOEQ = [NoEq(i) for i in range(3)]
IDENT = [Ident(i) for i in range(6)]
M61 = 2**61 - 1          # hash(M61) == 0, hash(M61 + k) == k
INTS_COLLIDING = [0, M61, 2 * M61, 1, M61 + 1, -1, -2, -M61 - 2, -M61 - 1, 2**61, 3 * M61 + 1]
HKS = [HK(t, t % 3) for t in range(12)]
HKS_ONE = [HK(100 + t, 5) for t in range(8)]
HKS_EDGE = [HK(200 + i, h) for i, h in enumerate((0, 2**63 - 1, -2**63, -2, 31, 32, 33, -1000, 2**40, 2**40 + 32))]
NUMS_EQ = [0, 0.0, False, 1, 1.0, True, 2, 2.0, 1 + 0j]
MIXED_HASHABLE = [None, Ellipsis, '', 'a', 'b', 'key', (), (1,), (1, 'x'), frozenset(), frozenset([1]),
                  b'', b'x', 3.5, float('inf'), int, len, NotImplemented, range(3), 'c' * 30]
NESTED = [plist([1, 2]), plist(), pset([1]), pset(), pdict(a=1), pdict()]

# values that differ only late, or in a way that is easily lost
LONG = ['x' * 40 + 'a', 'x' * 40 + 'b', 'X' * 40 + 'A', 'x' * 40, ' ' + 'x' * 40, 'x' * 40 + ' ', '\u00e9' * 20, 'e\u0301' * 20, '1', '1.0', 'True', 'None', b'x' * 40, b'X' * 40, 2**80, 2**80 + 1, float(2**80),
        -2**80, 10**30, 1e30, 2**61 - 1, 2**61, -2**61, 2**63, 2**64, (0,) * 50, (0,) * 49 + (1,), (0,) * 49, (0.0,) * 50, 0.1 + 0.2, 0.3]

def fresh(k):
    """An equal object that nothing else refers to, for the kinds of objects that can be copied."""
    t = type(k)
    if t is HK: return HK(k.tag, k.h)
    if t is int: return (k ^ 1) ^ 1
    if t is float: return k * 1.0 if k == k else k
    if t is str: return ''.join([*k])
    if t is bytes: return bytes(bytearray(k))
    if t is tuple: return tuple([*k])
    if t is frozenset: return frozenset([*k])
    return k

HASHABLE = {
    'ints': list(range(12)),
    'wide': list(range(400)),
    'coll-int': INTS_COLLIDING,
    'hk': HKS,
    'hk-one': HKS_ONE,
    'hk-edge': HKS_EDGE,
    'numeq': NUMS_EQ + [3, 4],
    'str': ['s%d' % i for i in range(15)],
    'mixed': MIXED_HASHABLE + [0, 1, -1, -2],
    'nested': NESTED + [1, 'a'],
    'nan': NANS + NOEQ + [1.0, 2],
    'long': LONG,
    'busy': busy.UNIVERSE,
    'all': list(range(6)) + INTS_COLLIDING + HKS + HKS_ONE[:4] + HKS_EDGE + MIXED_HASHABLE + NANS + IDENT + NESTED,
}
UNHASHABLE = [[], [1], {}, {'a': 1}, {1}, {2}, set(), bytearray(b'q')]
ANY = {
    **HASHABLE,
    'unhash': UNHASHABLE + [1, None],
    'sets': [{1}, {2}, {1, 2}, frozenset([1]), set(), {1}],
    'po': [PO(n) for n in (1, 2, 3, 4, 6, 6, 12)],
    'ident': IDENT,
    'lists': [[], [1], [1, 2], [2], [1]],
    'wild': MIXED_HASHABLE + UNHASHABLE + NANS + IDENT + NUMS_EQ + HKS[:3],
}


def draw_hashable(rng):
    name = rng.choice(list(HASHABLE))
    u = HASHABLE[name]
    return name, (lambda: rng.choice(u))


def draw_any(rng):
    name = rng.choice(list(ANY))
    u = ANY[name]
    return name, (lambda: rng.choice(u))


class GetItemSeq:
    """Iterable only through __getitem__ / IndexError."""
    def __init__(self, xs): self.xs = xs
    def __getitem__(self, i): poke(); return self.xs[i]


class IterOnly:
    """Iterable through __iter__ only (no len)."""
    def __init__(self, xs): self.xs = xs
    def __iter__(self):
        for x in self.xs: poke(); yield x


class BadHint:
    """Its length hint is wrong."""
    def __init__(self, xs, hint): self.it = iter(xs); self.hint = max(hint, 0)
    def __iter__(self): return self
    def __next__(self): poke(); return next(self.it)
    def __length_hint__(self): return self.hint


def iterable_shapes(rng, xs, hashable=False):
    """Two independent iterables of one random shape over the same objects."""
    from pcollections import tlist, tset
    k = rng.randrange(10)
    if k == 0: mk = list
    elif k == 1: mk = tuple
    elif k == 2: mk = lambda s: (poke() or e for e in s)
    elif k == 3: mk = lambda s: iter(list(s))
    elif k == 4: mk = plist
    elif k == 5: mk = tlist
    elif k == 6: mk = GetItemSeq
    elif k == 7: mk = IterOnly
    elif k == 8: mk = lambda s: map(lambda e: poke() or e, s)
    else: mk = lambda s, h=rng.choice((0, 1, len(xs) - 1, len(xs) + 3)): BadHint(s, h)
    return mk(list(xs)), list(xs), ('list', 'tuple', 'gen', 'iter', 'plist', 'tlist', 'getitem', 'iteronly', 'map', 'hint')[k]

# for collections of tens of thousands of elements: mostly different ones, some with equal hashes, neighbours and far apart
HUGE = list(range(-1000, 60000)) + [i + 2**61 - 1 for i in range(0, 60000, 7)] + [2**40 + i * 32**3 for i in range(20000)] + [f's{i}' for i in range(5000)]

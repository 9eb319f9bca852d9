"""Re-entrancy monitor.  User code that an operation calls (element `__eq__`, `__hash__`, `__lt__`, `__repr__`, iterators, sort keys,
functions of lazies) itself uses collections: other ones, throw-away versions of the receiver, and reads of the receiver when that is
persistent.  Each such nested use has a known answer; a wrong one is recorded here and reported by the differential monitor, and the
outer operation is judged as always.  Code that keeps state outside of its own objects while it calls out is what this finds."""
import random
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
from .core import short

ACTIVE = None           # (receiver or None, its content as identities)
DEPTH = 0
BAD = []
COUNT = 0
RNG = random.Random(1)
XS = list(range(40))
KV = {i: str(i) for i in range(40)}
COLL = [0, 2**61 - 1, 2 * (2**61 - 1)]           # equal hashes
P, S, D = plist(XS), pset(XS), pdict(KV)
PL, DL = llist(lazy(lambda x=x: x) for x in XS), ldict({k: lazy(lambda v=v: v) for k, v in KV.items()})


def _tl():
    t = P.transient(); t.append(1); del t[0]; t.prepend(5); t.insert(3, 'i')
    m = list(XS); m.append(1); del m[0]; m.insert(0, 5); m.insert(3, 'i')
    return list(t), m
def _td():
    t = D.transient(); t['q'] = 1; del t[3]; t.update({4: 'four'}); t.pop(5)
    m = dict(KV); m['q'] = 1; del m[3]; m.update({4: 'four'}); m.pop(5)
    return list(t.items()), list(m.items())
def _ts():
    t = S.transient(); t.add('q'); t.discard(3); t |= {50, 51}; t.update(COLL)
    m = set(XS); m.add('q'); m.discard(3); m |= {50, 51}; m.update(COLL)
    return set(t), m
def _tll():
    t = PL.transient(); t.append(lazy(lambda: 7)); t.pop(0)
    return list(t), XS[1:] + [7]
def _tld():
    t = DL.transient(); t['z'] = lazy(lambda: 7); del t[0]
    return list(t.items()), list(KV.items())[1:] + [('z', 7)]
THUNKS = [
    _tl, _td, _ts, _tll, _tld,
    lambda: (list(P.sort(reverse=True)), XS[::-1]),
    lambda: (list(P.sort(key=lambda x: -x)), XS[::-1]),
    lambda: (list(P + [1, 2]), XS + [1, 2]),
    lambda: (list(P[3:30:4]), XS[3:30:4]),
    lambda: (list(P.remove(7).insert(2, 9).delete(0)), [1, 9, 2] + [x for x in XS[3:] if x != 7]),
    lambda: (P == plist(XS), True), lambda: (P < plist(XS[:-1]), False), lambda: (hash(P), HP),
    lambda: (P.index(20), 20), lambda: (P.count(20), 1), lambda: (77 in P, False),
    lambda: (list(plist(COLL)), COLL), lambda: (list(P * 2), XS * 2), lambda: (list(P.reverse()), XS[::-1]),
    lambda: (set(S | {99}), set(XS) | {99}), lambda: (set(S & {1, 2, 99}), {1, 2}), lambda: (set(S ^ {1, 99}), (set(XS) | {99}) - {1}),
    lambda: (set(S - {1}), set(XS) - {1}), lambda: (S <= set(XS), True), lambda: (S == set(XS), True), lambda: (hash(S), HS),
    lambda: (set(pset(COLL).discard(COLL[1])), {COLL[0], COLL[2]}), lambda: (S.isdisjoint({99}), True),
    lambda: (list(D.set('q', 1).items()), list(KV.items()) + [('q', 1)]), lambda: (list(D.drop(3)), [x for x in XS if x != 3]),
    lambda: (D == KV, True), lambda: (hash(D), HD), lambda: (D.get(99, 5), 5), lambda: (list(D.values()), list(KV.values())),
    lambda: (list(pdict([(c, i) for i, c in enumerate(COLL)]).delete(COLL[0]).items()), [(COLL[1], 1), (COLL[2], 2)]),
    lambda: (list(D.update({1: 'one'}, z=2).items()), list({**KV, 1: 'one', 'z': 2}.items())),
    lambda: (D.setdefault('k', 4).get('k'), 4), lambda: (D.pop(4)[0], '4'),
    lambda: (list(PL), XS), lambda: (PL[3], 3), lambda: (list(DL.values()), list(KV.values())), lambda: (DL[4], '4'),
    lambda: (list(llist([lazy(lambda: 3), 4]).append(lazy(lambda: 5))), [3, 4, 5]),
    lambda: (list(ldict(a=lazy(lambda: 3)).set('b', lazy(lambda: 5)).items()), [('a', 3), ('b', 5)]),
    lambda: (lazy(lambda: list(P[:3]))(), [0, 1, 2]), lambda: (str(plist([1, plist([2])])), RP), lambda: (repr(pdict({1: pset([2])})), RD),
    lambda: (repr(pset([3])), RS), lambda: (list(zip(D.keys(), D.items())), [(k, (k, v)) for k, v in KV.items()]),
    lambda: (D.keys() == set(XS), True), lambda: (list(reversed(P)), XS[::-1]),
]
HP, HS, HD = hash(P), hash(S), hash(D)
RP, RD, RS = str(plist([1, plist([2])])), repr(pdict({1: pset([2])})), repr(pset([3]))


def own(o, ids, seq):
    """Throw-away uses of the receiver itself (persistent, not lazy): reads by identity and derived versions."""
    q = RNG.randrange(5)
    if q == 0: r = o
    elif q == 1: r = o.transient().persistent()
    elif q == 2:
        t = o.transient()
        if isinstance(o, pdict): t['throw-away'] = 1; t.clear()
        elif isinstance(o, pset): t.add('throw-away'); t.clear()
        else: t.append(1); t.prepend(2); t.clear()
        r = o
    elif q == 3:
        r = o
        if isinstance(o, plist): o.append(1).prepend(2).delete(0); o[:1]
        elif isinstance(o, pset): o.add('throw-away').clear()
        else: o.set('throw-away', 1).clear()
    else: r = o
    got = [id(x) for x in r]
    if isinstance(o, pdict): got = [(id(k), id(v)) for k, v in r.items()]
    if got != ids and (seq or q == 1 or sorted(got) != sorted(ids)):
        if not (q == 1 and not seq and sorted(got) == sorted(ids)):
            BAD.append(('own', q, type(o).__name__, f'{len(got)} elements instead of {len(ids)}' if len(got) != len(ids) else 'other elements'))


def poke():
    """Called by user code inside of operations."""
    global DEPTH, COUNT
    if ACTIVE is None or DEPTH: return
    if RNG.random() < .6: return
    DEPTH = 1
    try:
        COUNT += 1
        o, ids = ACTIVE
        if o is not None and RNG.random() < .4: own(o, ids, not isinstance(o, pset)); return
        k = RNG.randrange(len(THUNKS))
        got, want = THUNKS[k]()
        if got != want: BAD.append((k, short(got), short(want)))
    except Exception as e:
        BAD.append(('raised', repr(e), e.__traceback__ and e.__traceback__.tb_next and e.__traceback__.tb_next.tb_lineno))
    finally: DEPTH = 0


class during:
    """Marks the dynamic extent of one observed operation on `obj`."""
    def __init__(self, obj): self.obj = obj
    def __enter__(self):
        global ACTIVE
        o = self.obj
        if type(o) is pdict: ids = [(id(k), id(v)) for k, v in o.items()]
        elif type(o) in (plist, pset): ids = [id(x) for x in o]
        else: o, ids = None, None
        self.keep = o
        ACTIVE = o, ids
    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None


class Busy:
    """Hashable, comparable, some of them with equal hashes; uses collections while it is asked."""
    __slots__ = ('tag', 'h', '__weakref__')
    def __init__(self, tag, h): self.tag = tag; self.h = h
    def __hash__(self): poke(); return self.h
    def __eq__(self, o): poke(); return self.tag == o.tag if isinstance(o, Busy) else NotImplemented
    def __lt__(self, o): poke(); return self.tag < o.tag if isinstance(o, Busy) else NotImplemented
    def __gt__(self, o): poke(); return self.tag > o.tag if isinstance(o, Busy) else NotImplemented
    def __le__(self, o): poke(); return self.tag <= o.tag if isinstance(o, Busy) else NotImplemented
    def __ge__(self, o): poke(); return self.tag >= o.tag if isinstance(o, Busy) else NotImplemented
    def __repr__(self): poke(); return f'Busy({self.tag})'
    def __reduce__(self): poke(); return (Busy, (self.tag, self.h))


UNIVERSE = [Busy(t, t % 4) for t in range(10)] + [Busy(t, t % 4) for t in range(4)]

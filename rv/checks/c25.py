"""Default operations of the abstract classes, on minimal subclasses of two kinds each, against list, set and dict."""
import collections.abc as cabc, operator, pickle, copy
from ..core import Violation, short
from .. import ops, values, selfref
from ..engine import Differ, attempt, same, content, mcontent
from ..ops import KINDS, FOREIGN, SetContent
from ..minimal import *
from ..minimal import PAIRS as MPAIR
from .c17 import Absent
from .c19 import fmt, R, text
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict
from pcollections.abc import Persistent, Transient
PROP = 'C25'
BUSY = 2
RULE = ('One case is a history of operations on a minimal subclass of PersistentSequence, TransientSequence, PersistentSet, TransientSet, '
        'PersistentMapping or TransientMapping (two independent representations of each) in step with list, set or dict; after every '
        'step results, types, the unchanged receiver, comparisons, hash, printing and pickling are judged.  Distinct are different '
        '(class, operation, size, outcome).')
def plan(tier): return dict(cases=48000 if tier == 'quick' else 200000, deadline=300 if tier == 'quick' else 600)


def drop(d, *names): return {k: v for k, v in d.items() if k not in names}
# operations the abstract class leaves to the implementation, or that concern only the concrete types
NAMES = {}
for P, T in MPAIR.items():
    fam = 'seq' if issubclass(P, PersistentSequence) else 'set' if issubclass(P, PersistentSet) else 'map'
    base = KINDS[{'seq': 'plist', 'set': 'pset', 'map': 'pdict'}[fam]]; tbase = KINDS[{'seq': 'tlist', 'set': 'tset', 'map': 'tdict'}[fam]]
    base, tbase = [t[:-2] + (drop(t[-2], 'revviews'), drop(t[-1], 'revviews')) for t in (base, tbase)]     # not listed by the documentation
    KINDS[P.__name__] = (fam, True, P) + base[3:]
    KINDS[T.__name__] = (fam, False, T) + tbase[3:]
    NAMES[P.__name__] = P; NAMES[T.__name__] = T
NAMES = dict(NAMES)
KLIST = list(NAMES)


class MDiffer(Differ):
    def start(self, size=None):
        rng, env = self.rng, self.env
        n = rng.choice((0, 1, 2, 3, 5, 9, 20)) if size is None else size
        C = NAMES[self.kind]
        if self.fam == 'map': kv = {env.key(): env.elem() for _ in range(n)}; obj, model = C(kv), dict(kv)
        elif self.fam == 'set': xs = {env.key() for _ in range(n)}; obj, model = C(xs), set(xs)
        else: xs = [env.elem() for _ in range(n)]; obj, model = C(xs), list(xs)
        self.case.op('start', self.kind, self.uni, short(model))
        return obj, model


def b(x): return x if isinstance(x, bool) else None
def reads(case, d, o, m):
    """Operations that are not in the tables."""
    rng = case.rng; c = case.count; fam = d.fam; C = type(o); kind = d.kind
    P = C if d.pers else next(p for p, t in MPAIR.items() if t is C); T = MPAIR[P]
    def ok(name, cond, *info):
        c['evaluations'] += 1; c['read:' + name] += 1
        if not cond: raise Violation(f'{kind}.{name}', f'{name} of a {kind} is wrong', model=m, info=info)
    def ev(f, *a):
        r, e = attempt(f, *a)
        return e if e is not None else r
    if fam == 'seq':
        ms = list(m); o2c = [list(m), list(m)[:-1], list(m) + [d.env.elem()], list(reversed(m)), [d.env.elem() for _ in range(3)]][rng.randrange(5)]
        twin, q = C(o2c), o2c
        ok('==', b(ev(operator.eq, o, twin)) is (ms == q), twin); ok('!=', b(ev(operator.ne, o, twin)) is (ms != q), twin)
        ok('== itself', (o == o) is True and (o == C(ms)) is True)
        if d.pers:
            h1, h2 = attempt(hash, o), attempt(hash, C(ms)); mh = attempt(hash, tuple(ms))
            ok('hash', (mh[1] is None and h1[1] is None and h1[0] == h2[0]) or (mh[1] is not None and isinstance(h1[1], TypeError)), h1, mh)
        for nm, f in (('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
            w = attempt(f, ms, q); g = attempt(f, o, twin); g2 = attempt(f, o, q)
            if w[1] is None and type(w[0]) is bool and all(type(x) in (int, str, tuple, float) and x == x for x in ms + q):
                ok(nm, g[0] is w[0] and g2[0] is w[0], twin, g, g2)
        parts = [repr(x) for x in ms]; B = ('[|', '|]') if d.pers else ('[<', '>]')
        bad = ([d.env.elem()], (1,), {1}, 'ab', None, 5)[rng.randrange(1, 6)]
        ok('+ with a non-list', isinstance(ev(operator.add, o, bad), TypeError), bad)
        if not d.pers:                       # results are lists of their own, also those that hold what the receiver holds
            ext = [d.env.elem() for _ in range(rng.choice((0, 0, 1, 2)))]; k = rng.randrange(7)
            nm, f, w = (('+', lambda: o + ext, ms + ext), ('r+', lambda: ext + o, ext + ms), ('*', lambda: o * 1, ms), ('r*', lambda: 1 * o, ms), ('*2', lambda: o * 2, ms * 2),
                        ('copy', o.copy, ms), ('+ itself', lambda: o + o, ms * 2))[k]
            r = ev(f)
            ok('new ' + nm, type(r) is C and r is not o and same(content(fam, r), w), r, ext)
            r.append(1); r.prepend(2)
            ok('new ' + nm, same(content(fam, o), ms) and same(content(fam, r), [2, *w, 1]), r, ext)
    elif fam == 'set':
        ms = set(m); q = [ms | {d.env.key()}, set(list(ms)[:-1]), {d.env.key() for _ in range(3)}, set(ms), set()][rng.randrange(5)]
        for mk in (C, set, frozenset, lambda s: dict.fromkeys(s).keys(), P, T):
            twin = mk(q)
            for nm, f in (('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
                ok(nm, b(ev(f, o, twin)) is f(ms, q), twin); ok('r' + nm, b(ev(f, twin, o)) is f(q, ms), twin)
            ok('isdisjoint', ev(o.isdisjoint, twin) is ms.isdisjoint(q), twin)
        ok('isdisjoint list', ev(o.isdisjoint, list(q)) is ms.isdisjoint(q), q)
        ok('issubset', ev(o.issubset, list(q)) is ms.issubset(q), q); ok('issuperset', ev(o.issuperset, iter(list(q))) is ms.issuperset(q), q)
        if d.pers: ok('hash', ev(hash, o) == ev(hash, C(list(ms)[::-1])))
        ok('| with a list', isinstance(ev(operator.or_, o, [1]), TypeError)); ok('== other', (o == [1]) is False and (o == 5) is False)
        parts = [repr(x) for x in o]; B = ('{|', '|}') if d.pers else ('{<', '>}')
    else:
        ms = dict(m); q = dict(ms)
        k = rng.randrange(5)
        if k == 1 and q: q.pop(rng.choice(list(q)))
        elif k == 2: q[d.env.key()] = d.env.elem()
        elif k == 3: q = dict(reversed(list(q.items())))
        for mk in (C, dict):
            twin = mk(q)
            ok('==', b(ev(operator.eq, o, twin)) is (ms == q), twin); ok('!=', b(ev(operator.ne, o, twin)) is (ms != q), twin)
        if d.pers:
            mh = attempt(lambda: hash(frozenset(ms.items()))); h1, h2 = attempt(hash, o), attempt(hash, C(list(ms.items())[::-1]))
            ok('hash', (mh[1] is None and h1[1] is None and h1[0] == h2[0]) or (mh[1] is not None and isinstance(h1[1], TypeError)), h1, h2, mh)
        ok('== other', (o == [1]) is False and (o == 5) is False)
        parts = [f'{k!r}: {o[k]!r}' for k in o]; B = ('{|', '|}')
    ok('repr', repr(o) == B[0] + fmt(parts)[0] + B[1], repr(o))
    sb = B if fam != 'map' or d.pers else ('{<', '>}')
    ok('str', str(o) == sb[0] + fmt(parts, 60)[0] + sb[1], str(o))
    ok('copy', type(o.copy()) is C and same(content(fam, o.copy()), mcontent(fam, m)) and (o.copy() is o if d.pers else o.copy() is not o))
    ok('isinstance', isinstance(o, Persistent if d.pers else Transient))
    if d.pers:
        for nm, f in (('setattr', lambda: setattr(o, 'x', 1)), ('setattr new', lambda: setattr(o, 'zzz', 1)), ('setitem', lambda: operator.setitem(o, 0, 1)),
                      ('delitem', lambda: operator.delitem(o, 0)), ('delattr', lambda: delattr(o, 'x'))):
            ok(nm, isinstance(ev(f), TypeError))
    if d.uni in ('ints', 'wide', 'str', 'coll-int', 'hk', 'numeq') and fam != 'map':
        for p in (0, 2, pickle.HIGHEST_PROTOCOL):
            r = ev(lambda: pickle.loads(pickle.dumps(o, p)))
            ok('pickle', type(r) is C and (r == o) is True and content(fam, r) == content(fam, o) if fam == 'set' else type(r) is C and (r == o) is True, p, r)
    r = ev(copy.copy, o); ok('copy.copy', type(r) is C and same(content(fam, r), mcontent(fam, m)), r)


# ------------------------------------------------------------------ faults
class Boom(Exception): pass
class Stop(BaseException): pass
ERRORS = (Boom, IndexError, TypeError, AttributeError, ValueError, Stop, RuntimeError, ZeroDivisionError)
class Poison:
    """Its hash (how == 0), its comparison with keys of its own hash (1) or every comparison (2) raises."""
    def __init__(self, how, E, h=0): self.how, self.E, self.h = how, E, h
    def __hash__(self):
        if self.how == 0: raise self.E('poison')
        return self.h
    def __eq__(self, o):
        if o is self: return True
        if self.how == 2: raise self.E('poison')
        if self.how == 1:
            try: h = hash(o)
            except TypeError: return False
            if h == self.h: raise self.E('poison')
        return False
    def __repr__(self): return f'Poison({self.how},{self.E.__name__})'
class BadIx:
    def __init__(self, E): self.E = E
    def __index__(self): raise self.E('index')
def failing(xs, E):
    yield from xs
    raise E('iterable')
class BadIter:
    def __init__(self, xs, E): self.xs, self.E = list(xs), E
    def __iter__(self): return self
    def __next__(self):
        if self.xs: return self.xs.pop(0)
        raise self.E('iterable')
class BadKeys:
    def __init__(self, d, E): self.d, self.E = d, E
    def keys(self): return list(self.d) + ['missing']
    def __getitem__(self, k):
        if k in self.d: return self.d[k]
        raise self.E(k)


def caught(f, x):
    try: return None, f(x)
    except BaseException as e:
        if isinstance(e, (Violation, KeyboardInterrupt, SystemExit, MemoryError)): raise
        return type(e), None


def faults(case, d, o, m):
    """One operation during which a key, an element, an index or an iterable fails, against the builtin doing the same.

    The exception must be the builtin's, a persistent receiver must not change, and a transient must hold what the builtin holds.
    """
    rng = case.rng; c = case.count; kind, fam, pers = d.kind, d.fam, d.pers
    E = rng.choice(ERRORS); EI = rng.choice(ERRORS)
    def elems(n=None): return [(d.env.key if fam != 'seq' else d.env.elem)() for _ in range(rng.randrange(4) if n is None else n)]
    def bad(algebra=False):
        k = rng.randrange(2 if algebra else 4)
        if k == 0: return rng.choice(([], {}, bytearray(b'x')))
        if k == 1 or not m or fam == 'seq': return Poison(0, E)
        y = next(iter(m)); p = Poison(1, E, hash(y))
        # a key that does not ask Poison would let it in (and which of two equal elements a set keeps is not claimed)
        return Poison(0, E) if any(caught(lambda _: z == p, 0)[0] is None for z in [y, *[z for z in o if hash(z) == p.h]]) else p
    def its(algebra=False):
        """Two equal iterables that fail at some point."""
        xs = elems(0 if algebra else None); k = rng.randrange(3); p = bad(algebra)
        if fam == 'seq': k = rng.randrange(2)
        if k == 0: return lambda: failing(xs, EI)
        if k == 1: return lambda: BadIter(xs, EI)
        return lambda: [*xs, p] + xs[:1]
    perm = False
    if fam == 'seq':
        x = Poison(2, E); ix = rng.choice((BadIx(E), 'a', None, 1.5, BadIx(E), len(m), -len(m) - 1, [])); it = its()
        stop = rng.randrange(len(m) + 1)
        def keyf():
            n = [0]
            def f(v):
                n[0] += 1
                if n[0] > stop: raise EI('key')
                return id(v)
            return f
        forms = [('in', lambda q: x in q, None), ('index', lambda q: q.index(x), None), ('count', lambda q: q.count(x), None), ('remove', lambda q: q.remove(x), None),
                 ('extend', lambda q: q.extend(it()), lambda l: l.extend(it()) if not pers else list(l).extend(it())), ('sort', lambda q: q.sort(key=keyf()), None),
                 ('pop', lambda q: q.pop(ix), None), ('index at', lambda q: q.index(x, 1, 5), None), ('sort mixed', lambda q: q.sort(key=lambda v: [1, 'a'][id(v) // 16 % 2]), None),
                 ('index start', lambda q: q.index(object(), rng_ix), None)]
        rng_ix = rng.choice(('a', []))
        nm, f, g = forms[rng.randrange(len(forms))]
        perm = nm.startswith('sort')
        if nm == 'pop' and not m and ix is not None: return         # an empty list raises IndexError whatever the index is
    elif fam == 'set':
        x = bad(); it = its(); al = its(True); one = bad(True)      # what set algebra compares, and when, is not claimed
        forms = [('in', lambda q: x in q, None), ('remove', lambda q: q.remove(x), None), ('addall', lambda q: q.addall(it()), lambda s: s.update(it())),
                 ('discardall', lambda q: q.discardall(it()), lambda s: [s.discard(y) for y in it()]), ('removeall', lambda q: q.removeall(it()), lambda s: [s.remove(y) for y in it()]),
                 ('isdisjoint', lambda q: q.isdisjoint(al()), None), ('issuperset', lambda q: q.issuperset([one]), None), ('issubset', lambda q: q.issubset(al()), None),
                 ('union', lambda q: q.union(al()), None), ('intersection', lambda q: q.intersection(al()), None), ('difference', lambda q: q.difference(al()), None),
                 ('symmetric_difference', lambda q: q.symmetric_difference(al()), None)]
        if not pers:
            forms += [('difference_update', lambda q: q.difference_update(al()), None), ('intersection_update', lambda q: q.intersection_update(al()), None),
                      ('symmetric_difference_update', lambda q: q.symmetric_difference_update(al()), None), ('update', lambda q: q.update(al()), None)]
        nm, f, g = forms[rng.randrange(len(forms))]
        if nm in ('isdisjoint', 'intersection', 'difference', 'difference_update', 'intersection_update') and not m: return
        if nm == 'isdisjoint': f = lambda q: q.isdisjoint([one])     # the builtin stops at the first common element
    else:
        x = bad(); v = d.env.elem(); xs = elems(); ws = [d.env.elem() for _ in xs]
        k = rng.randrange(4); base = dict(zip(xs, ws)); pairs = list(zip(xs, ws))
        arg = [lambda: failing(pairs, EI), lambda: [*pairs, (x, v)], lambda: BadKeys(base, EI), lambda: [*pairs, rng_pair]][k]
        rng_pair = rng.choice(((1,), (1, 2, 3), 5, None, ()))
        it = its()
        if pers:
            kv = ([*xs, x], [*ws, v, v])
            forms = [('setall', lambda q: q.setall(*kv), lambda q: q.update(zip(*kv))), ('dropall', lambda q: q.dropall(it()), lambda q: [q.__delitem__(y) for y in it() if y in q]),
                     ('delete', lambda q: q.delete(x), lambda q: q.__delitem__(x)), ('setdefault', lambda q: q.setdefault(x, v), None), ('deleteall', lambda q: q.deleteall(it()), lambda q: [q.__delitem__(y) for y in it()])]
        else: forms = [('setdefault', lambda q: q.setdefault(x, v), None)]
        forms += [('in', lambda q: x in q, None), ('get', lambda q: q.get(x), None), ('get default', lambda q: q.get(x, v), None), ('pop', lambda q: q.pop(x), None),
                  ('pop default', lambda q: q.pop(x, v), None), ('update', lambda q: q.update(arg()), None), ('in keys', lambda q: x in q.keys(), None), ('in items', lambda q: (x, v) in q.items(), None)]
        nm, f, g = forms[rng.randrange(len(forms))]
        if nm.startswith('pop') and not m: return                    # an empty dict does not look at the key
    mm = type(m)(m) if pers else m
    before = content(fam, o)
    me, _ = caught(g or f, mm); se, _ = caught(f, o)
    case.op('fault', nm, me and me.__name__)
    c['evaluations'] += 1; c['fault:' + nm] += 1; c['faults raised'] += me is not None
    if se is not me: raise Violation(f'{kind}.{nm}:fault', f'{nm} of a {kind} with a failing argument raised {se and se.__name__}, {type(m).__name__} {me and me.__name__}', model=m)
    after = content(fam, o)
    if pers or perm or me is None and nm in ('in', 'index', 'count', 'get'):
        if perm and not pers:
            ok = sorted(map(id, after)) == sorted(map(id, before)); m[:] = after
        else: ok = same(after, before)
        if not ok: raise Violation(f'{kind}.{nm}:fault:content', f'a failing {nm} of a {kind} changed it', before=before, after=after)
    else:
        w = mcontent(fam, m)
        if not same(after, w):
            raise Violation(f'{kind}.{nm}:fault:content', f'{nm} of a {kind} that failed left other content than that of a {type(m).__name__}', after=after, expected=w, before=before)


INHERIT = [(plist, cabc.Sequence, cabc.Hashable), (llist, cabc.Sequence, cabc.Hashable), (tlist, cabc.MutableSequence), (tllist, cabc.MutableSequence), (pset, cabc.Set, cabc.Hashable),
           (tset, cabc.MutableSet), (pdict, cabc.Mapping, cabc.Hashable), (ldict, cabc.Mapping, cabc.Hashable), (tdict, cabc.MutableMapping), (tldict, cabc.MutableMapping)]
NOT = [(plist, cabc.MutableSequence), (llist, cabc.MutableSequence), (pset, cabc.MutableSet), (pdict, cabc.MutableMapping), (ldict, cabc.MutableMapping)]


def run_case(case):
    rng = case.rng
    if case.index < 4:
        for t, *bs in INHERIT:
            for x in bs + [cabc.Collection, cabc.Iterable, cabc.Sized, cabc.Container, cabc.Reversible][:4 if t in (pset, tset) else 5]:
                case.count['evaluations'] += 1; case.count['isinstance'] += 1
                if not issubclass(t, x) or not isinstance(t(), x): raise Violation(f'{t.__name__}:isinstance:{x.__name__}', f'{t.__name__} is not a {x.__name__}')
        for t, x in NOT:
            case.count['evaluations'] += 1
            if issubclass(t, x): raise Violation(f'{t.__name__}:isinstance:{x.__name__}', f'{t.__name__} is a {x.__name__}')
    kind = KLIST[case.index % len(KLIST)]
    if case.index // len(KLIST) % 2 and KINDS[kind][0] != 'set': selfref.run(case, kind, NAMES[kind], KINDS[kind][0], KINDS[kind][1])
    d = MDiffer(case, kind, universe=rng.choice(('ints', 'wide', 'str', 'hk', 'coll-int', 'mixed', 'all', 'nested', 'numeq', 'hk-one', 'hk-edge')))
    d.env.cap = 30
    if case.large(case.index % 200 == 9 or case.index % 200 == 40):
        d = MDiffer(case, kind, universe='huge'); d.case_cap = 5000; o, m = d.start(rng.choice((1501, 1600, 2050)))
        for _ in range(12): d.read(o, m)
        reads(case, d, o, m)
        for _ in range(2):
            o, m = d.step_persistent(o, m) if d.pers else d.step_transient(o, m)
            for _ in range(3): d.read(o, m)
        return
    o, m = d.start()
    before = []
    for _ in range(rng.randrange(3, 12)):
        if d.pers:
            c0 = content(d.fam, o)
            o2, m2 = d.step_persistent(o, m)
            case.count['receiver unchanged'] += 1
            if not same(content(d.fam, o), c0) and d.fam != 'set': raise Violation(f'{kind}:receiver', f'the receiver of {short(case.log[-1])} changed', before=c0, after=content(d.fam, o))
            if d.fam == 'set' and SetContent(o) != c0: raise Violation(f'{kind}:receiver', f'the receiver of {short(case.log[-1])} changed', before=c0)
            if type(o2) is not NAMES[kind]: raise Violation(f'{kind}:type', f'{short(case.log[-1])} gave a {type(o2).__name__}')
            o, m = o2, m2
        else: o, m = d.step_transient(o, m)
        case.count['steps'] += 1
        if len(m) > 60: break
        for _ in range(2): d.read(o, m)
        if rng.random() < .5: reads(case, d, o, m)
        if rng.random() < .4: faults(case, d, o, m)
    if case.sample is None: case.sample = [short(e, 120) for e in case.log[:6]]
MIN = {'large': 100, 'evaluations': 100000, 'steps': 20000, 'isinstance': 50, 'faults raised': 5000}
ASSUME = ['a minimal implementation supports negative indices and slices in __getitem__, as Sequence implies', 'StopIteration raised by a hash or comparison is not claimed to propagate']

"""Constructors against list, set and dict given the same arguments; chains of conversions."""
import collections, types
from ..core import Violation, short
from .. import values
from ..values import GetItemSeq, IterOnly, HK
from ..engine import LIVE, content, mcontent, same, attempt
from ..ops import KeysObj, Items, SetContent, KINDS
from ..pools import build, CT, SEQS, SETS, MAPS, PERSISTENT, PAIR, LARGE
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
PROP = 'C24'
BUSY = 2
RULE = ('One case calls a constructor of one of the ten types and the builtin constructor with independently made arguments of the '
        'same shape (builtin, user-defined and pcollections sources, one-shot iterators, pair shapes, keywords, wrong arguments), or '
        'sends a collection through a chain of conversions whose content is compared after each link.  Distinct are different '
        '(type, argument shape, size, outcome) and (conversion, size).')
def plan(tier): return dict(cases=200000 if tier == 'quick' else 1200000, deadline=300 if tier == 'quick' else 600)
LAZY = {'llist', 'tllist', 'ldict', 'tldict'}


class UList(list): pass
class UDict(dict): pass
class UMap(collections.abc.Mapping):
    def __init__(self, d): self.d = dict(d)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
class OneShot:
    """An iterator object of the user's own, without a length."""
    def __init__(self, xs): self.it = iter(list(xs))
    def __iter__(self): return self
    def __next__(self): return next(self.it)
class Hinted(IterOnly):
    """Claims a wrong length hint; only a hint."""
    def __length_hint__(self): return 10**6
def under(s):
    """Claims too few elements."""
    s = list(s); return values.BadHint(s, len(s) // 2)
def none_left(s): return values.BadHint(list(s), 0)
class KeysIter(KeysObj):
    """keys() is a one-shot iterator; iterating the object itself gives something else."""
    def keys(self): return iter(list(self.d))
    def __iter__(self): return iter('zz')
class Fails:
    def __init__(self, xs, e): self.xs, self.e = xs, e
    def __iter__(self):
        yield from self.xs
        raise self.e('from the iterable')


# ------------------------------------------------------------------ argument shapes: name -> f(xs) for sequences and sets
ITER = dict(
    list=list, tuple=tuple, ulist=UList, gen=lambda s: (e for e in s), iter=lambda s: iter(list(s)), deque=collections.deque,
    getitem=GetItemSeq, iteronly=IterOnly, hinted=Hinted, under=under, noneleft=none_left, oneshot=OneShot, map=lambda s: map(lambda e: e, s), reversed=lambda s: reversed(list(s)[::-1]),
    enumerate=lambda s: (e for _, e in enumerate(s)), chain=lambda s: __import__('itertools').chain(s, ()),
    plist=plist, tlist=tlist, llist=llist, tllist=tllist, lazyl=lambda s: llist([lazy(lambda e=e: e) for e in s]),
    lazytl=lambda s: tllist([lazy(lambda e=e: e) for e in s]), pshift=lambda s: plist([0] + list(s))[1:], pfront=lambda s: front(s),
    values=lambda s: dict(enumerate(s)).values(), pvalues=lambda s: pdict(enumerate(s)).values(), tvalues=lambda s: tdict(enumerate(s)).values(),
    lvalues=lambda s: ldict((i, lazy(lambda e=e: e)) for i, e in enumerate(s)).values(), riter=lambda s: reversed(plist(list(s)[::-1])),
    literator=lambda s: iter(llist([lazy(lambda e=e: e) for e in s])), pslice=lambda s: plist(list(s) + [0])[:-1])
HITER = dict(dict=dict.fromkeys, dkeys=lambda s: dict.fromkeys(s).keys(), pdict=lambda s: pdict.fromkeys(s) if hasattr(pdict, 'fromkeys') else pdict((e, 0) for e in s),
             pkeys=lambda s: pdict((e, 0) for e in s).keys(), tdict=lambda s: tdict((e, 0) for e in s), tkeys=lambda s: tdict((e, 0) for e in s).keys(),
             ldict=lambda s: ldict((e, 0) for e in s), umap=lambda s: UMap(dict.fromkeys(s)))
SETSRC = dict(set=set, frozenset=frozenset, pset=pset, tset=tset, single=lambda s: pset(s).transient())
WEIRD = dict(str=lambda r: 'abcab'[:r.randrange(6)], bytes=lambda r: b'xyzx'[:r.randrange(5)], range=lambda r: range(r.randrange(3), r.randrange(40), r.choice((1, 2, 7))),
             empty=lambda r: (), none=lambda r: None, int=lambda r: 5, type=lambda r: list, func=lambda r: len, obj=lambda r: object(), float=lambda r: 1.5)
def front(s):
    p = plist()
    for e in reversed(list(s)): p = p.prepend(e)
    return p


def check(case, kind, o, model, lab, ctor=None):
    fam = KINDS[kind][0]
    c = case.count
    c['evaluations'] += 1
    if type(o) is not CT[kind]:
        raise Violation(f'{kind}:{lab[0]}:type', f'{short(lab)} gave a {type(o).__name__}, not a {kind}')
    got, e = attempt(content, fam, o)
    want = mcontent(fam, model)
    if e is not None or not same(got, want):
        raise Violation(f'{kind}:{lab[0]}:content', f'{kind} made by {short(lab)} holds the wrong content', got=got if e is None else e, want=want)
    if len(model) < 6: LIVE.append(o)
    n, e = attempt(len, o)
    if e is not None or n != len(model):
        raise Violation(f'{kind}:{lab[0]}:len', f'{kind} made by {short(lab)} has length {n}, not {len(model)} ({e!r})', want=want)


def both(case, kind, args, kw, margs, mkw, lab):
    fam = KINDS[kind][0]
    B = {'seq': list, 'set': set, 'map': dict}[fam]
    case.op('construct', kind, *lab)
    m, me = attempt(lambda: B(*margs, **mkw))
    o, oe = attempt(lambda: CT[kind](*args, **kw))
    case.sig(kind, lab[0], len(m) if me is None else type(me).__name__); case.count['shape:' + str(lab[0])] += 1
    if me is not None:
        case.count['errors'] += 1; case.count['evaluations'] += 1
        if oe is None: raise Violation(f'{kind}:{lab[0]}:no-error', f'{kind} from {short(lab)} gives {short(o)}, {B.__name__} raises {me!r}')
        if not isinstance(oe, type(me)) and not isinstance(oe, TypeError):
            raise Violation(f'{kind}:{lab[0]}:error', f'{kind} from {short(lab)} raises {oe!r}, {B.__name__} raises {me!r}')
        return
    if oe is not None: raise Violation(f'{kind}:{lab[0]}:raises', f'{kind} from {short(lab)} raises {oe!r}', want=m)
    check(case, kind, o, m, lab)
    return o, m


def case_iter(case, kind):
    rng = case.rng; fam = KINDS[kind][0]
    table = values.ANY if fam == 'seq' else values.HASHABLE
    u = table[rng.choice(list(table))]
    n = rng.choice((0, 1, 2, 3, 5, 8, 31, 33, 70))
    if case.large(rng.random() < .002): n = rng.choice(LARGE); u = range(10**6)
    xs = [rng.choice(u) for _ in range(n)]
    q = rng.random()
    if q < .62:
        nm = rng.choice(list(ITER)); f = ITER[nm]; both(case, kind, (f(xs),), {}, (xs,), {}, (nm, xs))
    elif q < .8:
        h = values.HASHABLE[rng.choice([k for k in values.HASHABLE if k != 'nan'])]; h = u if n > 1000 else h; xs = list(dict.fromkeys(rng.choice(h) for _ in range(n)))
        nm = rng.choice(list(HITER) + list(SETSRC)); f = HITER.get(nm) or SETSRC[nm]; a = f(xs)
        both(case, kind, (a,), {}, (list(iter(a)),), {}, (nm, xs))
    elif q < .88:
        nm = rng.choice(list(WEIRD)); a = WEIRD[nm](rng); both(case, kind, (a,), {}, (a,), {}, (nm,))
    elif q < .92: both(case, kind, (), {}, (), {}, ('nothing',))
    elif q < .95:
        a = rng.choice(((xs, xs), (xs, 1, 2), ([], None), (None, None))); both(case, kind, a, {}, a, {}, ('too many',) + a)
    elif q < .96:
        k = rng.choice(({'x': 1}, {'iterable': []}, {'self': 1})); both(case, kind, (), k, (), k, ('keyword', k))
    elif q < .98:
        e = rng.choice((ValueError, KeyError, IndexError, RuntimeError, ZeroDivisionError)); both(case, kind, (Fails(xs, e),), {}, (Fails(xs, e),), {}, ('failing', e.__name__, xs))
    elif fam == 'set':
        xs.insert(rng.randrange(n + 1), rng.choice(([], {}, {1}, tlist(), tdict(), tset()))); both(case, kind, (xs,), {}, (xs,), {}, ('unhashable', xs))


PAIRS = dict(list=list, tuple=tuple, gen=lambda s: (p for p in s), iter=lambda s: iter(list(s)), lists=lambda s: [list(p) for p in s], plists=lambda s: [plist(p) for p in s],
             tlists=lambda s: plist(tlist(p) for p in s), gens=lambda s: [(e for e in p) for p in s], zip=lambda s: zip([k for k, _ in s], [v for _, v in s]),
             getitem=GetItemSeq, iteronly=IterOnly, hinted=Hinted, under=under, noneleft=none_left, oneshot=OneShot, getitems=lambda s: [GetItemSeq(list(p)) for p in s], plist=plist, tlist=tlist, llist=llist,
             lazypairs=lambda s: llist([lazy(lambda p=p: p) for p in s]), deque=collections.deque)
MAPSRC = dict(dict=dict, udict=UDict, odict=collections.OrderedDict, ddict=lambda s: collections.defaultdict(list, s), chain=lambda s: collections.ChainMap(dict(s)),
              proxy=lambda s: types.MappingProxyType(dict(s)), userdict=lambda s: collections.UserDict(dict(s)), umap=UMap, keysobj=KeysObj, keysiter=KeysIter,
              pdict=pdict, tdict=tdict, ldict=ldict, tldict=tldict, lazyd=lambda s: ldict((k, lazy(lambda v=v: v)) for k, v in s),
              lazytd=lambda s: tldict((k, lazy(lambda v=v: v)) for k, v in s), items=lambda s: dict(s).items(), pitems=lambda s: pdict(s).items(), titems=lambda s: tdict(s).items(),
              litems=lambda s: ldict((k, lazy(lambda v=v: v)) for k, v in s).items(), pitem=lambda s: iter(pdict(s).items()), ptrans=lambda s: pdict(s).transient())
BADMAP = (lambda r: 5, lambda r: None, lambda r: [1], lambda r: [(1,)], lambda r: [(1, 2, 3)], lambda r: 'abc', lambda r: ['abc'], lambda r: [()], lambda r: [None], lambda r: object(),
          lambda r: {1}, lambda r: plist([1, 2]), lambda r: pset([1]), lambda r: [([], 1)], lambda r: [(1, 2), (3,)], lambda r: 1.5, lambda r: len, lambda r: [[1, 2], 7], lambda r: llist([(1,)]))
def case_map(case, kind):
    rng = case.rng
    u = values.HASHABLE[rng.choice(list(values.HASHABLE))]; w = values.ANY[rng.choice(list(values.ANY))]
    n = rng.choice((0, 1, 2, 3, 5, 8, 33))
    if case.large(rng.random() < .002): n = rng.choice(LARGE); u = range(10**6)
    kv = [(rng.choice(u), rng.choice(w)) for _ in range(n)]
    kw = {}
    if rng.random() < .35:
        kw = {k: rng.choice(w) for k in rng.sample(('a', 'b', 'key', 's1', 's2', 'self', 'cls', 'args', 'kwargs', 'iterable', 'mapping', 'other', 'not an identifier', '', 'map', 'd'), rng.randrange(1, 4))}
    mkw = dict(kw)
    if kind in LAZY: kw = {k: lazy(lambda v=v: v) if rng.random() < .5 else v for k, v in kw.items()}
    q = rng.random()
    if q < .38:
        nm = rng.choice(list(PAIRS)); both(case, kind, (PAIRS[nm](kv),), kw, (kv,), mkw, ('pairs ' + nm, kv, mkw))
    elif q < .82:
        nm = rng.choice(list(MAPSRC)); d = dict(kv); both(case, kind, (MAPSRC[nm](list(d.items())),), kw, (d,), mkw, (nm, d, mkw))
    elif q < .86: both(case, kind, (['ab', ('c', 1), plist('de')],), kw, (['ab', ('c', 1), ['d', 'e']],), mkw, ('strings', mkw))
    elif q < .9: both(case, kind, (), kw, (), mkw, ('nothing', mkw))
    elif q < .92:
        a = rng.choice(((kv, kv), (dict(kv), {}, 1))); both(case, kind, a, kw, a, mkw, ('too many',) + a)
    elif q < .94:
        e = rng.choice((ValueError, KeyError, IndexError, RuntimeError, ZeroDivisionError)); both(case, kind, (Fails(kv, e),), {}, (Fails(kv, e),), {}, ('failing', e.__name__, kv))
    else:
        i = rng.randrange(len(BADMAP)); f = BADMAP[i]; both(case, kind, (f(rng),), kw, (f(rng),), mkw, ('bad', i))


def case_chain(case, kind):
    """Conversions by constructor, transient(), persistent(), as_*: the content that reading gives stays the same."""
    rng = case.rng; fam = KINDS[kind][0]
    table = values.ANY if fam == 'seq' else values.HASHABLE
    u = table[rng.choice(list(table))]; n = rng.choice((0, 1, 2, 3, 5, 9, 33))
    if case.large(rng.random() < .002): n = rng.choice(LARGE); u = range(10**6)
    if fam == 'map':
        w = values.ANY[rng.choice(list(values.ANY))]; model = {rng.choice(u): rng.choice(w) for _ in range(n)}; cont = list(model.items())
    elif fam == 'set': model = {rng.choice(u) for _ in range(n)}; cont = list(model)
    else: model = [rng.choice(u) for _ in range(n)]; cont = model
    o = build(kind, cont, rng); kinds = {'seq': SEQS, 'set': SETS, 'map': MAPS}[fam]
    case.op('chain start', kind, short(model))
    order = None
    for _ in range(rng.randrange(1, 6)):
        k = type(o).__name__
        how = rng.choice(('ctor', 'ctor', 'ctor', 'flip', 'copy', 'raw'))
        if how == 'flip': o2 = o.transient() if k in PERSISTENT else o.persistent(); k2 = PAIR[k]
        elif how == 'copy': o2 = o.copy(); k2 = k
        elif how == 'raw':
            if k == 'llist': k2 = rng.choice(('llist', 'tllist')); raw = o.as_plist(); o2 = CT[k2](raw if rng.random() < .5 else list(raw))
            elif k == 'ldict': k2 = rng.choice(('ldict', 'tldict')); raw = o.as_pdict(); o2 = CT[k2](raw if rng.random() < .5 else dict(raw))
            elif k == 'tldict': k2 = rng.choice(('ldict', 'tldict')); raw = o.as_tdict(); o2 = CT[k2](raw if rng.random() < .5 else dict(raw))
            else: continue
        else: k2 = rng.choice(kinds); o2 = CT[k2](o)
        lab = (how, k, k2)
        case.op(*lab); case.sig(*lab, len(model)); case.count['conversions'] += 1
        if type(o2) is not CT[k2]: raise Violation(f'{k}->{k2}:{how}:type', f'{short(lab)} gave a {type(o2).__name__}', content=model)
        got, want = content(fam, o2), mcontent(fam, model)
        case.count['evaluations'] += 1
        if not same(got, want) or len(o2) != len(model):
            raise Violation(f'{k}->{k2}:{how}', f'{short(lab)} does not preserve the content', got=got, want=want)
        if any(isinstance(x, lazy) for x in (o2.values() if fam == 'map' else o2)):
            raise Violation(f'{k}->{k2}:{how}:lazy', f'{short(lab)} hands out a lazy object', content=model)
        src = content(fam, o)
        if not same(src, want): raise Violation(f'{k}->{k2}:{how}:source', f'{short(lab)} changed its source', got=src, want=want)
        o = o2


def run_case(case):
    rng = case.rng; kind = list(CT)[case.index % 10]
    for _ in range(2):
        if rng.random() < .25: case_chain(case, kind)
        elif kind in MAPS: case_map(case, kind)
        else: case_iter(case, kind)
    if case.sample is None: case.sample = [short(e, 150) for e in case.log[:2]]
MIN = {'large': 200, 'evaluations': 100000, 'errors': 5000, 'conversions': 40000}
ASSUME = ['subclasses of builtins that override iteration or item access are not used as sources']

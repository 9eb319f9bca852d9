"""Lazily wrapped subject against the builtin of computed values; no result may contain a lazy."""
import operator
from ..core import Violation
from ..engine import Differ, differential, min_counts, attempt
from .. import ops, selfref
from ..ops import Items, EqList
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
PROP = 'C14'
RULE = ('One case is a seeded history of an llist, tllist, ldict or tldict most of whose elements are lazy (pending or '
        'ready) next to the builtin list or dict of the computed values; every result, exception and content is compared '
        'by identity, so an exposed lazy object is a difference.  Distinct are different (operation, size, outcome).')
def plan(tier): return dict(cases=24000 if tier == 'quick' else 400000, deadline=300 if tier == 'quick' else 600)
KINDS = ['llist', 'ldict', 'tllist', 'tldict']


def _cmp(env, model):
    """An ordinary object to compare the receiver with, biased to be equal or nearly equal."""
    r = env.rng
    if isinstance(model, list):
        l = list(model); q = r.random()
        if l and q < .25: l[r.randrange(len(l))] = env.elem()
        elif l and q < .4: l.pop()
        elif q < .5: l.append(env.elem())
        return l
    d = dict(model); q = r.random()
    if d and q < .25: d[r.choice(list(d))] = env.elem()
    elif d and q < .4: d.popitem()
    elif q < .5: d[env.key()] = env.elem()
    return d

def x_eq(env):
    o = _cmp(env, env.model); k = env.rng.randrange(4); seq = isinstance(o, list)
    mk = (list, plist, tlist, llist) if seq else (dict, pdict, tdict, ldict)
    other = mk[k](o if k < 3 else env.wraps(o) if seq else {a: env.wrap(b) for a, b in o.items()})
    flip = env.rng.random() < .5
    f = env.rng.choice((operator.eq, operator.ne))
    if flip: return (lambda p: f(other, p)), (lambda m: f(o, m)), ('r' + f.__name__, mk[k].__name__, o)
    return (lambda p: f(p, other)), (lambda m: f(m, o)), (f.__name__, mk[k].__name__, o)
def x_order(env):
    o = _cmp(env, env.model); k = env.rng.randrange(4)
    mk = (list, plist, tlist, llist)
    other = mk[k](o if k < 3 else env.wraps(o))
    f = env.rng.choice((operator.lt, operator.le, operator.gt, operator.ge))
    return (lambda p: f(p, other)), (lambda m: f(m, o)), (f.__name__, mk[k].__name__, o)
def x_hash_seq(env):
    def m(l): hash(tuple(l)); return True
    mm = list(env.model)
    return (lambda p: hash(p) == hash(plist(mm))), m, ('hash',)
def x_hash_map(env):
    def m(d): hash(frozenset(d.items())); return True
    mm = dict(env.model)
    return (lambda p: hash(p) == hash(pdict(mm))), m, ('hash',)
def x_conv_seq(env):
    k = env.rng.randrange(5)
    f = (list, tuple, plist, tlist, lambda p: [p[i] for i in range(len(p))])[k]
    return (lambda p: list(f(p))), (lambda l: list(l)), ('convert', k)
def x_conv_map(env):
    k = env.rng.randrange(6)
    f = (dict, pdict, tdict, lambda p: dict(p.items()), lambda p: dict(zip(p.keys(), p.values())), lambda p: {**p})[k]
    return (lambda p: Items(f(p).items())), (lambda d: Items(d.items())), ('convert', k)
def x_flip_conv_seq(env):
    k = env.rng.randrange(3)
    f = (lambda p: p.transient(), lambda p: tllist(p), lambda p: llist(p))[k] if isinstance(env.subject, llist) else \
        (lambda p: p.persistent(), lambda p: llist(p), lambda p: tllist(p))[k]
    return (lambda p: list(f(p))), (lambda l: list(l)), ('sister', k)
def x_flip_conv_map(env):
    k = env.rng.randrange(3)
    f = (lambda p: p.transient(), lambda p: tldict(p), lambda p: ldict(p))[k] if isinstance(env.subject, ldict) else \
        (lambda p: p.persistent(), lambda p: ldict(p), lambda p: tldict(p))[k]
    return (lambda p: Items(f(p).items())), (lambda d: Items(d.items())), ('sister', k)
def x_step(env):
    """First steps of iteration."""
    k = env.rng.randrange(4)
    if isinstance(env.model, list):
        f = iter if k % 2 else reversed
        return (lambda p: next(f(p), None)), (lambda l: next(f(l), None)), ('next', f.__name__)
    f = (lambda d: next(iter(d.values()), None), lambda d: next(iter(d.items()), None),
         lambda d: next(reversed(d.values()), None), lambda d: next(reversed(d.items()), None))[k]
    if k % 2:
        g = lambda d: Items(x for x in (f(d),) if x is not None)     # which of two equal keys is kept is not claimed
        return g, g, ('next view', k)
    return f, f, ('next view', k)
def x_own_default(env):
    """The default is the very object stored under the key."""
    p, m = env.subject, env.model
    k = env.rng.choice(list(m)) if m else 'none'; raw = p.getlazy(k) if m else None
    j = env.rng.randrange(3); pers = isinstance(p, ldict)
    if j == 0: return (lambda p: p.get(k, raw)), (lambda d: d.get(k)), ('get with its own lazy', k)
    if j == 1: return (lambda p: p.pop(k, raw)[0] if pers else p.copy().pop(k, raw)), (lambda d: d.get(k)), ('pop with its own lazy', k)
    if pers: return (lambda p: p.setdefault(k, raw)[k] if m else None), (lambda d: d.get(k)), ('setdefault with its own lazy', k)
    return (lambda p: p.copy().setdefault(k, raw)), (lambda d: d.get(k)), ('setdefault with its own lazy', k)
def x_raw_arg(env):
    """A stored lazy object is not an element (items views of an ldict compute a lazy value they are asked for: not claimed)."""
    p, m = env.subject, env.model; r = env.rng; j = r.randrange(4)
    if isinstance(m, list):
        z = p.getlazy(r.randrange(len(m))) if m else lazy(int)
        f = (lambda q: z in q, lambda q: q.count(z), lambda q: q.index(z), lambda q: z in reversed(q))[j]
        return f, f, ('stored lazy as argument', j)
    k = r.choice(list(m)) if m else 'none'; z = p.getlazy(k) if m else lazy(int)
    f = (lambda q: z in q.values(), lambda q: z in list(q.items()), lambda q: z in q, lambda q: list(q.values()).count(z))[j]
    return f, f, ('stored lazy as argument', j)
SEQ_X = dict(rawarg=x_raw_arg, eq=x_eq, order=x_order, conv=x_conv_seq, sister=x_flip_conv_seq, step=x_step)
MAP_X = dict(rawarg=x_raw_arg, eq=x_eq, conv=x_conv_map, sister=x_flip_conv_map, step=x_step, owndefault=x_own_default)
EXTRA = dict(llist=dict(SEQ_X, hash=x_hash_seq), tllist=SEQ_X, ldict=dict(MAP_X, hash=x_hash_map), tldict=MAP_X)


def nested(case, kind):
    """A lazy value whose function returns a lazy: every read gives back the inner one, as it is and unevaluated."""
    rng = case.rng; ran = []; n = rng.randrange(1, 7); seq = 'list' in kind
    def inner(i):
        z = lazy(lambda: ran.append(i))
        return lazy(lambda: z) if rng.random() < .2 else z
    vals = [inner(i) if rng.random() < .6 else i for i in range(n)]
    raws = [lazy(lambda v=v: v) if isinstance(v, lazy) or rng.random() < .5 else v for v in vals]
    for r in raws:
        if isinstance(r, lazy) and rng.random() < .3: r()
    C = CTORS[kind]; o = C(raws) if seq else C(zip(range(n), raws))
    if rng.random() < .4: o = o.transient() if kind in ('llist', 'ldict') else o.persistent()
    pers = isinstance(o, (llist, ldict)); kind = type(o).__name__
    def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    i = rng.randrange(n); v = vals[i]; first = lambda x: next(j for j, y in enumerate(vals) if y is x)
    R = {'[]': lambda: o[i] is v, 'in': lambda: (v in o) if seq else (i in o), 'copy': lambda: same([o.copy()[j] for j in range(n)], vals),
         'sister': lambda: same([(o.transient() if pers else o.persistent())[j] for j in range(n)], vals)}
    if seq:
        R.update({'iter': lambda: same(list(o), vals), 'reversed': lambda: same(list(reversed(o)), vals[::-1]), 'slice': lambda: same(list(o[:]), vals),
                  'pop': lambda: (o.pop(i)[0] if pers else o.copy().pop(i)) is v, 'count': lambda: o.count(v) == 1, 'index': lambda: o.index(v) == i,
                  '==': lambda: (o == vals) is True and (o == plist(vals)) is True and (o != vals) is False, 'plist': lambda: same(list(plist(o)), vals),
                  '+': lambda: same(list(o + [7]), vals + [7])})
    else:
        R.update({'get': lambda: o.get(i) is v, 'values': lambda: same(list(o.values()), vals), 'items': lambda: same([y for _, y in o.items()], vals),
                  'reversed values': lambda: same(list(reversed(o.values())), vals[::-1]) if pers else True, 'in values': lambda: v in o.values(),
                  'not in values': lambda: lazy(int) not in o.values(), 'pop': lambda: (o.pop(i)[0] if pers else o.copy().pop(i)) is v,
                  'setdefault': lambda: (o.setdefault(i, 5)[i] if pers else o.copy().setdefault(i, 5)) is v,
                  'popitem': lambda: (lambda kv: kv[1] is vals[kv[0]])(o.popitem()[0] if pers else o.copy().popitem()),
                  '==': lambda: (o == dict(enumerate(vals))) is True and (pdict(enumerate(vals)) == o) is True, 'pdict': lambda: same(list(pdict(o).values()), vals),
                  'dict': lambda: same(list(dict(o).values()), vals), '**': lambda: same(list({**o}.values()), vals)})
    for name in rng.sample(list(R), 5):
        case.op('nested', kind, name, i); case.count['evaluations'] += 1; case.count['nested'] += 1; case.sig(kind, 'nested', name, n)
        ok, e = attempt(R[name])
        if e is not None or ok is not True: raise Violation(f'{kind}:nested:{name}', f'{name} of a {kind} does not give back the lazy that a lazy value computed ({e!r})', index=i, n=n)
        if ran: raise Violation(f'{kind}:nested:{name}', f'{name} of a {kind} evaluated the lazy that a lazy value computed', index=i)
CTORS = dict(llist=llist, tllist=tllist, ldict=ldict, tldict=tldict)


def run_case(case):
    if case.index // 4 % 5 == 0: nested(case, KINDS[case.index % 4])
    kind = KINDS[case.index % 4]
    rng = case.rng
    huge = rng.random() < .0006
    d = Differ(case, kind, lazies=True, universe='huge' if huge else None)
    d.reads = dict(d.reads, **EXTRA[kind])
    d.rn = list(d.rw) + list(EXTRA[kind]); d.rwt = list(d.rw.values()) + [4] * len(EXTRA[kind])
    q = rng.random()
    if huge:
        case.count['huge'] += 1; d.env.cap = 1000; d.case_cap = 200000
        d.run(rng.randrange(2, 5), size=rng.choice((32767, 32768, 32769, 33000)), reads=3)
        return
    if q < .005:
        d = Differ(case, kind, lazies=True, universe='huge'); d.reads = dict(d.reads, **EXTRA[kind]); d.rn = list(d.rw) + list(EXTRA[kind]); d.rwt = list(d.rw.values()) + [4] * len(EXTRA[kind])
        case.large(); d.env.cap = 1000; d.case_cap = 20000; d.run(rng.randrange(4, 10), size=rng.choice((1500, 2047, 2049, 3000, 4097, 5001)), reads=5)
        return
    if q < .04:
        d.env.cap = 200
        d.run(rng.randrange(6, 14), size=rng.choice((31, 32, 33, 64, 70)), reads=4)
    elif q < .2: d.run(rng.randrange(50, 120), reads=2)
    else: d.run(rng.randrange(5, 30), reads=3)
    if case.index // 4 % 3 == 0: selfref.run(case, kind)
MIN = {'large': 50, 'nested': 10000}
for _k in KINDS: MIN.update(min_counts(_k, 20))
for _t in EXTRA.values(): MIN.update({'read:' + k: 50 for k in _t})
ASSUME = ['which of two equal keys is kept and the choice made by popitem are not claimed']

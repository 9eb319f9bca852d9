"""Threads that read, hash, compare, print and derive from the same persistent collections, under the seeded scheduler and free
running, against the same programs run alone on a twin that was built by the same history."""
import random, threading, copy, pickle, operator
from ..core import Violation, short, WATCH
from ..sched import Deadlock, Endless, Sched, free, point
from ..lazyrun import scheduler
from ..ops import KINDS, Env, NOTHING, Items, EqList, POPPED
from ..family import PAIR, CTOR, KIND_OF, PERS, LAZY, FAM, observe, osame
from .. import pools
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy, holdlazy
PROP = 'C22'
RULE = ('One case builds 1-3 related persistent collections twice by the same seeded history; the programs of 2-5 threads (reads, hashes, '
        'comparisons, prints, new versions, transients that are edited, set operations, views, copies) are run one after the other on the '
        'first build to learn what each obtains alone, and then at the same time on the second; elements are ints, strings and objects whose '
        '__eq__ and __hash__ let other threads run.  Results are compared by content and identity, and the shared collections afterwards '
        'by every observation.  Distinct are different schedules and programs.')
def plan(tier): return dict(cases=6000 if tier == 'quick' else 120000, deadline=300 if tier == 'quick' else 650)
MIN = {'large': 30, 'evaluations': 60000, 'scheduled': 4000, 'free': 600, 'switches': 60000, 'transient programs': 4000, 'shared observed': 4000, 'callback switches': 1000, 'first:hash': 500, 'first:same': 300}
ASSUME = ['a thread may be preempted between any two bytecode instructions of pcollections']


class PK:
    """Key with colliding hash whose __eq__ and __hash__ are scheduling points."""
    __slots__ = ('tag', 'h')
    def __init__(self, tag, h): self.tag = tag; self.h = h
    def __hash__(self): point(); return self.h
    def __eq__(self, o):
        point()
        return isinstance(o, PK) and self.tag == o.tag
    def __lt__(self, o):
        point()
        return self.tag < o.tag if isinstance(o, PK) else NotImplemented
    def __le__(self, o): return self.tag <= o.tag if isinstance(o, PK) else NotImplemented
    def __gt__(self, o): return self.tag > o.tag if isinstance(o, PK) else NotImplemented
    def __ge__(self, o): return self.tag >= o.tag if isinstance(o, PK) else NotImplemented
    def __repr__(self): point(); return f'PK{self.tag}'
    def __deepcopy__(self, memo): return self
UNIVERSES = {'pk': [PK(t, t % 4) for t in range(14)], 'pk-one': [PK(100 + t, 9) for t in range(7)], 'ints': list(range(20)), 'strs': [f's{i}' for i in range(15)],
             'mixed': [PK(i, i % 3) for i in range(5)] + [None, 1, 'a', (1, 2), 2.5, 2**61 - 1, 0]}


def norm(x, depth=0):
    """Content by identity of the elements."""
    if isinstance(x, BaseException): return ('exc', type(x).__name__)
    k = KIND_OF.get(type(x))
    if k:
        f = FAM[k]
        if f == 'seq': return (k, [norm(e, 1) for e in x] if depth == 0 else len(x))
        if f == 'set': return (k, sorted(id(e) for e in x))
        return (k, [(id(a), norm(b, 1)) for a, b in x.items()])
    if isinstance(x, Items): return ('items', [(id(a), norm(b, 1)) for a, b in x.kv])
    if isinstance(x, EqList): return ('eqlist', [id(e) for e in x.xs])
    if type(x) in (list, tuple) and depth < 3: return (type(x).__name__, [norm(e, depth + 1) for e in x])
    if type(x) in (set, frozenset): return ('set', sorted(id(e) for e in x))
    if x is None or type(x) in (int, str, bool, float): return (type(x).__name__, x)
    if isinstance(x, lazy): return ('lazy',)
    if type(x) is PK: return ('pk', id(x))
    return (type(x).__name__,)


def attempt(f):
    try: return norm(f())
    except Exception as e: return norm(e)


class Setup:
    """The shared objects of one case; built from its own seed so that a second call gives a twin."""
    def __init__(self, seed, base, uni, size):
        rng = random.Random(seed)
        self.base, self.fam = base, FAM[base]
        u = UNIVERSES[uni]; el = lambda: rng.choice(u)
        val = (lambda: rng.choice((1, 2, 'v', None, u[0]))) if self.fam == 'map' else el
        if self.fam == 'map':
            keys = list({id(k): k for k in (el() for _ in range(size))}.values()); content = list(dict((k, val()) for k in keys).items())
        elif self.fam == 'set': content = list(set(el() for _ in range(size)))
        else: content = [el() for _ in range(size)]
        if base in LAZY:
            def wrap(v):
                q = rng.random()
                if q < .3: return v
                def f(): point(); return v
                l = lazy(f)
                if q < .4: l()
                return l
        else: wrap = lambda v: v
        a = pools.build(base, content, rng, wrap=wrap)
        self.objs = [a]
        if rng.random() < .6:
            m = self.model(0)
            self.objs.append(self.version(a, rng, el, val, wrap))
        if rng.random() < .3: self.objs.append(a.transient().persistent())

    def version(self, a, rng, el, val, wrap):
        for _ in range(rng.randrange(1, 4)):
            if self.fam == 'seq': a = rng.choice((lambda: a.append(wrap(el())), lambda: a.prepend(wrap(el())), lambda: a.drop(0)))()
            elif self.fam == 'set': a = rng.choice((lambda: a.add(el()), lambda: a.discard(el())))()
            else: a = rng.choice((lambda: a.set(el(), wrap(val())), lambda: a.drop(el())))()
        return a

    def model(self, i):
        o = self.objs[i]
        if self.fam == 'seq': return list(o)
        if self.fam == 'set': return set(o)
        return dict(o.items())


NO = {'pop', 'popitem'}
def program(seed, setup, models, uni, steps, counts):
    """The steps of one thread as callables on the objects of setup."""
    rng = random.Random(seed); u = UNIVERSES[uni]
    el = lambda: rng.choice(u)
    val = (lambda: rng.choice((1, 2, 'v', None, u[0]))) if setup.fam == 'map' else el
    lz = setup.base in LAZY
    def wrap(v): return lazy(lambda: v) if lz and rng.random() < .5 else v
    env = Env(rng, val, wrap=wrap if lz else None, key=el); env.lazies = lz; env.cap = 30
    fam, pers, ctor, edits, ew, reads, rw = KINDS[setup.base]
    _, _, _, tedits, tew, _, _ = KINDS[KIND_OF[PAIR[setup.base]]]
    out = []
    def add(lab, f): out.append((lab, f))
    def choose(w):
        while True:
            n = rng.choices(list(w), list(w.values()))[0]
            if fam == 'seq' or n not in NO: return n
    for _ in range(steps):
        i = rng.randrange(len(setup.objs)); o = setup.objs[i]; m = copy.copy(models[i]); q = rng.random()
        if q < .25:
            sf, _, lab = reads[choose(rw)](env.at(o, m)); add(lab, lambda sf=sf, o=o: sf(o))
        elif q < .45:
            sf, _, lab = edits[choose(ew)](env.at(o, m)); add(lab, lambda sf=sf, o=o: sf(o)[1])
        elif q < .65:
            todo = []
            for _ in range(rng.choice((1, 2, 4, 6))):
                sf, mf, lab = tedits[choose(tew)](env.at(o, m)); todo.append((sf, lab))
                try: mf(m)
                except Exception: pass
            conv = rng.randrange(3)
            def go(o=o, todo=todo, conv=conv):
                t = o.transient() if conv else PAIR[setup.base](o)
                res = []
                for k, (sf, _) in enumerate(todo):
                    res.append(attempt(lambda: sf(t)))
                    if conv == 2: res.append(norm(t.persistent()))
                return [res, t.persistent(), t]
            counts['transient programs'] += 1
            add(('transient', [l for _, l in todo]), go)
        else:
            j = rng.randrange(len(setup.objs)); b = setup.objs[j]
            c = [('hash', lambda: hash(o)), ('hash', lambda: (hash(o), hash(b))), ('str', lambda: str(o)), ('copy', lambda: copy.copy(o)), ('deepcopy', lambda: copy.deepcopy(o)),
                 ('==', lambda: (o == b, b == o, o != b)), ('own type', lambda: type(o)(o)), ('from iterator', lambda: type(o)(iter(o.items() if fam == 'map' else o))),
                 ('hash equal', lambda: o != b or hash(o) == hash(b)), ('as key', lambda: {o: 1}[b]), ('observe', lambda: [x for l, x in observe(fam, o) if l not in ('repr', 'hash')]),
                 ('round trip', lambda: o.transient().persistent() is o), ('pair', lambda: PAIR[setup.base](o)), ('bool', lambda: (bool(o), len(o)))]
            if not lz: c.append(('repr', lambda: repr(o)))
            if fam == 'seq': c += [('zip', lambda: [(x, y) for x, y in zip(o, reversed(o))]), ('sort', lambda: o.sort(key=id)), ('<', lambda: (o < b, o <= b, o > b, o >= b)),
                                   ('iterators', lambda: inter(o, b)), ('slices', lambda: [o[:2], o[1:], o[::-1]]), ('+', lambda: o + b), ('extend', lambda: o.extend(b))]
            if fam == 'set': c += [(f.__name__, lambda f=f: f(o, b)) for f in (operator.or_, operator.and_, operator.sub, operator.xor, operator.le, operator.lt, operator.ge)] + [
                ('isdisjoint', lambda: o.isdisjoint(b)), ('iterators', lambda: inter(o, b)), ('pop', lambda: popset(o))]
            if fam == 'map': c += [('items', lambda: Items(o.items())), ('keys ops', lambda: [o.keys() & b.keys(), o.keys() | b.keys(), o.items() == b.items(), len(o.values())]),
                                   ('update', lambda: o.update(b)), ('iterators', lambda: inter(o, b)), ('reversed', lambda: list(reversed(o))), ('popitem', lambda: popmap(o))]
            if lz: c += [('hold', lambda: len(holdlazy(o))), ('ready_all', lambda: o.ready_all()), ('evaluated', lambda: (plist if fam == 'seq' else pdict)(o))]
            name, f = rng.choice(c); add((name, i, j), f)
    return out
def inter(a, b):
    x, y = iter(a), iter(b); out = []
    for _ in range(len(a) + 1): out.append(next(x, None)); out.append(next(y, None))
    return out
def popset(o):
    if not o: return None
    r = o.pop(); x, rest = r
    return x in o, x not in rest, len(rest) == len(o) - 1
def popmap(o):
    if not o: return None
    (k, v), rest = o.popitem()
    return k in o, k not in rest, len(rest) == len(o) - 1


def large(case, base):
    """First uses of a collection of thousands of elements, all at once."""
    rng = case.rng; c = case.count; fam = FAM[base]; n = rng.choice(pools.LARGE)
    xs = rng.sample(range(10**6), n)
    content = [(x, x + 1) for x in xs] if fam == 'map' else xs
    C = CTOR[base]; o, twin = C(content), C(content); other = C(list(content)); i = rng.randrange(n)
    uses = [('hash', lambda o: hash(o)), ('==', lambda o: (o == other, other == o)), ('list', lambda o: list(o) if fam != 'set' else sorted(o)), ('in', lambda o: xs[i] in o),
            ('key', lambda o: {other: 1}[o]), ('copy', lambda o: len(o.transient().persistent())), ('repr', lambda o: len(repr(o)) if base not in LAZY else 0),
            ('item', lambda o: o[xs[i]] if fam == 'map' else o[i] if fam == 'seq' else (xs[i] in o)), ('derive', lambda o: len(o.clear() if hasattr(o, 'clear') else o))]
    progs = [[rng.choice(uses[:2] + uses[4:5])] + rng.choices(uses, k=rng.choice((0, 1, 2))) for _ in range(rng.choice((2, 3, 4)))]
    if rng.random() < .6:
        for p in progs: p[0] = uses[0]
    want = [[attempt(lambda: f(twin)) for _, f in p] for p in progs]; got = [[] for _ in progs]
    def runner(k):
        def go():
            for _, f in progs[k]: got[k].append(attempt(lambda: f(o)))
        return go
    case.op('large', base, n, [[l for l, _ in p] for p in progs]); mode = 'free' if rng.random() < .3 else 'scheduled'
    case.large(); c[mode] += 1
    try:
        if mode == 'free': free([runner(k) for k in range(len(progs))])
        else:
            s = Sched(rng, opcodes=False, strategy='random', p=rng.choice((.003, .02, .1))); s.run([runner(k) for k in range(len(progs))]); c['switches'] += s.switches
    except Endless: raise Violation('nontermination', 'an operation does not terminate when threads share a collection')
    except Deadlock as d: raise Violation('deadlock', f'threads that share a {base} block one another forever ({mode}): {d}')
    c['evaluations'] += sum(map(len, got))
    for p, a, b in zip(progs, want, got):
        for (lab, _), x, y in zip(p, a, b):
            if x != y: raise Violation(f'{base}:result', f'{lab} of a shared {base} of {n} elements gave another result among threads ({mode}) than alone', alone=x, threads=y)
    if hash(o) != hash(twin): raise Violation(f'{base}:hash', f'the hash of a shared {base} of {n} elements is wrong after threads used it ({mode})')


def run_case(case):
    WATCH.stop()
    if case.index % 600 < 5 and case.index >= 600: return large(case, ('plist', 'pset', 'pdict', 'llist', 'ldict')[case.index % 5])
    rng = case.rng; c = case.count
    base = ('plist', 'pset', 'pdict', 'llist', 'ldict')[case.index % 5]
    uni = rng.choice(list(UNIVERSES)); mode = 'free' if case.index % 6 == 4 else 'scheduled'
    size = rng.choice((0, 1, 2, 3, 5, 8, 14)) if mode == 'scheduled' or rng.random() < .5 else rng.choice((33, 60))
    seed = rng.random()
    twin, shared = Setup(seed, base, uni, size), Setup(seed, base, uni, size)
    models = [Setup(seed, base, uni, size).model(i) for i in range(len(twin.objs))]
    k = rng.choice((2, 2, 3, 4, 5)); steps = rng.choice((1, 2, 3, 5))
    seeds = [rng.random() for _ in range(k)]
    first = rng.random()
    how = rng.choice(('own', 'own', 'own', 'hash', 'hash', 'same'))      # what the threads begin with: the first use of an object is then concurrent
    def make(s, setup):
        head = []
        if how == 'hash':
            o = setup.objs[int(first * len(setup.objs))]; head = [(('hash',), lambda: hash(o))]
        elif how == 'same': head = program(first, setup, models, uni, 1, c)
        return head + program(s, setup, models, uni, steps, c)
    c['first:' + how] += 1
    progs = [make(s, shared) for s in seeds]
    alone = [[attempt(f) for _, f in make(s, twin)] for s in seeds]
    got = [[] for _ in range(k)]
    def runner(n):
        def go():
            for _, f in progs[n]: got[n].append(attempt(f))
        return go
    for n, p in enumerate(progs): case.op('thread', n, [l for l, _ in p])
    case.op('shared', base, uni, size, len(shared.objs))
    sig = ''
    try:
        if mode == 'free': c['free'] += 1; free([runner(n) for n in range(k)])
        else:
            s = scheduler(rng); case.op('schedule', s.strategy, s.p, sorted(s.changes), s.opcodes)
            try: s.run([runner(n) for n in range(k)])
            finally: case.op('switches', s.trace[:300])
            c['scheduled'] += 1; c['switches'] += s.switches; c['points'] += s.points; sig = tuple(s.trace)
            if uni.startswith('pk') or uni == 'mixed': c['callback switches'] += s.switches
    except Endless: raise Violation('nontermination', 'an operation does not terminate when threads share a collection')
    except Deadlock as d: raise Violation('deadlock', f'threads that share a {base} block one another forever ({mode}): {d}')
    for n in range(k):
        for (lab, _), a, b in zip(progs[n], alone[n], got[n]):
            c['evaluations'] += 1
            if a != b:
                raise Violation(f'{base}:result', f'{short(lab, 200)} on a shared {base} gave another result among {k} threads ({mode}) than alone', alone=a, threads=b)
    for a, b in zip(twin.objs, shared.objs):
        c['shared observed'] += 1
        for (la, x), (lb, y) in zip(observe(twin.fam, a), observe(twin.fam, b)):
            c['evaluations'] += 1
            if la in ('repr', 'hash') and (base in LAZY or la == 'hash'): continue
            if la != lb or norm(x) != norm(y):
                raise Violation(f'{base}:changed', f'{la} of a shared {base} is different after {k} threads used it ({mode})', alone=x, threads=y)
        try: h = hash(b)
        except TypeError: continue
        if h != hash(a) or h != hash(type(b)(list(b.items()) if twin.fam == 'map' else list(b))): raise Violation(f'{base}:hash', f'the hash of a shared {base} is wrong after {k} threads used it ({mode})')
    case.sig(mode, sig, base, [[str(l)[:40] for l, _ in p] for p in progs])
    if case.sample is None and mode == 'scheduled' and k > 2: case.sample = dict(base=base, threads=[[short(l, 60) for l, _ in p] for p in progs], switches=list(sig)[:60])

"""==, != and hash over all ordered pairs of a pool of collections, against the builtins of the same content."""
from ..core import Violation, short
from .. import values
from ..pools import *
from ..engine import Differ
import operator
PROP = 'C09'
BUSY = 2
RULE = ('One case is a pool of about 14 collections of one kind (all types of that kind and the builtins, equal contents '
        'built by different histories and in different orders, near-equal contents) plus foreign objects; an evaluation is '
        'one == / != / hash / dictionary lookup compared with the builtins.  Distinct are different (types, sizes, outcome, '
        'universe).')
def plan(tier): return dict(cases=16000 if tier == 'quick' else 300000, deadline=300 if tier == 'quick' else 600)
FOREIGN = [None, 0, 1.5, '', 'abc', (), (1, 2), object(), NotImplemented, Ellipsis, b'x', range(3), int, lambda: 0, lazy(lambda: 1)]


def variants(rng, base, draw):
    """Contents equal or nearly equal to base."""
    out = [list(base)]
    for _ in range(rng.randrange(2, 5)):
        v = list(base); q = rng.random()
        if v and q < .3: v[rng.randrange(len(v))] = draw()
        elif v and q < .45: v.pop(rng.randrange(len(v)))
        elif q < .6: v.insert(rng.randrange(len(v) + 1), draw())
        elif q < .75: rng.shuffle(v)
        elif q < .9: v = [swap(x) for x in v]
        else: v = [draw() for _ in range(len(v))]
        out.append(v)
    return out

SWAP = {int: float, float: lambda x: int(x) if x == x and abs(x) < 1e9 and x == int(x) else x, bool: int, str: lambda s: ''.join(list(s)),
        tuple: lambda t: tuple(list(t)), list: lambda l: list(l), set: set, frozenset: frozenset}
def swap(x):
    """An equal but different object, when there is one."""
    f = SWAP.get(type(x))
    try:
        y = f(x) if f else x
        return y if y == x else x
    except Exception: return x


def attempt(f, *a):
    try: return f(*a), None
    except Exception as e: return None, e


def mhash(fam, model):
    """Whether the content is hashable."""
    try:
        if fam == 'map':
            for k, v in model.items(): hash((k, v))
        else: hash(tuple(model))
        return True
    except TypeError: return False


def make_pool(case, fam, size=None):
    rng = case.rng
    table = values.HASHABLE if fam == 'set' else values.ANY
    uni = rng.choice(list(table)); u = table[uni]; draw = lambda: rng.choice(u)
    n = size if size is not None else rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12, 20, 33, 40))
    big = size == 'large' or size is None and rng.random() < .02
    if big: n = rng.choice((64, 65, 120, 300, 1025)); uni = 'wide'; u = table[uni]
    large = size == 'large' or big and rng.random() < .15
    if large: n = rng.choice(LARGE); u = range(10**6); case.large()
    pool = []
    if fam == 'map':
        ku = u if large else values.HASHABLE['wide' if big else rng.choice(list(values.HASHABLE))]; kd = lambda: rng.choice(ku)
        base = list({kd(): draw() for _ in range(n)}.items())
        vs = [base]
        for vals in variants(rng, [v for _, v in base], draw): vs.append(list(zip([k for k, _ in base], vals)))
        for keys in variants(rng, [k for k, _ in base], kd): vs.append(list(dict(zip(keys, [v for _, v in base])).items()))
        b = list(base); rng.shuffle(b); vs.append(b)
        kinds = MAPS
    else:
        base = [draw() for _ in range(n)]
        if fam == 'set': base = list(set(base))
        vs = variants(rng, base, draw)
        kinds = SEQS if fam == 'seq' else SETS
    if fam == 'set': vs = [list(dict.fromkeys(v)) for v in vs]
    k = 4 if big else 13
    for i in range(k):
        content = vs[0] if rng.random() < .4 else rng.choice(vs)
        model = dict(content) if fam == 'map' else set(content) if fam == 'set' else list(content)
        q = rng.random()
        if q < .15:
            obj = dict(model) if fam == 'map' else list(model) if fam == 'seq' else rng.choice((set, frozenset))(model)
        elif q < .2 and fam == 'set':
            obj = rng.choice((lambda c: pdict((x, 1) for x in c).keys(), lambda c: tdict((x, 1) for x in c).keys(),
                              lambda c: dict.fromkeys(c).keys()))(content)
        else:
            kind = rng.choice(kinds)
            obj = build(kind, content, rng)
        case.op('pool', i, type(obj).__name__, short(content, 100))
        pool.append((obj, model, content))
    return uni, pool


def history(case):
    """A history of one persistent collection, every version compared and hashed against collections built afresh."""
    rng = case.rng; c = case.count
    kind = PERSISTENT[case.index // 4 % 5]
    d = Differ(case, kind, kind in ('llist', 'ldict'))
    if d.uni == 'nan': d = Differ(case, kind, kind in ('llist', 'ldict'), universe='ints')
    fresh = [CT[kind]] + ([plist, llist] if d.fam == 'seq' else [pset, frozenset] if d.fam == 'set' else [pdict, ldict])
    obj, model = d.start(rng.choice((None, None, None, 33, 40, 70, 130)))
    for _ in range(rng.randrange(4, 20)):
        if rng.random() < .6: hash_quiet(obj)
        obj, model = d.step_persistent(obj, model)
        content = list(model.items()) if d.fam == 'map' else list(model)
        h, e = attempt(hash, obj)
        ok = mhash(d.fam, model)
        c['history_versions'] += 1
        for F in fresh:
            if d.fam == 'map': rng.shuffle(content)
            f = F(content)
            c['evaluations'] += 2
            case.sig(kind, F.__name__, len(model), ok, d.uni)
            if not (obj == f) or not (f == obj) or obj != f or f != obj:
                raise Violation(f'{d.fam}:history-eq', f'a {kind} is not equal to a {F.__name__} of its content', content=content)
            if ok is not (e is None):
                raise Violation(f'{d.fam}:history-hash-raises', f'hash of a {kind} gives {h!r} {e!r}', content=content)
            if ok and hash(f) != h:
                raise Violation(f'{d.fam}:history-hash', f'a {kind} and an equal {F.__name__} built afresh have different hashes',
                                content=content)


def temporaries(case, fam, pool):
    """Comparisons of collections that exist only for the comparison: the next ones come to lie where these were."""
    rng = case.rng; c = case.count
    contents = [p[2] for p in pool]; models = [p[1] for p in pool]
    n = len(contents[0]); same = [i for i in range(len(pool)) if len(contents[i]) == n] if rng.random() < .5 else list(range(len(pool)))
    K = [CT[k] for k in (SEQS if fam == 'seq' else SETS if fam == 'set' else MAPS)]; hs = {}
    A = rng.choice(K); B = A if rng.random() < .7 else rng.choice(K)
    for _ in range(12):
        i, j = rng.choice(same), rng.choice(same); want = models[i] == models[j]
        x, y = contents[i], contents[j]
        case.op('temporaries', A.__name__, B.__name__, i, j); c['evaluations'] += 2; c['temporaries'] += 1
        got, e = attempt(lambda: (A(x) == B(y), A(x) != B(y)))
        if e is not None or got != (want, not want):
            raise Violation(f'{fam}:eq', f'== and != of a new {A.__name__} and a new {B.__name__} give {got!r} {e!r}, the builtins give {want}', a=models[i], b=models[j])
        if A.__name__ in PERSISTENT and mhash(fam, models[i]):
            h = hash(A(x))
            if hs.setdefault(i, h) != h or any(models[i] == models[k] and v != h for k, v in hs.items()):
                raise Violation(f'{fam}:hash-differs', f'new {A.__name__}s of equal content have different hashes', content=models[i])


def run_case(case):
    if case.index % 4 == 3: return history(case)
    rng = case.rng
    fam = ('seq', 'set', 'map')[case.index % 3]
    uni, pool = make_pool(case, fam)
    c = case.count
    if len(pool[0][2]) < 50 and rng.random() < .5: temporaries(case, fam, pool)
    eqto = {}
    for i, (a, ma, _) in enumerate(pool):
        for j, (b, mb, _) in enumerate(pool):
            ours = type(a).__module__.startswith('pcollections'), type(b).__module__.startswith('pcollections')
            if not any(ours): continue
            want = ma == mb
            eqto[i, j] = want
            c['evaluations'] += 2; c['equal' if want else 'unequal'] += 1
            if i != j: case.sig(type(a).__name__, type(b).__name__, len(ma), len(mb), want, uni)
            case.op('==', i, j)
            got, e = attempt(operator.eq, a, b)
            if e is not None:
                raise Violation(f'{fam}:eq-raises', f'{type(a).__name__} == {type(b).__name__} raised {e!r}', a=ma, b=mb)
            if got is not want:
                raise Violation(f'{fam}:eq', f'{type(a).__name__} == {type(b).__name__} is {got!r}, the builtins give {want}',
                                a=ma, b=mb)
            got, e = attempt(operator.ne, a, b)
            if e is not None or got is not (not want):
                raise Violation(f'{fam}:ne', f'{type(a).__name__} != {type(b).__name__} gives {got!r} {e!r}, the builtins give '
                                f'{not want}', a=ma, b=mb)
    # foreign objects
    for f in rng.sample(FOREIGN, 4) + foreign(rng, fam):
        a, ma, _ = rng.choice(pool)
        if not type(a).__module__.startswith('pcollections.'): continue
        for x, y in ((a, f), (f, a)):
            c['evaluations'] += 1; c['foreign'] += 1
            case.op('foreign', short(x, 60), short(y, 60))
            got, e = attempt(operator.eq, x, y)
            if e is not None or got is not False:
                raise Violation(f'{fam}:eq-foreign', f'{type(x).__name__} == {type(y).__name__} gives {got!r} {e!r}', a=x, b=y)
            got, e = attempt(operator.ne, x, y)
            if e is not None or got is not True:
                raise Violation(f'{fam}:ne-foreign', f'{type(x).__name__} != {type(y).__name__} gives {got!r} {e!r}', a=x, b=y)
    # hashes
    hs = {}
    for i, (a, ma, _) in enumerate(pool):
        if type(a).__name__ not in PERSISTENT and type(a) is not frozenset: continue
        case.op('hash', i)
        h, e = attempt(hash, a)
        c['evaluations'] += 1; c['hashes'] += 1
        if not mhash(fam, ma):
            c['unhashable'] += 1
            if not isinstance(e, TypeError):
                raise Violation(f'{fam}:hash-unhashable', f'hash of a {type(a).__name__} with unhashable content gives {h!r} {e!r}',
                                content=ma)
            continue
        if e is not None or type(h) is not int:
            raise Violation(f'{fam}:hash-raises', f'hash of a {type(a).__name__} of hashable content: {h!r} {e!r}', content=ma)
        if hash(a) != h:
            raise Violation(f'{fam}:hash-unstable', f'hash of a {type(a).__name__} changed between calls', content=ma)
        hs[i] = h
    for i in hs:
        for j in hs:
            if pool[i][1] == pool[j][1] and hs[i] != hs[j]:
                raise Violation(f'{fam}:hash-differs', f'equal {type(pool[i][0]).__name__} and {type(pool[j][0]).__name__} have '
                                'different hashes', a=pool[i][1], b=pool[j][1], how=(pool[i][2], pool[j][2]))
            c['hash_pairs'] += 1
    # as dictionary keys and set members
    if hs:
        d = {}; order = list(hs); rng.shuffle(order)
        for i in order: d.setdefault(pool[i][0], []).append(i)
        classes = []
        for i in order:
            for cl in classes:
                if pool[cl[0]][1] == pool[i][1]: cl.append(i); break
            else: classes.append([i])
        c['evaluations'] += 1
        if sorted(map(sorted, d.values())) != sorted(map(sorted, classes)):
            raise Violation(f'{fam}:dict-key', 'collections used as dictionary keys are grouped wrongly', got=list(d.values()),
                            want=classes, contents=[p[1] for p in pool])
        s = pset(pool[i][0] for i in order)
        if len(s) != len(classes) or not all(pool[i][0] in s for i in order):
            raise Violation(f'{fam}:pset-member', 'collections as members of a pset are grouped wrongly', contents=[p[1] for p in pool])
        # the hash does not change when versions are derived
        for i in order:
            a = pool[i][0]
            if hasattr(a, 'transient'):
                a.transient(); list(a); repr(a)
                if hash(a) != hs[i]:
                    raise Violation(f'{fam}:hash-changed', f'hash of a {type(a).__name__} changed', content=pool[i][1])
    if case.sample is None: case.sample = [short(x, 150) for x in case.log[:4]]


def foreign(rng, fam):
    xs = [1, 2]
    out = []
    if fam != 'seq': out += [plist(xs), tlist(), [], [1]]
    if fam != 'set': out += [pset(xs), tset(), set(), frozenset(xs)]
    if fam != 'map': out += [pdict(a=1), tdict(), {}, {1: 2}]
    return rng.sample(out, 3)
MIN = {'large': 10, 'evaluations': 500000, 'equal': 100000, 'unequal': 200000, 'hash_pairs': 20000, 'foreign': 20000, 'unhashable': 1000}
ASSUME = ["elements' own __eq__ and __hash__ are consistent and do not raise"]

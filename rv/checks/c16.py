"""pickle (every protocol, same process and a process with another hash seed), copy.copy and copy.deepcopy."""
import copy, pickle, struct, subprocess, sys, os
from ..core import Violation, short
from ..pools import *
from ..values import Box, HK, HKS, HKS_ONE, INTS_COLLIDING
from ..busy import UNIVERSE as BUSY_ELEMENTS
PROP = 'C16'
BUSY = 2
RULE = ('One case builds a collection of one of the ten types by a random history and puts it through copy.copy, copy.deepcopy, pickle '
        'with every protocol (unpickled here and, for one protocol, in a process with another hash seed) and a nested container; each '
        'result is compared with the original (type, content, order), used and edited against a builtin model, and the original is '
        're-read.  Distinct are different (type, way, universe, size).')
def plan(tier): return dict(cases=40000 if tier == 'quick' else 600000, deadline=300 if tier == 'quick' else 600)

U = {
    'ints': list(range(15)), 'coll': INTS_COLLIDING, 'hk': HKS, 'hk1': HKS_ONE, 'str': [f's{i}' for i in range(20)] + ['', 'child-'],
    'busy': BUSY_ELEMENTS,
    'twins': [1, True, 1.0, 0, False, 0.0, -0.0, 1 + 0j, (1,), (True,), frozenset([1]), pset([1]), 2**60, float(2**60), plist([1]), plist([True])],
    'mixed': [None, Ellipsis, True, 0.5, (1, 'a'), frozenset([1, 2]), b'x', int, 'é', 2**70, -1, -2, plist([1, 2]), pset(['a']), pdict(a=1)],
}
MUT = ['list', 'dict', 'tlist', 'nested', 'set', 'box', 'tuple', 'pdict']
def mutable(rng):
    k = rng.choice(MUT); box = Box(rng.randrange(5), [1])
    return {'list': lambda: [1, [2]], 'dict': lambda: {'a': [1]}, 'tlist': lambda: tlist([1, 2]), 'nested': lambda: plist([[1], tset([2]), box]),
            'set': lambda: {1, 2}, 'box': lambda: box, 'tuple': lambda: (1, box, (box, frozenset([box]))),
            'pdict': lambda: rng.choice((pdict, ldict))({'a': box, 'b': [box], 'c': pset([box])})}[k]()
def mutable_key(rng):
    box = Box(rng.randrange(5), [1])
    return {0: lambda: box, 1: lambda: (1, box), 2: lambda: frozenset([box, 3]), 3: lambda: plist([box, 2]), 4: lambda: pset([box])}[rng.randrange(5)]()

CHILD = {}
def child():
    p = CHILD.get(os.getpid())
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED='77', PYTHONDONTWRITEBYTECODE='1')
        p = CHILD[os.getpid()] = subprocess.Popen([sys.executable, '-B', os.path.join(os.path.dirname(os.path.dirname(__file__)), 'pickle_child.py')],
                                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    return p
def ask(data):
    p = child()
    p.stdin.write(struct.pack('<I', len(data)) + data); p.stdin.flush()
    h = p.stdout.read(4)
    if len(h) < 4: raise RuntimeError('child ended')
    return pickle.loads(p.stdout.read(struct.unpack('<I', h)[0]))


def content(o):
    n = type(o).__name__
    if n in MAPS: return [(k, o[k]) for k in o]
    return list(o)


def alike(x, y):
    """Equal elements of one type, also one level down."""
    if type(x) is not type(y): return False
    if isinstance(x, float): return repr(x) == repr(y)
    return len(x) == len(y) and all(map(alike, x, y)) if isinstance(x, (tuple, list, plist, tlist)) else True


def equal_content(kind, a, b, identical=False):
    if kind in SETS:
        if len(a) != len(b) or set(a) != set(b): return False
        d = {x: x for x in a}
        return all(alike(d[y], y) for y in b)
    if len(a) != len(b): return False
    if identical:
        flat = lambda xs: [y for x in xs for y in (x if isinstance(x, tuple) and kind in MAPS else (x,))]
        return all(x is y for x, y in zip(flat(a), flat(b)))
    return a == b and all(map(alike, a, b))


def use(case, kind, q, model, way):
    """Edits of the copy against a builtin model."""
    rng = case.rng
    t = q.transient() if kind in PERSISTENT else q
    bad = lambda what: Violation(f'{kind}:{way}:use', f'a {kind} that came back from {way} misbehaves: {what}', content=model)
    keys = [HK(500 + i, rng.choice((0, 1, 5))) for i in range(3)] + ['s1', 3]
    if kind in SEQS:
        m = list(model)
        for _ in range(6):
            k = rng.randrange(5); x = rng.choice(keys)
            if k == 0: t.append(x); m.append(x)
            elif k == 1: t.prepend(x); m.insert(0, x)
            elif k == 2: i = rng.randrange(len(m) + 1); t.insert(i, x); m.insert(i, x)
            elif m and k == 3: i = rng.randrange(len(m)); del t[i]; del m[i]
            elif m: i = rng.randrange(len(m)); t[i] = x; m[i] = x
            if list(t) != m: raise bad(f'{list(t)} after edits, not {m}')
        if kind in PERSISTENT:
            if list(q.append(0)) != list(model) + [0] or list(q) != list(model): raise bad('append')
    elif kind in SETS:
        m = set(model)
        for _ in range(6):
            x = rng.choice(keys + list(model)[:4])
            if rng.random() < .5: t.add(x); m.add(x)
            else: t.discard(x); m.discard(x)
            if set(t) != m or len(t) != len(m) or (x in t) != (x in m): raise bad(f'{set(t)} after edits, not {m}')
        for x in model:
            if kind in PERSISTENT and x not in q: raise bad(f'lost {x!r}')
    else:
        m = dict(model)
        for _ in range(6):
            x = rng.choice(keys + [k for k, _ in model][:4]); v = rng.randrange(100)
            if rng.random() < .6: t[x] = v; m[x] = v
            elif x in m: del t[x]; del m[x]
            if [(k, t[k]) for k in t] != list(m.items()) or len(t) != len(m): raise bad(f'{dict(t)} after edits, not {m}')
        for k, v in model:
            if kind in PERSISTENT and (k not in q or not (q[k] is v or q[k] == v)): raise bad(f'lost {k!r}')


def mutables(x, out, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen: return out
    seen.add(id(x))
    if isinstance(x, (list, tlist, tllist, dict, tdict, tldict, set, tset, Box)): out.append(x)
    if isinstance(x, Box): x = x.content
    if isinstance(x, (list, tuple, set, frozenset, plist, tlist, pset, tset)):
        for y in x: mutables(y, out, seen)
    elif isinstance(x, (dict, pdict, tdict, ldict, tldict)):
        for k in x: mutables(k, out, seen); mutables(x[k], out, seen)
    return out


def run_case(case):
    rng = case.rng; c = case.count
    kind = list(CT)[case.index % 10]
    uni = rng.choice(list(U)); u = U[uni]
    n = rng.choice((0, 1, 2, 3, 4, 6, 9, 14, 33, 40))
    val = lambda: mutable(rng) if rng.random() < .3 else rng.choice(u)
    mk = rng.random() < .3
    key = lambda: mutable_key(rng) if mk and rng.random() < .4 else rng.choice(u)
    if rng.random() < .012:
        n = rng.choice((255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 1026, 2000, 2001, 2047, 2048, 2049, 2100, rng.randrange(200, 2200)));  n = n if rng.random() > .08 else rng.choice(LARGE); key = lambda: rng.randrange(10**6); uni = 'big'; c['big'] += 1; case.large(n in LARGE)
        val = lambda: mutable(rng) if rng.random() < .02 else rng.randrange(100)
    if kind in SEQS and rng.random() < .15:                            # runs of equal elements that are not the same
        few = rng.choice(([1, True], [1, True, 1.0], [0.0, -0.0], [0, False, 0.0], ['x'], [None]))
        if rng.random() < .5: val = lambda: rng.choice(few)
        else: e = rng.choice((list, dict, set, tlist, tset, lambda: [1], lambda: Box(1, [])))(); val = lambda: e if rng.random() < .3 else copy.deepcopy(e)
        c['runs'] += 1
    if kind in MAPS: cont = list({key(): val() for _ in range(n)}.items())
    elif kind in SETS: cont = list({key() for _ in range(n)})
    else: cont = [val() for _ in range(n)]
    if cont and kind in SEQS and rng.random() < .3: cont.append(cont[0])      # shared element
    o = build(kind, cont, rng)
    case.op('build', kind, uni, short(cont))
    ref = content(o)
    ways = [('copy.copy', lambda: copy.copy(o)), ('copy.deepcopy', lambda: copy.deepcopy(o))]
    for p in range(6): ways.append((f'pickle{p}', lambda p=p: pickle.loads(pickle.dumps(o, p))))
    ways.append(('pickle-nested', lambda: pickle.loads(pickle.dumps({'a': [o, 1], 'b': (o,)}))['b'][0]))
    ways.append(('deepcopy-nested', lambda: copy.deepcopy([{'x': o}])[0]['x']))
    for way, f in rng.sample(ways, 5):
        case.op(way)
        try: q = f()
        except Exception as e:
            raise Violation(f'{kind}:{way}:raises', f'{way} of a {kind} raised {e!r}', content=cont)
        c['evaluations'] += 1; c['way:' + way] += 1; case.sig(kind, way, uni, len(cont))
        if type(q) is not type(o):
            raise Violation(f'{kind}:{way}:type', f'{way} of a {kind} gave a {type(q).__name__}', content=cont)
        qc = content(q)
        if not equal_content(kind, ref, qc, identical=(way == 'copy.copy' )):
            raise Violation(f'{kind}:{way}:content', f'{way} of a {kind} has other content', got=qc, want=ref)
        if len(q) != len(ref) or not (q == o) or not (o == q):
            raise Violation(f'{kind}:{way}:equal', f'{way} of a {kind} is not equal to it (len {len(q)})', got=qc, want=ref)
        if kind in PERSISTENT:
            try: h = hash(o)
            except TypeError: h = None
            if h is not None and hash(q) != h:
                raise Violation(f'{kind}:{way}:hash', f'{way} of a {kind} has another hash', content=cont)
        if way != 'copy.copy':
            a, b = mutables(ref, []), mutables(qc, [])
            ids = {id(x) for x in a[1:]}
            b = b[1:]
            if len(a) - 1 != len(b): raise Violation(f'{kind}:{way}:structure', f'{way} of a {kind} has {len(b)} mutable parts, not {len(a) - 1}', content=cont)
            for x in b:
                c['independence'] += 1
                if id(x) in ids: raise Violation(f'{kind}:{way}:shares', f'{way} of a {kind} shares the mutable {short(x)}', content=cont)
            if kind in SEQS and len(ref) > 1:
                if (ref[0] is ref[-1]) and isinstance(ref[0], list) and qc[0] is not qc[-1]:
                    raise Violation(f'{kind}:{way}:sharing', f'{way} of a {kind} duplicated a shared element', content=cont)
        use(case, kind, q, qc, way)
        now = content(o)
        if not equal_content(kind, ref, now, identical=True):
            raise Violation(f'{kind}:{way}:original', f'editing what {way} of a {kind} gave changed the original', got=now, want=ref)
        if kind not in PERSISTENT:                # and the other way round
            q2 = f(); before = content(q2); cp = o.copy()
            use(case, kind, o, content(o), 'use')
            if not equal_content(kind, before, content(q2)):
                raise Violation(f'{kind}:{way}:dependent', f'editing a {kind} changed what {way} of it gave', got=content(q2), want=before)
            o = cp; ref = content(o)
    if rng.random() < .25:
        p = rng.randrange(6)
        case.op('other process', p)
        r = ask(pickle.dumps(o, p))
        c['evaluations'] += 1; c['other-process'] += 1
        want = set(ref) if kind in SETS else ref
        if 'error' in r or r['type'] != kind or r['content'] != want or r['len'] != len(ref) or not (
                r['found'] and r['equal'] and r['edits'] and r.get('hash', True) is not False):
            raise Violation(f'{kind}:other-process', f'a {kind} pickled with protocol {p} misbehaves in another process: {short(r, 400)}', content=cont)
    if case.sample is None: case.sample = [short(x, 150) for x in case.log[:6]]
MIN = {'large': 10, 'runs': 500, 'evaluations': 80000, 'other-process': 3000, 'independence': 30000, 'big': 50}
for _w in ['copy.copy', 'copy.deepcopy', 'pickle-nested', 'deepcopy-nested'] + [f'pickle{p}' for p in range(6)]: MIN['way:' + _w] = 1500
ASSUME = ['elements themselves pickle and copy to equal objects']

"""Builds a collection of a given kind and content by one of many histories."""
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
from . import values

CT = {c.__name__: c for c in (plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict)}
SEQS = ('plist', 'tlist', 'llist', 'tllist')
SETS = ('pset', 'tset')
MAPS = ('pdict', 'tdict', 'ldict', 'tldict')
PERSISTENT = ('plist', 'llist', 'pset', 'pdict', 'ldict')
PAIR = dict(plist='tlist', llist='tllist', pset='tset', pdict='tdict', ldict='tldict')
PAIR.update({v: k for k, v in list(PAIR.items())})
LARGE = (1501, 2001, 2500, 3100, 4097, 5000, 8200)
HIST_SEQ, HIST_SET, HIST_MAP = 10, 8, 9


def touch(obj, rng, p=.25):
    """Sometimes reads an intermediate version, so that whatever it may remember is remembered before the next step."""
    if rng.random() > p: return obj
    q = rng.randrange(9)
    try:
        if q < 3: hash(obj)
        elif q == 3: list(obj)
        elif q == 4: len(obj); bool(obj); next(iter(obj), None)
        elif q == 5: obj == type(obj)(list(obj.items()) if hasattr(obj, 'items') else list(obj))
        elif q == 6: obj.persistent() if hasattr(obj, 'persistent') else obj.transient()
        elif q == 7: list(reversed(obj)) if hasattr(obj, '__reversed__') else repr(obj)
        else: obj.copy()
    except Exception: pass
    return obj


def lazies(rng, p=.7):
    def wrap(x):
        q = rng.random()
        if q > p: return x
        l = lazy(lambda: x)
        if q < .2: l()
        return l
    return wrap


def build(kind, content, rng, how=None, junk=None, wrap=None):
    """content: list (seq, set) or list of pairs (map).  Returns the object."""
    if wrap is None: wrap = lazies(rng) if kind in ('llist', 'tllist', 'ldict', 'tldict') else (lambda x: x)
    if kind in SEQS: return build_seq(kind, content, rng, how, junk, wrap)
    if kind in SETS: return build_set(kind, content, rng, how, junk)
    return build_map(kind, content, rng, how, junk, wrap)


def build_seq(kind, xs, rng, how, junk, wrap):
    ys = [wrap(x) for x in xs]; n = len(ys)
    junk = junk or (lambda: rng.randrange(100))
    pk = kind if kind in PERSISTENT else PAIR[kind]
    P = CT[pk]
    if how is None: how = rng.randrange(HIST_SEQ) if n < 1300 else rng.choice((0, 8, 9))
    if how == 0: p = P(ys)
    elif how == 1:
        p = P()
        for y in ys: p = touch(p, rng).append(y)
    elif how == 2:
        p = P()
        for y in reversed(ys): p = touch(p, rng).prepend(y)
    elif how == 3:
        k = rng.randrange(n + 1); p = P(ys[k:])
        for y in reversed(ys[:k]): p = touch(p, rng).prepend(y)
    elif how == 4:
        k = rng.randrange(1, 6); p = P([junk() for _ in range(k)] + ys)
        for _ in range(k): p = touch(p, rng).delete(0)
    elif how == 5:
        t = P().transient(); k = rng.randrange(n + 1)
        for y in ys[k:]: touch(t, rng).append(y)
        for y in reversed(ys[:k]): touch(t, rng).prepend(y)
        p = t.persistent()
    elif how == 6:                       # inserted in random places
        order = list(range(n)); rng.shuffle(order); p = P(); placed = []
        for i in order:
            at = sum(1 for j in placed if j < i); p = touch(p, rng).insert(at, ys[i]); placed.append(i)
    elif how == 7:                       # set over junk
        p = P([junk() for _ in range(n)])
        for i, y in enumerate(ys): p = touch(p, rng).set(i, y)
    elif how == 8:                       # edits undone
        p = P(ys)
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(n + 1); p = p.insert(i, junk()); hash_quiet(p); p = p.delete(i)
    else:
        p = P(ys + [junk()])[:n]
    if kind == pk: return p
    return p.transient() if rng.random() < .5 else CT[kind](p)


def hash_quiet(p):
    try: hash(p)
    except Exception: pass


def build_set(kind, xs, rng, how, junk):
    xs = list(xs); rng.shuffle(xs)
    junk = junk or (lambda: rng.randrange(1000, 1100))
    if how is None: how = rng.randrange(HIST_SET) if len(xs) < 1300 else rng.choice((0, 3, 4, 6, 7))
    if how == 0: p = pset(xs)
    elif how == 1:
        p = pset()
        for x in xs: p = touch(p, rng).add(x)
    elif how == 2:
        t = tset()
        for x in xs: touch(t, rng).add(x)
        p = t.persistent()
    elif how == 3: p = pset(xs + xs)
    elif how == 4:
        p = pset(xs)
        for _ in range(3):
            j = junk()
            if j not in p: p = p.add(j); hash_quiet(p); p = p.discard(j)
    elif how == 5:
        k = rng.randrange(len(xs) + 1); p = touch(pset(xs[:k]), rng, .6) | set(xs[k:])
    elif how == 6:
        js = [j for j in (junk() for _ in range(4)) if j not in set(xs)]
        p = touch(pset(js + xs), rng, .6).discardall(js)
    else:
        p = pset(frozenset(xs))
    if kind == 'pset': return p
    return p.transient() if rng.random() < .5 else tset(p)


def build_map(kind, kv, rng, how, junk, wrap):
    kv = [(k, wrap(v)) for k, v in kv]
    junk = junk or (lambda: rng.randrange(1000, 1100))
    pk = kind if kind in PERSISTENT else PAIR[kind]
    P = CT[pk]
    if how is None: how = rng.randrange(HIST_MAP) if len(kv) < 1300 else rng.choice((0, 3, 4, 6, 7, 8))
    if how == 0: p = P(kv)
    elif how == 1:
        p = P()
        for k, v in kv: p = touch(p, rng).set(k, v)
    elif how == 2:
        t = P().transient()
        for k, v in kv: touch(t, rng)[k] = v
        p = t.persistent()
    elif how == 3: p = P(dict(kv))
    elif how == 4: p = P().update(kv)
    elif how == 5:
        p = P((k, junk()) for k, _ in kv)
        for k, v in kv: p = touch(p, rng).set(k, v)
    elif how == 6:
        p = P(kv); ks = {k for k, _ in kv}
        for _ in range(3):
            j = junk()
            if j not in ks: p = p.set(j, 0); hash_quiet(p); p = p.drop(j)
    elif how == 7:
        ks = {k for k, _ in kv}; js = list(dict.fromkeys(j for j in (junk() for _ in range(4)) if j not in ks))
        p = P([(j, None) for j in js] + kv)
        for j in js: p = touch(p, rng).pop(j)[1]
    else:
        p = touch(P(kv[:len(kv) // 2]), rng, .6).update(dict(kv[len(kv) // 2:]))
    if kind == pk: return p
    return p.transient() if rng.random() < .5 else CT[kind](p)

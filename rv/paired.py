"""Paired fault injection: one element, iterator, mapping, index or key function raises, and the builtin is given the same one.

Where the builtin lets the exception out, the pcollections object must too (if it called the failing code at all), with the same
class, and a transient must then hold exactly what the builtin holds.  Persistent receivers and all arguments must be unchanged.
"""
from .core import Violation, short, WATCH
from .family import FAM, snap, snap_same
from .pools import build, SEQS, SETS, MAPS, PERSISTENT, CT
from .ops import Items, SetContent
from .checks.c17 import consistent


class Arm:
    hash = eq = lt = False; exc = None; hits = 0
    def off(self): self.hash = self.eq = self.lt = False; self.hits = 0
    def fire(self, what): self.hits += 1; raise self.exc('injected', what)
ARM = Arm()


class Z:
    """An element; the poisoned one raises in __hash__, __eq__ or __lt__ while that is armed."""
    __slots__ = ('tag', 'h', 'poison', '__weakref__')
    def __init__(self, tag, h, poison=False): self.tag = tag; self.h = h; self.poison = poison
    def __hash__(self):
        if self.poison and ARM.hash: ARM.fire('hash')
        return self.h
    def __eq__(self, o):
        if not isinstance(o, Z): return NotImplemented
        if ARM.eq and (self.poison or o.poison): ARM.fire('eq')
        return self.tag == o.tag
    def __lt__(self, o):
        if not isinstance(o, Z): return NotImplemented
        if ARM.lt and (self.poison or o.poison): ARM.fire('lt')
        return self.tag < o.tag
    def __gt__(self, o):
        if not isinstance(o, Z): return NotImplemented
        if ARM.lt and (self.poison or o.poison): ARM.fire('lt')
        return self.tag > o.tag
    __le__ = lambda self, o: self < o or self == o if isinstance(o, Z) else NotImplemented
    __ge__ = lambda self, o: self > o or self == o if isinstance(o, Z) else NotImplemented
    def __repr__(self): return f'Z({self.tag},{self.h}{",poison" if self.poison else ""})'
POISON = Z(1000, 900, True)
COLLIDER = Z(1001, 900)                 # same hash, never equal
PLAIN = [Z(i, i % 4) for i in range(10)] + [1, 2, 'x', None, (1,), 2**61 - 1, 0]


class FailIter:
    """Yields `xs`, then raises (or, in __iter__, raises at once)."""
    def __init__(self, xs, mode): self.xs, self.mode = list(xs), mode
    def __iter__(self):
        if self.mode == 'iter': ARM.fire('iter')
        return self.gen()
    def gen(self):
        yield from self.xs
        if self.mode == 'item': ARM.fire('item')
class FailNext:
    """The same as an iterator class, which is not finished after it raised."""
    def __init__(self, xs): self.xs = list(xs); self.i = 0
    def __iter__(self): return self
    def __next__(self):
        if self.i < len(self.xs): self.i += 1; return self.xs[self.i - 1]
        ARM.fire('item')
class FailGet:
    def __init__(self, xs): self.xs = list(xs)
    def __getitem__(self, i):
        if i < len(self.xs): return self.xs[i]
        ARM.fire('item')
class FailMap:
    def __init__(self, kv, where): self.kv, self.where = list(kv), where
    def keys(self):
        if self.where == 'keys': ARM.fire('keys')
        ks = [k for k, _ in self.kv]
        if self.where == 'keyiter': return iter(FailNext(ks))
        return ks + (['last'] if self.where == 'get' else [])
    def __getitem__(self, k):
        for a, v in self.kv:
            if a is k: return v
        ARM.fire('mapget')
class FailIndex:
    def __index__(self): ARM.fire('index')
def raising_key(n):
    seen = [0]
    def key(x):
        seen[0] += 1
        if seen[0] > n: ARM.fire('key')
        return 0
    return key


# Each generator gives (arming flags, subject function, model function, label).  Both functions build their own arguments.
def seq_ops(rng, kind, xs):
    n = len(xs); pers = kind in PERSISTENT
    some = lambda: [rng.choice(PLAIN) for _ in range(rng.choice((0, 1, 2, 3, 7, 35)))]
    k = rng.randrange(9)
    if k < 3:
        ys = some(); sh = rng.choice(('gen', 'iter', 'next', 'get'))
        mk = {'gen': lambda: FailIter(ys, 'item'), 'iter': lambda: FailIter(ys, 'iter'), 'next': lambda: FailNext(ys), 'get': lambda: FailGet(ys)}[sh]
        q = rng.randrange(3)
        if q == 0 or pers and q == 1: return '', (lambda o: o.extend(mk())), (lambda l: l.extend(mk())), ('extend', sh, len(ys))
        if q == 1:
            def f(o): o += mk()
            return '', f, f, ('iadd', sh, len(ys))
        ct = CT[kind]
        return '', (lambda o: ct(mk())), (lambda l: list(mk())), ('construct', sh, len(ys))
    if k == 3:
        what = rng.choice(('index', 'count', 'remove', 'in'))
        x = rng.choice((POISON, rng.choice(PLAIN), Z(77, 1)))
        f = {'index': lambda o: o.index(x), 'count': lambda o: o.count(x), 'remove': lambda o: o.remove(x), 'in': lambda o: x in o}[what]
        return 'eq', f, f, (what, x)
    if k == 4:
        what = rng.choice(('==', '!=', '<', '>='))
        zs = list(xs)
        if zs and rng.random() < .6: zs[rng.randrange(n)] = POISON
        okind = rng.choice(SEQS + ('list',))
        other = zs if okind == 'list' else CT[okind](zs)
        import operator as op
        g = {'==': op.eq, '!=': op.ne, '<': op.lt, '>=': op.ge}[what]
        return 'eq' if what in ('==', '!=') else 'eqlt', (lambda o: g(o, other)), (lambda l: g(l, zs)), (what, okind)
    if k == 5:
        q = rng.randrange(4)
        if pers:
            f, g = [(lambda o: o.set(FailIndex(), 1), lambda l: l.__setitem__(FailIndex(), 1)), (lambda o: o.insert(FailIndex(), 1), lambda l: l.insert(FailIndex(), 1)),
                    (lambda o: o.pop(FailIndex()), lambda l: l.pop(FailIndex())), (lambda o: o[FailIndex()], lambda l: l[FailIndex()])][q]
        else:
            f = g = [lambda o: o.__setitem__(FailIndex(), 1), lambda o: o.insert(FailIndex(), 1), lambda o: o.pop(FailIndex()), lambda o: o.__delitem__(FailIndex())][q]
        return '', f, g, ('index', q)
    if k == 6:
        sl = rng.choice((slice(FailIndex(), None), slice(None, FailIndex()), slice(None, None, FailIndex())))
        f = lambda o: o[sl]
        return '', f, f, ('slice',)
    if k == 7:
        f = lambda o: o * FailIndex()
        return '', f, f, ('mul',)
    j = rng.randrange(n + 1)
    if rng.random() < .5: return '', (lambda o: o.sort(key=raising_key(j))), (lambda l: l.sort(key=raising_key(j))), ('sort key', j)
    return 'lt', (lambda o: o.sort()), (lambda l: l.sort()), ('sort',)


def set_ops(rng, kind, xs):
    pers = kind in PERSISTENT
    pick = lambda: rng.choice(xs) if xs and rng.random() < .5 else rng.choice(PLAIN)
    some = lambda: [pick() for _ in range(rng.choice((0, 1, 2, 3, 7, 35)))]
    flag = rng.choice(('hash', 'eq', 'it'))
    ys = some()
    if flag == 'it':
        sh = rng.choice(('gen', 'iter', 'next', 'get'))
        mk = {'gen': lambda: FailIter(ys, 'item'), 'iter': lambda: FailIter(ys, 'iter'), 'next': lambda: FailNext(ys), 'get': lambda: FailGet(ys)}[sh]
        flags = ''
    else:
        zs = list(ys); zs.insert(rng.randrange(len(zs) + 1), POISON)
        if flag == 'eq' and rng.random() < .3: zs = [COLLIDER if z is POISON else z for z in zs]
        sh = flag; ys = zs
        mk = rng.choice((lambda: list(zs), lambda: iter(zs), lambda: (z for z in zs)))
        flags = flag
    single = rng.random() < .35 and flag != 'it'
    if single:
        x = POISON if flag == 'hash' else rng.choice((POISON, COLLIDER))
        what = rng.choice(('in', 'add', 'discard', 'remove'))
        f = {'in': lambda o: x in o, 'add': lambda o: o.add(x), 'discard': lambda o: o.discard(x), 'remove': lambda o: o.remove(x)}[what]
        return flags, f, f, (what, flag, x)
    names = [('union', 'union'), ('intersection', 'intersection'), ('difference', 'difference'), ('symmetric_difference', 'symmetric_difference'),
             ('addall', 'update'), ('discardall', 'difference_update'), ('issuperset', 'issuperset'), ('isdisjoint', 'isdisjoint'), ('construct', 'construct'), ('removeall', 'removeall')]
    if not pers: names += [(a, a) for a in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update')] * 2 + [('&=', '&='), ('-=', '-='), ('|=', '|='), ('^=', '^=')]
    a, b = rng.choice(names)
    if a == 'construct':
        ct = CT[kind]
        return flags, (lambda o: ct(mk())), (lambda l: set(mk())), (a, sh, len(ys))
    if a == 'removeall':
        def rm(s):
            for y in mk(): s.remove(y)
        return flags, (lambda o: o.removeall(mk())), rm, (a, sh, short(ys, 80))
    if a in ('&=', '-=', '|=', '^='):
        okind = rng.choice(('set', 'frozenset', 'pset', 'tset'))
        ys = [y for y in ys if y is not None]
        oths = {'set': set, 'frozenset': frozenset}.get(okind) or CT[okind]
        other = oths(ys); mo = set(ys)
        import operator as op
        g = {'&=': op.iand, '-=': op.isub, '|=': op.ior, '^=': op.ixor}[a]
        def f(o): g(o, other)
        def m(s): g(s, mo)
        return ('eq' if flag == 'eq' else ''), f, m, (a, okind, short(ys, 80))
    return flags, (lambda o: getattr(o, a)(mk())), (lambda l: getattr(l, b)(mk())), (a, sh, short(ys, 80))


def map_ops(rng, kind, kv):
    pers = kind in PERSISTENT
    ks = [k for k, _ in kv]
    flag = rng.choice(('hash', 'eq'))
    x = POISON if flag == 'hash' else rng.choice((POISON, COLLIDER))
    k = rng.randrange(5)
    pick = lambda: rng.choice(ks) if ks and rng.random() < .5 else rng.choice(PLAIN)
    if k < 2:
        what = rng.choice(('[]', 'get', 'in', 'set', 'del', 'pop', 'popd', 'setdefault', 'keys'))
        if pers: mm = {'set': lambda o: o.set(x, 1), 'del': lambda o: rng.choice((o.delete, o.drop))(x)}
        else: mm = {'set': lambda o: o.__setitem__(x, 1), 'del': lambda o: o.__delitem__(x)}
        both = {'[]': lambda o: o[x], 'get': lambda o: o.get(x), 'in': lambda o: x in o, 'pop': lambda o: o.pop(x), 'popd': lambda o: o.pop(x, 5),
                'setdefault': lambda o: o.setdefault(x, 7), 'keys': lambda o: x in o.keys()}
        b = {'set': lambda d: d.__setitem__(x, 1), 'del': lambda d: d.__delitem__(x)}
        return flag, both.get(what) or mm[what], both.get(what) or b[what], (what, flag, x)
    pairs = [(pick(), rng.randrange(50)) for _ in range(rng.choice((0, 1, 2, 3, 7, 35)))]
    ct = CT[kind]
    if k == 2:
        sh = rng.choice(('gen', 'iter', 'next', 'get', 'mkeys', 'mkeyiter', 'mget'))
        u = list(dict(pairs).items())
        mk = {'gen': lambda: FailIter(pairs, 'item'), 'iter': lambda: FailIter(pairs, 'iter'), 'next': lambda: FailNext(pairs), 'get': lambda: FailGet(pairs),
              'mkeys': lambda: FailMap(u, 'keys'), 'mkeyiter': lambda: FailMap(u, 'keyiter'), 'mget': lambda: FailMap(u, 'get')}[sh]
        if rng.random() < .3: return '', (lambda o: ct(mk())), (lambda d: dict(mk())), ('construct', sh, len(pairs))
        return '', (lambda o: o.update(mk())), (lambda d: d.update(mk())), ('update', sh, short(pairs, 80))
    if k == 3:
        pairs.insert(rng.randrange(len(pairs) + 1), (x, 'new'))
        mk = rng.choice((lambda: list(pairs), lambda: iter(pairs), lambda: (p for p in pairs), lambda: [list(p) for p in pairs]))
        return flag, (lambda o: o.update(mk())), (lambda d: d.update(mk())), ('update', flag, short(pairs, 80))
    if pers:
        what = rng.choice(('dropall', 'deleteall', 'setall'))
        zs = [pick() for _ in range(rng.randrange(4))]; zs.insert(rng.randrange(len(zs) + 1), x)
        if rng.random() < .5: mk = lambda: FailNext(zs[:-1]); fl = ''
        else: mk = lambda: list(zs); fl = flag
        def drop(d):
            for z in mk(): d.pop(z, None)
        def delete(d):
            for z in mk(): del d[z]
        def setall(d):
            for z, y in zip(mk(), range(99)): d[z] = y
        f = {'dropall': lambda o: o.dropall(mk()), 'deleteall': lambda o: o.deleteall(mk()), 'setall': lambda o: o.setall(mk(), range(99))}[what]
        return fl, f, dict(dropall=drop, deleteall=delete, setall=setall)[what], (what, fl, short(zs, 80))
    what = rng.choice(('values', '==', 'items'))
    v = rng.choice((POISON, COLLIDER)); kk = pick()
    f = {'values': lambda o: v in o.values(), 'items': lambda o: (kk, v) in o.items(), '==': lambda o: o == {a: (POISON if i == 0 else b) for i, (a, b) in enumerate(kv)}}[what]
    return 'eq', f, f, (what,)


def run(case, excs):
    rng = case.rng; c = case.count
    kind = list(CT)[case.index // 3 % 10]
    fam = FAM[kind]; pers = kind in PERSISTENT
    n = rng.choice((0, 1, 2, 3, 5, 8, 12, 34))
    ARM.off()
    special = rng.choice(([], [], [POISON], [POISON], [COLLIDER]))
    if fam == 'map':
        ks = list(dict.fromkeys([rng.choice(PLAIN) for _ in range(n)])); ks[rng.randrange(len(ks) + 1):0] = special
        base = [(k, rng.choice((rng.randrange(50), POISON, COLLIDER))) for k in ks]
    elif fam == 'set': base = list(dict.fromkeys([rng.choice(PLAIN) for _ in range(n)])) + special
    else: base = [rng.choice(PLAIN) for _ in range(n)]; base[rng.randrange(n + 1):0] = special
    o = build(kind, base, rng)
    case.op('paired', kind, short(base, 150))
    for _ in range(6):
        gen = {'seq': seq_ops, 'set': set_ops, 'map': map_ops}[fam]
        cur = snap(fam, o)
        flags, sf, mf, lab = gen(rng, kind, cur)
        exc = rng.choice(excs)
        m = list(cur) if fam == 'seq' else set(cur) if fam == 'set' else dict(cur)
        m0 = list(cur)
        if fam != 'seq' and sum(1 for x in m if x is POISON or x is COLLIDER) > 1: break     # which of them is compared first is free
        case.op('fault', flags, exc.__name__, *lab)
        def run1(f, a):
            ARM.hash = flags == 'hash'; ARM.eq = flags in ('eq', 'eqlt'); ARM.lt = flags in ('lt', 'eqlt'); ARM.exc = exc; ARM.hits = 0
            try: return f(a), None, ARM.hits
            except BaseException as e:
                if type(e) is not exc and not isinstance(e, Exception): raise
                return None, e, ARM.hits
            finally: ARM.off()
        mr, me, mh = run1(mf, m)
        WATCH.op()
        sr, se, sh = run1(sf, o)
        tag = f'{kind}.{lab[0]}:paired'
        hit = me is not None and type(me) is exc and mh
        c['paired'] += 1; c['evaluations'] += 1
        case.sig('paired', kind, lab[0], flags, exc.__name__, bool(hit), se is None, len(m0))
        now = snap(fam, o)
        if hit and sh:
            c['paired both'] += 1
            if se is None: raise Violation(tag + ':swallowed', f'{short(lab)} on a {kind} completes although what it called raised {exc.__name__}', model=m0)
            if type(se) is not exc: raise Violation(tag + ':replaced', f'{short(lab)} on a {kind} raises {se!r} where user code raised {exc.__name__}', model=m0)
        elif hit and se is None: c['paired not called'] += 1
        if se is not None: se.__traceback__ = None
        if pers:
            if not snap_same(now, m0): raise Violation(tag + ':changed', f'failed {short(lab)} changed the {kind}', before=m0, after=now)
            continue
        if isinstance(now, Exception): raise Violation(tag + ':broken', f'the {kind} cannot be read after failed {short(lab)}: {now!r}', before=m0)
        if lab[0].startswith('sort') or lab[0] == 'remove' and fam == 'seq':
            if se is not None and not snap_same(now, m0): raise Violation(tag + ':changed', f'failed {short(lab)} changed the {kind}', before=m0, after=now)
        elif hit and sh and lab[0] not in ('-=', '|=', '^=') and 'mkeyiter' not in lab and not (flags and lab[0] == 'symmetric_difference_update'):
            want = list(m) if fam == 'seq' else SetContent(m) if fam == 'set' else list(m.items())
            got = now if fam != 'set' else SetContent(now)
            if (fam == 'set' and (got != want or len(now) != len(m))) or (fam != 'set' and not snap_same(got, want)):
                raise Violation(tag + ':partial', f'the {kind} after failed {short(lab)} does not hold what the builtin holds', before=m0, got=got, want=want)
            c['paired exact'] += 1
        if not pers and rng.random() < .3: consistent(case, kind, o, ('failed',) + tuple(lab))

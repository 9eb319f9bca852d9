"""Lifetimes: weak references to every element, key, value, lazy function, argument and result, compared after a garbage
collection with what the collections that are still referenced contain (as read back from them)."""
import gc, weakref, itertools, copy, tracemalloc
from ..core import Violation, short
from ..ops import KINDS, NOTHING, Env
from ..family import PAIR, CTOR, KIND_OF, PERS, LAZY, FAM
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy, holdlazy
PROP = 'C21'
RULE = ('One case is a seeded history of a family of related collections (versions, transients, conversions, slices, lazies, held '
        'iterators and views) whose every element, key, value, lazy function, argument and result is weakly referenced; handles are '
        'dropped at random, and after garbage collections the objects alive are compared with the contents of the handles that '
        'remain; at the end everything is dropped and nothing may be alive.  One case in sixteen measures the memory of a collection '
        'after long churn at constant size.  Distinct are different (kind, operation, size, what was dropped).')
def plan(tier): return dict(cases=5000 if tier == 'quick' else 60000, deadline=300 if tier == 'quick' else 600)
MIN = {'evaluations': 6000, 'objects': 60000, 'freed': 60000, 'lazies': 3000, 'pending seen': 1000, 'ready seen': 500, 'churn': 100}
ASSUME = ['a garbage collection is run before the comparison; reference cycles are allowed to live until then']
BASES = ('plist', 'pset', 'pdict', 'llist', 'ldict')


class Tok:
    __slots__ = ('n', 'tag', 'h', 'ref', '__weakref__')
    def __init__(self, n, tag, h): self.n = n; self.tag = tag; self.h = h; self.ref = None
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or (isinstance(o, Tok) and self.tag == o.tag)
    def __lt__(self, o): return self.tag < o.tag if isinstance(o, Tok) else NotImplemented
    def __le__(self, o): return self.tag <= o.tag if isinstance(o, Tok) else NotImplemented
    def __gt__(self, o): return self.tag > o.tag if isinstance(o, Tok) else NotImplemented
    def __ge__(self, o): return self.tag >= o.tag if isinstance(o, Tok) else NotImplemented
    def __repr__(self): return f'T{self.n}'
    def __deepcopy__(self, memo): return self
class Failure(Exception): pass


class World:
    def __init__(self, rng, count):
        self.rng, self.count = rng, count
        self.alive = {}              # number -> weak reference
        self.what = {}
        self.serial = itertools.count()
        self.lazies = {}             # id(lazy) -> (numbers of function and arguments)
        self.tags = rng.choice((3, 8, 200, 10**6))
    def track(self, obj, what):
        n = next(self.serial); self.alive[n] = weakref.ref(obj); self.what[n] = what; self.count['objects'] += 1
        return n
    def tok(self, what='element'):
        tag = self.rng.randrange(self.tags)
        t = Tok(0, tag, tag % 5 if self.tags < 200 else tag * 7)
        t.n = self.track(t, what)
        return t
    def mklazy(self, x):
        """A lazy that gives x, or a fresh object, or a lazy that does, sometimes after failures."""
        rng = self.rng
        fails = rng.choice((0, 0, 0, 1, 2))
        world = weakref.ref(self)
        fresh = rng.random() < .3; nest = rng.random() < .15
        class Fn:
            __slots__ = ('left', '__weakref__')
            def __call__(self, a, b=None):
                w = world()
                if self.left:
                    self.left -= 1; e = Failure(a); w.track(e, 'exception of a failed lazy'); raise e
                r = w.tok('result of a lazy') if fresh else a
                return w.mklazy(r) if nest else r
        f = Fn(); f.left = fails
        nf = self.track(f, 'function of a lazy'); b = self.tok('argument of a lazy')
        l = lazy(f, x, b=b) if rng.random() < .7 else lazy(lambda *a: a[0](a[1], a[2]), f, x, b)
        self.lazies[id(l)] = (nf, x.n, b.n)
        self.count['lazies'] += 1
        if rng.random() < .15:
            for _ in range(fails + 1):
                try: l()
                except RuntimeError: pass
        return l
    def numbers(self, v, out):
        """Adds what a stored value legitimately keeps alive."""
        if type(v) is Tok:
            if v.n in out: return
            out.add(v.n)
            if v.ref is not None: self.content(v.ref, out)
        elif isinstance(v, lazy):
            if v.is_ready():
                self.count['ready seen'] += 1; self.numbers(v(), out)
            else:
                self.count['pending seen'] += 1; out.update(self.lazies[id(v)])
    def content(self, o, out):
        for v in raw(o): self.numbers(v, out)


def raw(o):
    k = KIND_OF.get(type(o))
    if k == 'llist': return list(o.as_plist())
    if k == 'ldict': return [x for kv in o.as_pdict().items() for x in kv]
    if k == 'tllist': return [o.getlazy(i) for i in range(len(o))]
    if k == 'tldict': return [x for key in o for x in (key, o.getlazy(key))]
    if FAM[k] == 'map': return [x for kv in o.items() for x in kv]
    return list(o)
def rawmodel(o):
    k = KIND_OF[type(o)]; r = raw(o)
    if FAM[k] == 'map': return dict(zip(r[::2], r[1::2]))
    return set(r) if FAM[k] == 'set' else r


class Story:
    def __init__(self, case, base):
        self.case, self.rng, self.base = case, case.rng, base
        self.w = World(case.rng, case.count)
        self.h = []                   # handles
        self.extra = []               # held iterators, views, keys: (object, numbers it may keep alive)
        self.env = Env(self.rng, self.w.tok, key=self.w.tok)
        self.lazies = base in LAZY

    def wrap(self, x):
        if type(x) is Tok and self.lazies and self.rng.random() < .6: return self.w.mklazy(x)
        return x

    def start(self):
        n = self.rng.choice((0, 1, 2, 4, 8, 16, 34, 40)); w = self.w; c = CTOR[self.base]
        if FAM[self.base] == 'map': src = [(w.tok('key'), self.wrap(w.tok('value'))) for _ in range(n)]
        else: src = [self.wrap(w.tok()) for _ in range(n)]
        self.h.append(c(src))
        if self.rng.random() < .3: self.h.append(PAIR[self.base](src))

    def pick(self): return self.rng.randrange(len(self.h))

    # each step returns a label without references to any tracked object
    def op(self):
        o = self.h[self.pick()]
        kind = KIND_OF[type(o)]
        fam, pers, ctor, edits, ew, reads, rw = KINDS[kind]
        env = self.env
        if self.rng.random() < .75: name = self.rng.choices(list(ew), list(ew.values()))[0]; gen = edits[name]
        else: name = self.rng.choices(list(rw), list(rw.values()))[0]; gen = reads[name]
        env.lazies = kind in LAZY
        env.wrap = self.wrap if env.lazies else (lambda x: x)
        env.cap = 40
        m = rawmodel(o)
        try: sf, _, lab = gen(env.at(o, m))
        finally: env.model = env.subject = None
        self.case.op(kind, lab[0])
        self.case.sig(kind, lab[0], min(len(m), 40))
        try: r = sf(o)
        except Exception: self.case.count['raised'] += 1; return
        if pers and isinstance(r, tuple) and len(r) == 2 and type(r[1]) in KIND_OF: self.h.append(r[1])
        elif type(r) in KIND_OF: self.h.append(r)

    def derive(self):
        o = self.h[self.pick()]; kind = KIND_OF[type(o)]; own, pair = CTOR[kind], PAIR[kind]
        c = [('ctor', lambda: own(o)), ('pair', lambda: pair(o)), ('copy', lambda: o.copy()), ('copy.copy', lambda: copy.copy(o)),
             ('deepcopy', lambda: copy.deepcopy(o)), ('iterate', lambda: [x for x in o] and None), ('hash', lambda: hash(o) and None),
             ('repr', lambda: repr(o) and None), ('str', lambda: str(o) and None), ('eq', lambda: o == self.h[0] and None),
             ('empty of it', lambda: type(o)())]
        if kind in PERS: c += [('transient', lambda: o.transient())] * 5
        else: c += [('persistent', lambda: o.persistent())] * 6
        if kind in LAZY:
            seq = FAM[kind] == 'seq'
            c += [('evaluated', (lambda: plist(o)) if seq else (lambda: pdict(o))), ('transient of lazies', (lambda: tlist(o)) if seq else (lambda: tdict(o))),
                  ('ready_all', lambda: getattr(o, 'ready_all', int)() and None), ('hold', lambda: holdlazy(o))]
        else:
            f = FAM[kind]
            if f == 'seq': c += [('llist', lambda: llist(o)), ('set', lambda: pset(o))]
            elif f == 'map': c += [('ldict', lambda: ldict(o)), ('set', lambda: pset(o)), ('values', lambda: plist(o.values()))]
            else: c += [('list', lambda: plist(o)), ('dict', lambda: pdict((x, x) for x in o))]
        name, f = self.rng.choice(c)
        self.case.op(kind, name); self.case.sig(kind, name, min(len(o), 40))
        try: r = f()
        except Exception: self.case.count['raised'] += 1; return
        if type(r) in KIND_OF: self.h.append(r)

    def hold(self):
        """A half consumed iterator, a view, or a set operation of views, which may keep what it was made from."""
        o = self.h[self.pick()]; kind = KIND_OF[type(o)]
        if kind in LAZY: return
        if kind not in PERS:                      # made and dropped again
            it = iter(o); next(it, None); return
        out = set(); self.w.content(o, out)
        c = [lambda: iter(o), lambda: it(iter(o)), lambda: {o: 1}]
        if FAM[kind] != 'set': c.append(lambda: it(reversed(o)))
        if FAM[kind] == 'map': c += [o.keys, o.values, o.items, lambda: it(iter(o.items())), lambda: o.keys() & o.keys()]
        def it(i): next(i, None); return i
        self.case.op(kind, 'hold')
        self.case.count['held'] += 1
        try: self.extra.append((self.rng.choice(c)(), out))
        except TypeError: pass

    def drop(self):
        rng = self.rng
        q = rng.random()
        if len(self.h) > 1 and (q < .5 or len(self.h) > 14):
            i = rng.randrange(len(self.h))
            self.case.op('drop', KIND_OF[type(self.h[i])], i); del self.h[i]
        elif q < .6 and self.h:
            rng.shuffle(self.h); keep = rng.randrange(1, len(self.h) + 1); self.case.op('drop all but', keep); del self.h[keep:]
        if self.extra and rng.random() < .5: del self.extra[rng.randrange(len(self.extra))]

    def cycle(self):
        o = self.h[self.pick()]
        if KIND_OF[type(o)] not in PERS: return
        x = next((x for x in raw(o) if type(x) is Tok), None)
        if x is not None: x.ref = o; self.case.op('cycle', KIND_OF[type(o)]); self.case.count['cycles'] += 1

    def check(self, final=False):
        w = self.w; c = self.case.count
        c['evaluations'] += 1
        allowed = set()
        for o in self.h: w.content(o, allowed)
        for _, out in self.extra: allowed |= out
        # objects reachable from a held object through a cycle that was tied later
        for n in list(allowed):
            t = w.alive[n]() if n in w.alive else None
            if type(t) is Tok and t.ref is not None: w.content(t.ref, allowed)
        t = None; o = None
        gc.collect()
        left = []
        for n, r in list(w.alive.items()):
            if r() is None: del w.alive[n]; c['freed'] += 1
            elif n not in allowed: left.append(n)
        if left:
            n = left[0]; x = w.alive[n]()
            refs = [short(r, 150) for r in gc.get_referrers(x) if r is not w and type(r).__name__ != 'frame'][:4]
            raise Violation(f'{self.base}:leak', f'{len(left)} object(s) are still alive that no collection which is still referenced contains '
                            f'(family of {self.base}); one is the former {w.what[n]} {short(x, 60)}' + (' after everything was dropped' if final else ''),
                            handles=[(KIND_OF[type(o)], short(raw(o), 300)) for o in self.h], referrers=refs)

    def run(self, steps):
        self.start()
        for i in range(steps):
            q = self.rng.random()
            if q < .58: self.op()
            elif q < .84: self.derive()
            elif q < .87: self.hold()
            elif q < .88: self.cycle()
            else: self.drop()
            if len(self.h) > 18: self.drop()
            if self.rng.random() < .1: self.check()
            self.h = [o for o in self.h if len(o) < 250]
            if not self.h: self.start()
        self.check()
        self.h.clear(); self.extra.clear()
        self.check(final=True)


# ------------------------------------------------------------------ memory after churn at constant size
def churn_op(kind, t, rng, i, n):
    if kind in ('tlist', 'tllist'):
        q = i % 4
        if q == 0: t.append(i); del t[0]
        elif q == 1: t.prepend(i); t.pop()
        elif q == 2: t[i % n] = i
        else: t.pop(i % n); t.insert(i % n, i)
    elif kind == 'tset':
        t.add(('x', i)); t.discard(('x', i))
        t.discard(i % n); t.add(i % n)
    else:
        t['x', i] = i; del t['x', i]
        t.pop(i % n); t[i % n] = i
        t[(i * 7) % n] = -i
def churned(kind, n, rounds, rng):
    P = CTOR[kind]
    own = P(range(n)) if FAM[kind] != 'map' else P((i, i) for i in range(n))
    t = own.transient() if kind in PERS else own
    tk = KIND_OF[type(t)]
    for i in range(rounds):
        churn_op(tk, t, rng, i, n)
        if kind in PERS and i % 5 == 0: t = t.persistent().transient()
    return t.persistent() if kind in PERS else t
def churn(case):
    rng = case.rng; kind = rng.choice(list(CTOR)); n = rng.choice((3, 20, 60)); drift = rng.choice((1, 2))
    case.op('churn', kind, n); case.sig('churn', kind, n)
    churned(kind, n, 200, rng)
    sizes = []
    for rounds in (200, 1500 * drift):
        gc.collect(); tracemalloc.start()
        try:
            x = churned(kind, n, rounds, rng); gc.collect()
            sizes.append(tracemalloc.get_traced_memory()[0])
            del x
        finally: tracemalloc.stop()
    case.count['churn'] += 1; case.count['evaluations'] += 1
    case.count['max churn bytes'] = max(case.count['max churn bytes'], sizes[1])
    if case.sample is None: case.sample = dict(churn=kind, n=n, bytes=sizes)
    if sizes[1] > 2 * sizes[0] + 8192:
        raise Violation(f'{kind}:churn', f'a {kind} of constant size {n} occupies {sizes[0]} bytes after 200 rounds of edits and {sizes[1]} after {1500 * drift}')


FROZEN = False
def run_case(case):
    global FROZEN
    if not FROZEN: gc.collect(); gc.freeze(); FROZEN = True
    gc.disable()
    try:
        if case.index % 16 == 5: return churn(case)
        base = BASES[case.index % 5]
        s = Story(case, base)
        s.run(case.rng.choice((15, 40, 80)))
        if case.sample is None: case.sample = dict(base=base, objects=case.count['objects'], log=[' '.join(map(str, e)) for e in case.log[-12:]])
    finally: gc.enable()

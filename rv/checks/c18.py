"""Fault injection: the k-th call into user code during an operation raises, for every k; invalid arguments too."""
import random, re
from ..core import Violation, short, WATCH
from ..family import *
from ..engine import Differ, content, mcontent, same
from .. import ops, values
from ..ops import Items, SetContent, POPPED
from ..pools import build, SEQS, SETS, MAPS, PERSISTENT, CT
from .c17 import consistent
from .. import paired
PROP = 'C18'
RULE = ('One case reaches a state of one of the ten types by a seeded history, chooses an operation, counts the calls it makes into '
        'user code (__eq__, __hash__, __lt__, __repr__ of elements, sort keys, items of iterables, mapping arguments, lazy functions), and '
        'repeats state and operation with an exception at the k-th call, for every k up to 10 and sampled k beyond; every third case instead '
        'gives one poisoned element, iterator, mapping, index or key function to the collection and to the builtin and compares exception and '
        'remaining content.  Distinct are '
        'different (type, operation, k, call kind, exception class, size).')
def plan(tier): return dict(cases=80000 if tier == 'quick' else 1200000, deadline=300 if tier == 'quick' else 600)


class Boom(Exception): pass
class BoomKey(KeyError): pass
class BoomIndex(IndexError): pass
class BoomAttr(AttributeError): pass
class BoomValue(ValueError): pass
class BoomType(TypeError): pass
class BoomBase(BaseException): pass
EXCS = (Boom,) * 6 + (BoomKey, BoomIndex, BoomAttr, BoomValue, BoomType, BoomBase, BoomBase)
PROPAGATES = (Boom, BoomBase)


class Fault:
    on = False; n = 0; at = None; exc = None; hit = None
    def arm(self, at, exc): self.on = True; self.n = 0; self.at = at; self.exc = exc; self.hit = None
    def disarm(self): self.on = False
    def tick(self, what):
        if not self.on: return
        i = self.n; self.n += 1
        if i == self.at: self.hit = what; self.on = False; raise self.exc('injected', what, i)
FAULT = Fault()


class F:
    """Element whose every special method is a fault point."""
    __slots__ = ('tag', 'h', '__weakref__')
    def __init__(self, tag, h): self.tag = tag; self.h = h
    def __hash__(self): FAULT.tick('hash'); return self.h
    def __eq__(self, o):
        FAULT.tick('eq')
        return self.tag == o.tag if isinstance(o, F) else NotImplemented
    def __lt__(self, o): FAULT.tick('lt'); return self.tag < o.tag if isinstance(o, F) else NotImplemented
    def __gt__(self, o): FAULT.tick('lt'); return self.tag > o.tag if isinstance(o, F) else NotImplemented
    def __repr__(self): FAULT.tick('repr'); return f'F({self.tag},{self.h})'
class U:
    """Unhashable."""
    __hash__ = None
    def __repr__(self): return 'U()'
FS = [F(t, t % 3) for t in range(9)] + [F(20 + t, 77) for t in range(4)]
TWINS = [F(f.tag, f.h) for f in FS]                     # equal to FS, but different objects
UNI = FS + TWINS + [1, 'x', None]
UH = U()


# ------------------------------------------------------------------ arguments with fault points (patched into the op tables)
ARGS = []                                               # collections given as arguments, with their content
class FIter:
    def __init__(self, xs): self.xs = list(xs)
    def __iter__(self):
        FAULT.tick('iter')
        for x in self.xs:
            FAULT.tick('item'); yield x
        FAULT.tick('item')
class FGet:
    def __init__(self, xs): self.xs = list(xs)
    def __getitem__(self, i):
        if FAULT.exc is not BoomIndex: FAULT.tick('item')          # IndexError ends this kind of iteration
        return self.xs[i]
class FMap:
    def __init__(self, kv): self.d = list(dict(kv).items())
    def keys(self):
        FAULT.tick('keys')
        return iter(FIter([k for k, _ in self.d]))
    def __getitem__(self, k):
        FAULT.tick('mapget')
        for a, b in self.d:
            if a is k: return b
        raise KeyError(k)
def note(x):
    k = KIND_OF.get(type(x))
    if k: ARGS.append((x, FAM[k], snap(FAM[k], x)))
    return x
_shapes, _mkset, _marg = ops.iterable_shapes, ops.mkset, ops.mapping_arg
def shapes(rng, xs, hashable=False):
    q = rng.random()
    if q < .5: return FIter(xs), list(xs), 'fiter'
    if q < .6: return FGet(xs), list(xs), 'fget'
    a, b, s = _shapes(rng, xs)
    return note(a), b, s
def mkset(kind, xs): return note(_mkset(kind, xs))
def mapping_arg(env, hi=6):
    a, pairs, lab = _marg(env, hi)
    q = env.rng.random()
    if q < .3 and lab[0] in ('dict', 'pairs', 'lists', 'tuples'):
        kv = list(a.items()) if lab[0] == 'dict' else [tuple(p) for p in a]
        return FIter(kv), pairs, ('fiter', pairs)
    if q < .6 and lab[0] == 'dict': return FMap(a), pairs, ('fmap', pairs)
    return note(a), pairs, lab
def fkeys(env):
    r = env.rng
    def key(x): FAULT.tick('key'); return 0 if not isinstance(x, F) else x.tag
    def cmpkey(x): FAULT.tick('key'); return x if isinstance(x, F) else FS[0]
    return r.choice((None, key, key, cmpkey)), r.random() < .4
def patched(on):
    ops.iterable_shapes, ops.mkset, ops.mapping_arg = (shapes, mkset, mapping_arg) if on else (_shapes, _mkset, _marg)
    ops._keys = fkeys if on else _fk
_fk = ops._keys


def fwrap(rng):
    def wrap(x):
        q = rng.random()
        if q > .75: return x
        def f(): FAULT.tick('lazy'); return x
        l = lazy(f)
        if q < .2: l()
        return l
    return wrap


BATCH = {'extend', 'extend_self', 'iadd', 'iadd_self', 'imul', 'addall', 'discardall', 'removeall', 'update', 'update_self',
         'intersection_update', 'difference_update', 'symmetric_difference_update', '|=', '&=', '-=', '^=', 'insert?'}
def is_batch(name): return name in BATCH or name.endswith('_self') or name.endswith('=self')


def extra_reads(kind, env):
    """Reads that call user code and are not in the tables."""
    r = env.rng; fam = FAM[kind]
    if fam == 'map': kv = [(env.key(), env.elem()) for _ in range(r.randrange(4))]; other = dict(kv)
    else: other = [env.key() for _ in range(r.randrange(4))]
    if r.random() < .5: other = list(env.model.items()) if fam == 'map' else list(env.model)
    o2 = note(build(r.choice({'seq': SEQS, 'set': SETS, 'map': MAPS}[fam]), list(dict(other).items()) if fam == 'map' else other,
                    r, wrap=env.wrap if kind in LAZY else None))
    return [('hash', hash), ('repr', repr), ('str', str), ('==', lambda o: o == o2), ('!=', lambda o: o != o2), ('r==', lambda o: o2 == o),
            ('<', lambda o: o < o2), ('>=', lambda o: o >= o2), ('convert', lambda o: type(o2)(o)), ('sorted', lambda o: sorted(o)),
            ('list', list), ('hash o2', lambda o: hash(o2)), ('copy', lambda o: o.copy())]


def run_case(case):
    rng = case.rng; c = case.count
    if case.index % 3 == 2: return paired.run(case, EXCS)
    kind = list(CT)[case.index // 3 % 10]
    fam, pers, ctor, edits, ew, reads, rw = KINDS[kind]
    hseed, oseed = rng.random(), rng.random()
    n0 = rng.choice((0, 1, 2, 3, 5, 8, 12)); nsteps = rng.randrange(0, 5)
    mode = rng.choice(('edit', 'edit', 'edit', 'read', 'extra', 'invalid'))
    name = rng.choices(list(ew), list(ew.values()))[0] if mode in ('edit', 'invalid') else rng.choices(list(rw), list(rw.values()))[0]
    en, ewt = list(ew), list(ew.values())

    def reach():
        """The same state, reached by the same history; (object, model, earlier versions)"""
        r = random.Random(hseed)
        wrap = fwrap(r) if kind in LAZY else None
        env = Env(r, lambda: r.choice(UNI), wrap=wrap)
        env.lazies = kind in LAZY; env.cap = 20
        xs = [env.elem() for _ in range(n0)]
        patched(False)
        if fam == 'map':
            kv = list({k: env.elem() for k in xs}.items()); o = build(kind, kv, r, wrap=wrap, junk=lambda: r.randrange(1000, 1100)); m = dict(kv)
        elif fam == 'set': xs = list(dict.fromkeys(xs)); o = build(kind, xs, r); m = set(xs)
        else: o = build(kind, xs, r, wrap=wrap); m = list(xs)
        old = []
        for _ in range(nsteps):
            sf, mf, lab = edits[r.choices(en, ewt)[0]](env.at(o, m))
            if lab[0] in ('pop', 'popitem') and fam != 'seq' : continue          # the choice of the popped element is free
            m2 = type(m)(m)
            mr, me = attempt(mf, m2); sr, se = attempt(sf, o)
            if (se is None) != (me is None): return None
            if se is not None: continue
            if pers:
                if isinstance(sr[1], FOREIGN) or type(sr[1]) is not type(o) or len(sr[1]) > 40: continue
                old.append(o); o, m = sr[1], mr[1]
            else: m = m2
        r2 = random.Random(oseed)
        del ARGS[:]
        env2 = Env(r2, lambda: r2.choice(UNI), wrap=fwrap(r2) if kind in LAZY else None)
        if mode == 'invalid':
            env2.key = env2.elem = lambda: r2.choice(UNI) if r2.random() < .6 else UH
        env2.lazies = kind in LAZY; env2.cap = 20
        env2.at(o, m)
        patched(True)
        try:
            if mode == 'extra': lab, f = r2.choice(extra_reads(kind, env2)); op = (f, None, (lab,))
            else: op = (edits if mode in ('edit', 'invalid') else reads)[name](env2)
        except TypeError:                  # an argument with an unhashable element cannot even be built
            op = None
        finally: patched(False)
        return o, m, old[-3:], op, list(ARGS)

    first = reach()
    if first is None or first[3] is None: c['skipped'] += 1; return
    o, m, old, (sf, mf, lab), args = first
    case.op('state', kind, short(m, 120)); case.op(mode, *lab)
    # counting run, no exception injected
    FAULT.arm(-1, Boom)
    try:
        _, e0 = attempt(sf, o)
    finally: FAULT.disarm()
    calls = FAULT.n
    c['calls counted'] += calls
    if e0 is not None: judge(case, kind, fam, pers, reach, first, e0, None, Boom, lab, 'invalid', mode)
    ks = list(range(calls)) if calls <= 10 else sorted(rng.sample(range(calls), 10))
    for k in ks:
        exc = rng.choice(EXCS)
        st = reach()
        o, m, old, (sf, mf, lab), args = st
        FAULT.arm(k, exc); WATCH.op()
        try:
            r = sf(o); e = None
        except (Exception, BoomBase) as x: e = x
        finally: FAULT.disarm()
        if FAULT.hit is None: c['not reached'] += 1; continue
        judge(case, kind, fam, pers, reach, st, e, k, exc, lab, FAULT.hit, mode)
    if case.sample is None and calls: case.sample = dict(kind=kind, state=short(m, 80), op=short(lab, 100), calls=calls)


def injected(e, exc):
    seen = 0
    while e is not None and seen < 6:
        if type(e) is exc: return True
        e = e.__cause__ or e.__context__; seen += 1
    return False


def judge(case, kind, fam, pers, reach, st, e, k, exc, lab, hit, mode):
    o, m, old, (sf, mf, _), args = st
    c = case.count; rng = case.rng
    name = lab[0]
    tag = f'{kind}.{name}:{hit}'
    c['evaluations'] += 1; c['fault:' + str(hit)] += 1
    case.op('fault', name, k, hit, exc.__name__)
    case.sig(kind, name, k, hit, exc.__name__, len(m))
    if k is not None and e is None:
        c['swallowed'] += 1
        if exc in PROPAGATES:
            raise Violation(tag + ':swallowed', f'{short(lab)} on a {kind} completes although the {hit} it called raised', model=m)
    if k is not None and e is not None and (exc in PROPAGATES or hit == 'lazy') and not injected(e, exc):
        raise Violation(tag + ':replaced', f'{short(lab)} on a {kind} raises {e!r}, not the exception raised by the {hit}', model=m)
    if type(exc) is not type(None) and e is not None: e.__traceback__ = None
    for a, f, s in args:
        if not snap_same(snap(f, a), s):
            raise Violation(tag + ':argument', f'failed {short(lab)} on a {kind} changed its argument', argument=s, now=snap(f, a))
        c['arguments'] += 1
    twin = reach(); to, tm, told = twin[0], twin[1], twin[2]
    for a, b in zip(old, told):
        compare(tag + ':older', f'an older version of the {kind} after failed {short(lab)}', fam, a, b)
    got = snap(fam, o)
    before = list(m.items()) if fam == 'map' else list(m)
    if pers or not is_batch(name) or mode in ('read', 'extra'):
        if e is None and not pers:            # completed although a fault was injected: only consistency can be judged
            consistent(case, kind, o, ('after',) + tuple(lab)); return
        compare(tag, f'the {kind} after failed {short(lab)}', fam, o, to)
        c['unchanged'] += 1
    else:
        partial(case, kind, fam, o, m, mf, lab, tag, got, before)
        consistent(case, kind, o, ('failed',) + tuple(lab))
        c['partial'] += 1
    # still usable: repeat the operation on it without fault, and a few more edits
    if mf is not None and mode != 'invalid' and (pers or not is_batch(name)) and name not in ('pop', 'popitem') and k is not None and e is not None:
        sf2 = twin[3][0]; mf2 = twin[3][1]
        mm = type(m)(m)
        mr, me = attempt(mf2, mm); sr, se = attempt(sf2, o)
        if (me is None) != (se is None):
            raise Violation(tag + ':retry', f'{short(lab)} repeated after a failure gives {se!r}, the builtin {me!r}', model=m)
        if me is None:
            c['retries'] += 1
            if mode == 'read':
                if not same(sr, mr): raise Violation(tag + ':retry', f'{short(lab)} repeated after a failure has the wrong result', got=sr, want=mr, before=m)
                return
            if pers:
                s2 = sr[1].obj if isinstance(sr[1], FOREIGN) else sr[1]; want = mr[1]
                if isinstance(sr[1], FOREIGN): return
            else: s2, want = o, mm
            w = mcontent(fam, want)
            if not same(content(fam, s2), w):
                raise Violation(tag + ':retry', f'{short(lab)} repeated after a failure has the wrong result', got=content(fam, s2), want=w, before=m)
    if not pers and rng.random() < .4:
        d = Differ.__new__(Differ); d.case, d.kind, d.lazies, d.rng = case, kind, kind in LAZY, rng
        (d.fam, d.pers, d.ctor, d.edits, d.ew, d.reads, d.rw) = KINDS[kind]
        d.uni = 'F'; d.env = Env(rng, lambda: rng.choice(UNI), wrap=fwrap(rng) if kind in LAZY else None)
        d.env.lazies = kind in LAZY
        d.en, d.ewt = list(d.ew), list(d.ew.values()); d.rn, d.rwt = list(d.rw), list(d.rw.values())
        cur = snap(fam, o); model = dict(cur) if fam == 'map' else set(cur) if fam == 'set' else list(cur)
        for _ in range(3):
            o, model = d.step_transient(o, model)
            c['edits after failure'] += 1


def twinsame(a, b):
    """The same, where the twin has lazies of its own: they count by whether they are ready and give the same."""
    if isinstance(a, lazy): return isinstance(b, lazy) and a.is_ready() == b.is_ready() and attempt(a)[0] is attempt(b)[0]
    if type(a) is type(b) and type(a) in (list, tuple): return len(a) == len(b) and all(map(twinsame, a, b))
    return osame(a, b)
def compare(tag, what, fam, a, b):
    x, y = observe(fam, a), observe(fam, b)
    for (l, u), (_, v) in zip(x, y):
        if isinstance(u, str): u = re.sub(r'lazy\(<\d+>', 'lazy(<>', u)          # addresses
        if isinstance(v, str): v = re.sub(r'lazy\(<\d+>', 'lazy(<>', v)
        if not twinsame(u, v):
            raise Violation(f'{tag}:{l.split()[0]}', f'{what} is not as before: {l}', before=v, after=u)
    if len(x) != len(y): raise Violation(f'{tag}:size', f'{what} is not as before', before=y, after=x)


def eqm(a, b): return a is b or a == b
def partial(case, kind, fam, o, m, mf, lab, tag, got, before):
    """A transient after a failed batch operation: some leading steps took effect, nothing else."""
    if isinstance(got, Exception): raise Violation(tag + ':broken', f'the {kind} cannot be read after failed {short(lab)}: {got!r}', before=m)
    after = type(m)(m); mr, me = attempt(mf, after)
    if fam == 'seq':
        full = list(after) if me is None else None
        ok = idprefix(before, got)
        if ok and full is not None: ok = idprefix(got, full) or lab[0] == 'imul'
        if ok and full is None and lab[0] not in ('extend', 'iadd'): ok = len(got) == len(before)
        if not ok and lab[0] == 'imul': ok = got == [] or got == full
        if not ok:
            raise Violation(tag + ':partial', f'the {kind} after failed {short(lab)} holds something no leading steps explain', before=before, got=got, complete=full)
        return
    if fam == 'set':
        A = set(m); B = after if me is None else None
        for x in got:
            if x not in A and (B is None or x not in B):
                if not (me is not None and x in flat(lab)):
                    raise Violation(tag + ':partial', f'the {kind} after failed {short(lab)} holds {short(x)}', before=before, got=got)
        G = set(got)
        if len(G) != len(got): raise Violation(tag + ':partial', f'the {kind} after failed {short(lab)} holds an element twice', before=before, got=got)
        for x in A:
            if x not in G and (x in B if B is not None else x not in flat(lab) if lab[0] != 'intersection_update' else
                               all(x in flat((0, a)) for a in lab[1])):
                raise Violation(tag + ':partial', f'the {kind} lost {short(x)} in failed {short(lab)}', before=before, got=got)
        return
    # mappings: leading steps of update
    steps = []
    for a in lab[1] if lab[0] == 'update' else (): steps += a[1]
    if lab[0] == 'update': steps += list(lab[2].items())
    states = [dict(m)]
    for k, v in steps:
        d = dict(states[-1])
        try: d[k] = v
        except TypeError: break
        states.append(d)
    for s in states:
        if Items(got) == Items(s.items()): return
    raise Violation(tag + ':partial', f'the {kind} after failed {short(lab)} holds something no leading steps explain', before=before, got=got, steps=steps)


def flat(x):
    out = set()
    def go(y):
        if isinstance(y, (list, tuple)):
            for z in y: go(z)
        else:
            try: out.add(y)
            except TypeError: pass
    go(x[1:]); return out
def idprefix(a, b): return len(a) <= len(b) and all(x is y for x, y in zip(a, b))
MIN = {'evaluations': 100000, 'fault:eq': 8000, 'fault:hash': 6000, 'fault:lt': 1000, 'fault:item': 2000, 'fault:invalid': 1600, 'fault:lazy': 1000,
       'partial': 5000, 'retries': 9000, 'fault:key': 300, 'unchanged': 24000, 'paired': 80000, 'paired both': 20000, 'paired exact': 4000}
ASSUME = ['user code fails by raising; user code that edits the collection it is called from is not covered']

"""Collections whose values are the objects an implementation may be tempted to use as its own markers: the collection itself,
its class, its methods, an earlier version, the default given to the same call, exceptions and their classes, and the usual
singletons.  The model holds the same objects; only the collection itself is a stand-in there.  Equality is never asked for."""
import collections, inspect
from .core import Violation, short
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
import pcollections, pcollections.abc as pabc, pcollections.util as putil
SELF = type('SELF', (), {'__repr__': lambda s: 'SELF'})()
OBJ = object()
class Raising:
    """Cannot be compared, has no truth value and no length."""
    def __eq__(self, o): raise AssertionError('compared')
    def __bool__(self): raise AssertionError('truth value')
    def __len__(self): raise AssertionError('length')
    __hash__ = None
ODD = [None, Ellipsis, NotImplemented, OBJ, object, KeyError, KeyError('x'), IndexError(0), StopIteration, StopIteration(1), inspect.Parameter.empty,
       (), plist(), pset(), pdict(), ldict(), llist(), plist, tlist, pset, pdict, tdict, ldict, tldict, lazy, Raising(), Raising(), 0, False, '',
       getattr(plist, 'empty', None), getattr(pdict, 'empty', None), float('nan'), putil, pabc, type, super, dict, list, dict.get, {}.items(), pcollections]


def tr(x, o):
    if x is SELF: return o
    if isinstance(x, tuple): return tuple(tr(y, o) for y in x) if any(y is SELF for y in x) else x
    return x
def call(f):
    try: return f(), None
    except Exception as e: return None, e
def same(a, b): return a is b or (type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(map(same, a, b)))
def show(xs): return [type(x).__name__ for x in xs]


def maps(case, kind, C, pers, lazies=False):
    rng = case.rng
    vals = lambda o: rng.choice(ODD) if rng.random() < .55 else SELF if rng.random() < .6 else rng.choice([type(o), o.get, OLD[0] if OLD[0] is not o else None, KEYS])
    KEYS = ['a', 'b', 0, (), None, Ellipsis, NotImplemented, KeyError, object, type, C, SELF if pers else 'self']
    o = C(); m = {}; OLD = [o]
    keymap = {}
    def wrap(x):
        if lazies and rng.random() < .6: return lazy(lambda: x)
        return x
    for _ in range(rng.randrange(4, 16)):
        k = rng.choice(KEYS); sk = OLD[0] if k is SELF else k       # as a key: an earlier version (the empty one)
        q = rng.randrange(9); d = vals(o); v = vals(o)
        if pers and v is SELF: v = OLD[0]
        if pers and d is SELF: d = o
        sv, sd = tr(v, o), tr(d, o)
        name = ('set', 'set', 'get', 'getd', 'pop', 'popd', 'setdefault', 'popitem', 'contains')[q]
        case.op(kind, name, show([k, v, d])); case.sig(kind, 'odd', name, k in m, type(sv).__name__); case.count['odd:' + name] += 1; case.count['evaluations'] += 1
        new = o; before = list(m.items())
        if name == 'set':
            if pers: new = o.set(sk, wrap(sv))
            else: o[sk] = wrap(sv)
            m[k] = v
            g = w = (None, None)
        elif name == 'get': g, w = call(lambda: o.get(sk)), call(lambda: m.get(k))
        elif name == 'getd': g, w = call(lambda: o.get(sk, sd)), call(lambda: m.get(k, d))
        elif name == 'contains': g, w = call(lambda: sk in o), call(lambda: k in m)
        elif name == 'pop': g, w = call(lambda: o.pop(sk)), call(lambda: m.pop(k))
        elif name == 'popd': g, w = call(lambda: o.pop(sk, sd)), call(lambda: m.pop(k, d))
        elif name == 'setdefault': g, w = call(lambda: o.setdefault(sk, sd)), call(lambda: m.setdefault(k, d))
        else:
            g = call(lambda: o.popitem())
            if g[1] is None:
                kv = g[0][0] if pers else g[0]
                if type(kv) is not tuple or len(kv) != 2: raise Violation(f'{kind}:odd:{name}', f'popitem of a {kind} gave no pair', got=short(type(kv)))
                kk = next((x for x in m if (OLD[0] if x is SELF else x) is kv[0]), m)
                if kk is m: raise Violation(f'{kind}:odd:{name}', f'popitem of a {kind} gave a key that was not there', got=show(kv), model=show(m))
                w = (kk if kk is not SELF else OLD[0], m.pop(kk)), None
            else: w = call(lambda: m.popitem())
        if pers and name == 'setdefault' and g[1] is None: new, g, w = g[0], (None, None), (None, None)
        if pers and name in ('pop', 'popd', 'popitem') and g[1] is None:
            if type(g[0]) is not tuple or len(g[0]) != 2 or type(g[0][1]) is not type(o): raise Violation(f'{kind}:odd:{name}', f'{name} of a {kind} gave no (value, {kind}) pair')
            g, new = (g[0][0], None), g[0][1]
        if (g[1] is None) is not (w[1] is None) or (w[1] is not None and not isinstance(g[1], type(w[1]))):
            raise Violation(f'{kind}:odd:{name}', f'{name} of a {kind} that holds odd values: {g[1]!r} instead of {w[1]!r}', k=show([k]), default=show([d]), model=[show(x) for x in before])
        if w[1] is None and not same(g[0], tr(w[0], o)):
            raise Violation(f'{kind}:odd:{name}', f'{name} of a {kind} that holds odd values gave another object than a dict', k=show([k]), default=show([d]),
                            model=[show(x) for x in before], got=short(type(g[0])), want=short(type(w[0])))
        o = new
        got = [(x, o[x]) for x in o]; want = {id(OLD[0] if x is SELF else x): tr(y, o) for x, y in m.items()}
        if len(got) != len(m) or len(o) != len(m) or any(id(x) not in want or want[id(x)] is not y for x, y in got):
            raise Violation(f'{kind}:odd:{name}', f'after {name} a {kind} that holds odd values holds something else than a dict', k=show([k]),
                            got=[show(x) for x in got], model=[show(x) for x in m.items()])
        vs = [x for x in o.values()] if rng.random() < .5 else [y for _, y in o.items()]
        if len(vs) != len(got) or any(x is not y for x, (_, y) in zip(vs, got)): raise Violation(f'{kind}:odd:views', f'the views of a {kind} that holds odd values show other objects')


def seqs(case, kind, C, pers, lazies=False):
    rng = case.rng
    o = C(); m = []; old = o
    def wrap(x): return lazy(lambda: x) if lazies and rng.random() < .6 else x
    for _ in range(rng.randrange(4, 16)):
        n = len(m); i = rng.randrange(-n - 1, n + 1) if rng.random() < .8 else rng.randrange(-n - 2, n + 2)
        v = rng.choice(ODD) if rng.random() < .5 else SELF if rng.random() < .6 and not pers else rng.choice([type(o), o.append, o if pers else old])
        sv = tr(v, o); new = o; before = list(m)
        name = rng.choice(('append', 'append', 'append', 'prepend', 'insert', 'pop', 'popi', 'set', 'delete', 'get', 'extend'))
        case.op(kind, name, i, show([v])); case.sig(kind, 'odd', name, i, n, type(sv).__name__); case.count['odd:' + name] += 1; case.count['evaluations'] += 1
        E = lambda f: call(f)
        if name == 'append': w = E(lambda: m.append(v)); g = E(lambda: o.append(wrap(sv)))
        elif name == 'prepend': w = E(lambda: m.insert(0, v)); g = E(lambda: o.prepend(wrap(sv)))
        elif name == 'insert': w = E(lambda: m.insert(i, v)); g = E(lambda: o.insert(i, wrap(sv)))
        elif name == 'extend': w = E(lambda: m.extend([v, v])); g = E(lambda: o.extend([wrap(sv), wrap(sv)]))
        elif name == 'set': w = E(lambda: m.__setitem__(i, v)); g = E(lambda: o.set(i, wrap(sv)) if pers else o.__setitem__(i, wrap(sv)))
        elif name == 'delete': w = E(lambda: m.__delitem__(i)); g = E(lambda: o.delete(i) if pers else o.__delitem__(i))
        elif name == 'pop': w = E(lambda: m.pop()); g = E(lambda: o.pop())
        elif name == 'popi': w = E(lambda: m.pop(i)); g = E(lambda: o.pop(i))
        else: w = E(lambda: m[i]); g = E(lambda: o[i])
        if (g[1] is None) is not (w[1] is None) or (w[1] is not None and not isinstance(g[1], type(w[1]))):
            raise Violation(f'{kind}:odd:{name}', f'{name} of a {kind} that holds odd elements: {g[1]!r} instead of {w[1]!r}', index=i, model=show(before))
        if g[1] is None:
            if name in ('pop', 'popi'):
                got = g[0]
                if pers: got, new = got
                if got is not tr(w[0], o): raise Violation(f'{kind}:odd:{name}', f'{name} of a {kind} that holds odd elements gave another object', index=i, model=show(before))
            elif name == 'get':
                if g[0] is not tr(w[0], o): raise Violation(f'{kind}:odd:{name}', f'reading a {kind} that holds odd elements gave another object', index=i, model=show(before))
            elif pers: new = g[0]
        o = new
        for how, got in (('iteration', list(o)), ('indices', [o[j] for j in range(len(o))]), ('reversed', list(reversed(o))[::-1])):
            if len(got) != len(m) or any(x is not tr(y, o) for x, y in zip(got, m)):
                raise Violation(f'{kind}:odd:{name}', f'after {name} a {kind} holds other elements than a list ({how})', index=i, got=show(got), model=show(m))
        if m:
            x = rng.choice(m); sx = tr(x, o)
            j = next(j for j, y in enumerate(m) if tr(y, o) is sx)
            if not any(isinstance(y, Raising) or y is SELF or type(y) in (C, plist, pset, pdict, ldict, llist, float, int, bool, tlist, tllist) for y in m + [x]):
                if sx not in o: raise Violation(f'{kind}:odd:in', f'an element of a {kind} is not in it', x=show([x]))
                if rng.random() < .5 and o.index(sx) > j: raise Violation(f'{kind}:odd:index', f'index of a {kind} is past the element itself', x=show([x]))


def run(case, kind, C=None, fam=None, pers=None):
    if C is None:
        C = dict(plist=plist, tlist=tlist, llist=llist, tllist=tllist, pdict=pdict, tdict=tdict, ldict=ldict, tldict=tldict)[kind]
        fam = 'seq' if 'list' in kind else 'map'; pers = kind[0] != 't'
    (seqs if fam == 'seq' else maps)(case, kind, C, pers, kind in ('llist', 'ldict', 'tllist', 'tldict'))

"""All read paths of one object describe the same content; views; iterators interleaved with edits."""
import itertools, operator
from ..core import Violation, short
from ..family import *
from ..engine import churned, Differ
from ..pools import build, SEQS, SETS, MAPS, PERSISTENT, CT, LARGE
PROP = 'C17'
BUSY = 2
RULE = ('One case is a history of one of the ten types (any universe, any start); after every step all read paths of the object '
        '(iteration twice, reversed, len, indexing, slices, index, count, membership, get, views, set operations of views) are '
        'compared with one another, views taken at the start are re-read, and iterators of every kind are interleaved with an edit '
        'at a random point.  Distinct are different (type, last operation, size) and (iterator, edit, position).')
def plan(tier): return dict(cases=25000 if tier == 'quick' else 150000, deadline=300 if tier == 'quick' else 600)
KINDS_ALL = list(CT)


class Chk:
    def __init__(self, case, kind, o, lab):
        self.case, self.kind, self.o, self.lab = case, kind, o, lab
    def ok(self, path, cond, *info):
        self.case.count['evaluations'] += 1; self.case.count['path:' + path] += 1
        if not cond:
            raise Violation(f'{self.kind}:{path}', f'{path} of a {self.kind} disagrees with its iteration (after {short(self.lab)})',
                            iteration=self.base, info=info)
    def val(self, path, f):
        try: return f()
        except Exception as e:
            raise Violation(f'{self.kind}:{path}:raises', f'{path} of a {self.kind} raised {e!r} (after {short(self.lab)})',
                            iteration=getattr(self, 'base', None))
    def raises(self, path, exc, f):
        try: r = f()
        except exc: self.ok(path, True); return
        except Exception as e: self.ok(path, False, repr(e)); return
        self.ok(path, False, 'returned', r)


def idlist(a, b): return len(a) == len(b) and all(map(operator.is_, a, b))
def ieq(a, b): return a is b or a == b
class Absent:
    def __init__(self, h): self.h = h
    def __hash__(self): return self.h
    def __lt__(self, o): return NotImplemented


def consistent(case, kind, o, lab):
    rng = case.rng
    K = Chk(case, kind, o, lab)
    base = K.base = K.val('iteration', lambda: list(iter(o)))
    n = len(base)
    K.ok('iterating twice', idlist(base, K.val('iteration', lambda: list(o))))
    K.ok('len', K.val('len', lambda: len(o)) == n)
    K.ok('bool', bool(o) is (n > 0))
    if kind in SEQS:
        idx = range(n) if n <= 40 else [0, 1, 31, 32, 33, n - 1, n // 2, rng.randrange(n), rng.randrange(n)]
        for i in idx:
            K.ok('indexing', K.val('indexing', lambda: o[i]) is base[i], i)
            K.ok('negative indexing', K.val('indexing', lambda: o[i - n]) is base[i], i)
        K.raises('index out of range', IndexError, lambda: o[n]); K.raises('index out of range', IndexError, lambda: o[-n - 1])
        K.ok('reversed', idlist(K.val('reversed', lambda: list(reversed(o))), base[::-1]))
        a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
        K.ok('slice', idlist(K.val('slice', lambda: list(o[a:b])), base[a:b]), a, b)
        K.ok('slice', idlist(K.val('slice', lambda: list(o[:])), base))
        for x in rng.sample(base, min(n, 4)):
            K.ok('in', K.val('in', lambda: x in o), x)
            j = K.val('index', lambda: o.index(x))
            K.ok('index', 0 <= j < n and ieq(base[j], x) and not any(ieq(y, x) for y in base[:j]), x, j)
            K.ok('count', K.val('count', lambda: o.count(x)) == sum(1 for y in base if ieq(y, x)), x)
        K.ok('in absent', K.val('in', lambda: Absent(0) in o) is False)
        K.raises('index absent', ValueError, lambda: o.index(Absent(0)))
        return base
    for x in (base if n <= 40 else rng.sample(base, 30)):
        K.ok('in', K.val('in', lambda: x in o), x)
    ab = Absent(hash(rng.choice(base)) if base else 0)
    K.ok('in absent', K.val('in', lambda: ab in o) is False)
    try: K.ok('distinct elements', len(set(base)) == n)
    except TypeError: pass
    if kind in SETS: return base
    vals = K.val('indexing', lambda: [o[k] for k in base])
    K.ok('get', idlist(K.val('get', lambda: [o.get(k, ab) for k in base]), vals))
    K.ok('get absent', K.val('get', lambda: o.get(ab, 7)) == 7 and o.get(ab) is None)
    K.raises('[absent]', KeyError, lambda: o[ab])
    K.ok('reversed', idlist(K.val('reversed', lambda: list(reversed(o))), base[::-1]))
    ks, vs, its = K.val('keys', lambda: o.keys()), K.val('values', lambda: o.values()), K.val('items', lambda: o.items())
    views(case, K, base, vals, ks, vs, its, ab)
    K.ok('dict()', idlist(list(K.val('dict()', lambda: dict(o))), base))
    return base


def views(case, K, base, vals, ks, vs, its, ab):
    rng = case.rng; n = len(base)
    K.ok('len of views', (len(ks), len(vs), len(its)) == (n, n, n))
    K.ok('keys()', idlist(K.val('keys()', lambda: list(ks)), base)); K.ok('values()', idlist(K.val('values()', lambda: list(vs)), vals))
    pairs = K.val('items()', lambda: list(its))
    K.ok('items()', all(type(p) is tuple and len(p) == 2 for p in pairs) and idlist([p[0] for p in pairs], base)
         and idlist([p[1] for p in pairs], vals), pairs)
    K.ok('reversed keys()', idlist(K.val('reversed keys()', lambda: list(reversed(ks))), base[::-1]))
    K.ok('reversed values()', idlist(K.val('reversed values()', lambda: list(reversed(vs))), vals[::-1]))
    rp = K.val('reversed items()', lambda: list(reversed(its)))
    K.ok('reversed items()', idlist([p[0] for p in rp], base[::-1]) and idlist([p[1] for p in rp], vals[::-1]))
    for i in rng.sample(range(n), min(n, 4)):
        k, v = base[i], vals[i]
        K.ok('in keys()', K.val('in keys()', lambda: k in ks)); K.ok('in values()', K.val('in values()', lambda: v in vs), v)
        K.ok('in items()', K.val('in items()', lambda: (k, v) in its), k, v)
        K.ok('not in items()', K.val('in items()', lambda: (k, ab) in its) is False, k)
    K.ok('absent in views', K.val('absent in views', lambda: (ab in ks, ab in vs, (ab, None) in its, (ab, 0) in its)) == (False,) * 4)
    K.ok('absent key with a value equal to everything', K.val('in items()', lambda: (ab, AllEq()) in its) is False)
    if n and vals[0] == AllEq(): K.ok('present key with a value equal to everything', K.val('in items()', lambda: (base[0], AllEq()) in its) is True)
    K.ok('odd in items()', K.val('odd in items()', lambda: (5 in its, (1, 2, 3) in its, None in its)) == (False,) * 3)
    S = set(rng.sample(base, rng.randrange(n + 1)) + rng.sample(EXTRA, 2)); B = set(base)
    for nm, f in SETOPS:
        K.ok('keys() ' + nm, K.val('keys() ' + nm, lambda: f(ks, S)) == f(B, S), S)
        K.ok('keys() r' + nm, K.val('keys() r' + nm, lambda: f(S, ks)) == f(S, B), S)
    K.ok('keys() isdisjoint', ks.isdisjoint(S) is B.isdisjoint(S)); K.ok('keys() == set', (ks == B) is True and (ks != B) is False)
    try: P = set(pairs); hash(tuple(pairs))
    except TypeError: return
    Q = set(rng.sample(pairs, rng.randrange(n + 1)) + [('zz', 1)])
    for nm, f in SETOPS:
        K.ok('items() ' + nm, K.val('items() ' + nm, lambda: f(its, Q)) == f(P, Q), Q)
class AllEq:
    def __eq__(self, o): return True
    __hash__ = None
EXTRA = [('zz',), 'zz', 1e50, frozenset([99])]
SETOPS = [('&', operator.and_), ('|', operator.or_), ('-', operator.sub), ('^', operator.xor), ('<=', operator.le), ('<', operator.lt),
          ('>=', operator.ge), ('>', operator.gt)]


READS = [('len', len), ('repr', repr), ('persistent', lambda t: t.persistent() if hasattr(t, 'persistent') else t.transient()),
         ('copy', lambda t: t.copy()), ('==', lambda t: t == t.copy()), ('list', list), ('ctor', lambda t: type(t)(t)),
         ('edit a copy', lambda t: t.copy().clear())]


def iterators(case, kind, o, env):
    """Interleaves one iterator with an edit (of a transient) or with derivation of versions (of anything)."""
    rng = case.rng; c = case.count
    makers = [('iter', iter)]
    if kind in MAPS: makers += [('keys', lambda t: iter(t.keys())), ('values', lambda t: iter(t.values())), ('items', lambda t: iter(t.items()))]
    nm, mk = rng.choice(makers)
    pers = kind in PERSISTENT
    base = list(iter(o)); n = len(base)
    def expect(k):
        if kind in SEQS or kind in SETS or nm in ('iter', 'keys'): return k
        return o[k] if nm == 'values' else (k, o[k])
    def same(a, k):
        w = expect(k)
        return a is w or (nm == 'items' and type(a) is tuple and len(a) == 2 and a[0] is w[0] and a[1] is w[1])
    it = mk(o); j = rng.randrange(n + 1)
    def step(i, what):
        try: x = next(it)
        except Exception as e:
            raise Violation(f'{kind}:{nm}:{what}', f'an iterator ({nm}) over a {kind} raised {e!r} at {i} after {what}', content=base)
        if not same(x, base[i]):
            raise Violation(f'{kind}:{nm}:{what}', f'an iterator ({nm}) over a {kind} yielded {short(x)} at {i} after {what}', content=base, want=expect(base[i]))
    for i in range(j): step(i, 'nothing')
    c['evaluations'] += 1
    what = rng.choice(('read', 'read', 'edit', 'edit', 'assign', 'noeffect') if not pers and kind not in SEQS else ('read',))
    case.op('iterate', nm, j, what)
    lab = what
    changed = False
    if what == 'read':
        for r, f in rng.sample(READS, 2):
            f(o)
        if pers:
            fam, _, _, edits, ew, _, _ = KINDS[kind]
            name = rng.choices(list(ew), list(ew.values()))[0]
            try: model = dict(o.items()) if kind in MAPS else set(o) if kind in SETS else list(o)
            except TypeError: model = []
            sf, _, l2 = edits[name](env.at(o, model))
            attempt(sf, o); lab = l2[0]
    elif what == 'assign' and kind in MAPS:
        for k in rng.sample(base, min(n, rng.randrange(1, 4))): o[k] = env.elem()
    elif what == 'noeffect':
        if kind in SETS:
            for k in rng.sample(base, min(n, 2)): o.add(k)
            o.discard(Absent(0)); o.update(base[:1]); o.discardall([Absent(1)])
        else:
            for k in rng.sample(base, min(n, 2)): o[k] = o[k]; o.setdefault(k, 5); o.pop(Absent(1), None)
    elif what == 'edit':
        q = rng.randrange(4) if n else 0
        if q == 0:
            k = Absent(rng.choice([hash(b) for b in base] or [1]))
            if kind in SETS: o.add(k)
            else: o[k] = 1
        elif q == 1: o.clear()
        elif q == 2:
            k = rng.choice(base)
            if kind in SETS: o.remove(k)
            else: o.pop(k)
        else:
            for k in base[j:]:
                if kind in SETS: o.discard(k)
                else: del o[k]
        lab = ('edit', 'add', 'clear', 'remove', 'remove the rest')[q + 1]
        changed = not (q == 3 and j == n)
        if rng.random() < .5:                # more edits before the iterator goes on; the size may be the same again
            for _ in range(rng.randrange(1, 4) if rng.random() < .94 else rng.choice((31, 127, 254, 255, 256, rng.randrange(20, 300)) if rng.random() < .6 else (1000, 1024, 1025, 1600, 2050, 2500))):
                now = list(o)
                if now and rng.random() < .4: k = rng.choice(now); o.discard(k) if kind in SETS else o.pop(k)
                else:
                    k = Absent(rng.choice([hash(b) for b in base] or [1])) if rng.random() < .6 or not base else rng.choice(base)
                    if kind in SETS: o.add(k)
                    elif not any(k is x for x in o): o[k] = 1
            if len(o) == n: c['same size'] += 1
            lab = 'several edits'
            now = list(o)
            changed = len(now) != n or any(x is not y for x, y in zip(now, base)) if kind in MAPS else {id(x) for x in now} != {id(x) for x in base}
            if not changed: return
        if changed and (j == 0 or j == n):        # not started (view iterators start lazily) or already exhausted: not claimed
            c['edit at either end'] += 1
            try: next(it)
            except (RuntimeError, StopIteration): pass
            return
    case.sig(kind, nm, what, lab, min(j, 3), min(n - j, 3)); c['iter:' + what] += 1
    if changed:
        c['must-raise'] += 1
        try: x = next(it)
        except RuntimeError: return
        except StopIteration:
            raise Violation(f'{kind}:{nm}:{lab}:silent', f'an iterator ({nm}) over a {kind} ended silently after {lab} with {n - j} left', content=base)
        except Exception as e:
            raise Violation(f'{kind}:{nm}:{lab}:error', f'an iterator ({nm}) over a {kind} raised {e!r} after {lab}', content=base)
        raise Violation(f'{kind}:{nm}:{lab}:silent', f'an iterator ({nm}) over a {kind} yielded {short(x)} after {lab}', content=base)
    for i in range(j, n): step(i, lab)
    try: x = next(it)
    except StopIteration: return
    except Exception as e: raise Violation(f'{kind}:{nm}:{lab}:end', f'an iterator ({nm}) over a {kind} raised {e!r} at its end after {lab}', content=base)
    raise Violation(f'{kind}:{nm}:{lab}:end', f'an iterator ({nm}) over a {kind} yielded {short(x)} after the last element', content=base)


def run_case(case):
    rng = case.rng
    kind = KINDS_ALL[case.index % 10]
    d = Differ(case, kind, kind in LAZY)
    env = d.env
    n = rng.choice((0, 1, 2, 3, 4, 5, 7, 10, 15, 33, 40))
    if kind in MAPS: cont = list({env.key(): env.elem() for _ in range(n)}.items())
    elif kind in SETS: cont = list({env.key() for _ in range(n)})
    else: cont = [env.elem() for _ in range(n)]
    if rng.random() < .003:
        n = rng.choice(LARGE); case.large(); cont = rng.sample(range(10**6), n)
        if kind in MAPS: cont = [(k, rng.randrange(10**6)) for k in cont]
    o = build(kind, cont, rng, wrap=env.wrap)
    if rng.random() < .1: o = churned(o, d.fam, rng); case.count['churned'] += 1
    case.op('start', kind, d.uni, short(cont, 100))
    fam, pers, ctor, edits, ew, reads, rw = KINDS[kind]
    held = []
    def hold():
        if kind in MAPS: held.append((o, o.keys(), o.values(), o.items(), list(o), [o[k] for k in o]))
    hold()
    lab = ('start',)
    base = consistent(case, kind, o, lab)
    for step in range(rng.randrange(3, 14)):
        name = rng.choices(list(ew), list(ew.values()))[0]
        try: model = dict(o.items()) if kind in MAPS else set(o) if kind in SETS else list(o)
        except TypeError: model = []
        if len(model) > 150: break
        sf, _, lab = edits[name](env.at(o, model))
        case.op(*lab)
        r, e = attempt(sf, o)
        if pers and e is None and isinstance(r, tuple) and len(r) == 2 and type(r[1]) is type(o): o = r[1]
        case.sig(kind, lab[0], len(model)); case.count['steps'] += 1
        base = consistent(case, kind, o, lab)
        for (x, ks, vs, its, kb, vb) in held:
            K = Chk(case, kind, x, ('held view after',) + tuple(lab))
            if not pers: kb = list(x); vb = [x[k] for k in x]          # views of a transient follow it
            K.base = kb
            case.count['held_views'] += 1
            views(case, K, kb, vb, ks, vs, its, Absent(0))
        if rng.random() < .3:
            hold(); del held[:-2]
        if rng.random() < .6: iterators(case, kind, o, env)
        if rng.random() < .1 and not pers: consistent(case, kind, o, ('after iterating',))
    if case.sample is None: case.sample = [short(x, 150) for x in case.log[:6]]
MIN = {'large': 20, 'churned': 1000, 'same size': 100, 'evaluations': 400000, 'steps': 15000, 'held_views': 5000, 'must-raise': 300, 'iter:read': 3000, 'iter:assign': 300, 'iter:noeffect': 300}
ASSUME = ['iterating a tlist while editing it is not claimed']

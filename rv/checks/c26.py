"""__json__ of sequences and mappings against what the json module writes for the list or dict of the same content."""
import json
from ..core import Violation, short
from ..pools import build, CT, SEQS, MAPS, LARGE
from ..minimal import PAIRS as MPAIR
from pcollections import plist, tlist, llist, tllist, pdict, tdict, ldict, tldict, lazy
from pcollections.abc import PersistentSequence, TransientSequence, PersistentMapping, TransientMapping
PROP = 'C26'
RULE = ('One case makes a sequence or mapping of one of the eight concrete types or a minimal subclass of an abstract class, by one of many '
        'histories, asks for its JSON text before and after edits, and compares what json.loads reads (or the exception) with the text '
        'json.dumps gives for the builtin of the same content.  Distinct are different (type, size, kinds of values, outcome).')
def plan(tier): return dict(cases=150000 if tier == 'quick' else 2000000, deadline=300 if tier == 'quick' else 600)
MINI = [c for p in MPAIR.items() for c in p if issubclass(c, (PersistentSequence, TransientSequence, PersistentMapping, TransientMapping))]
KINDS = list(SEQS + MAPS)


class Int(int): pass
class Str(str): pass
TEXT = ('', 'a', 'ab"c', '\\', 'é', '\u2028', '\U0001f600', 'line\nbreak', '</script>', '\x00', '[|', '<lazy>')
def value(rng, depth=2):
    q = rng.random()
    if q < .3: return rng.choice((0, 1, -1, 2**70, -2**63, Int(5), 10**20, True, False, None))
    if q < .45: return rng.choice((0.5, -0.0, 1e300, 1e-7, float('inf'), float('-inf'), 1.0, 0.1))
    if q < .75 or depth == 0: return rng.choice(TEXT + (Str('s'),))
    if q < .82: return [value(rng, depth - 1) for _ in range(rng.randrange(4))]
    if q < .87: return tuple(value(rng, depth - 1) for _ in range(rng.randrange(4)))
    if q < .98: return {key(rng): value(rng, depth - 1) for _ in range(rng.randrange(4))}
    return rng.choice((object(), {1}, 1j, b'x', len, float))
def key(rng):
    q = rng.random()
    if q < .6: return rng.choice(TEXT) + rng.choice(('', '1', '2', 'k', 'key'))
    if q < .8: return rng.choice((2, 3, -5, 2**65, Int(7)))
    if q < .9: return rng.choice((True, False, None))
    if q < .97: return rng.choice((.5, -1.5, 1e20))
    return rng.choice(((1, 2), b'k', frozenset((1,))))


class Broken(Exception): pass
def answer(f):
    try: return f(), None
    except RecursionError: raise
    except Exception as e: return None, e


def judge(case, kind, obj, model, what, fails):
    """The text obj gives is JSON for the model."""
    want, we = answer(lambda: json.loads(json.dumps(model), object_pairs_hook=Pairs))
    case.op(what, kind, short(model, 120))
    got, ge = answer(lambda: obj.__json__())
    c = case.count; c['evaluations'] += 1
    case.sig(kind, len(model), what, type(ge).__name__, sorted({type(x).__name__ for x in (model if isinstance(model, list) else model.values())}).__repr__())
    if fails:
        c['failing lazies'] += 1
        e = ge
        while e is not None and not isinstance(e, Broken): e = e.__cause__
        if we is None and e is None: raise Violation('json:failure', f'__json__ of a {kind} with a failing lazy gave {got!r} {ge!r}')
        return
    if we is not None:
        c['refused'] += 1
        if ge is None: raise Violation('json:no-error', f'__json__ of a {kind} is {got!r}, json.dumps of its content raises {we!r}')
        if not isinstance(ge, type(we)): raise Violation('json:error', f'__json__ of a {kind} raised {ge!r}, json.dumps of its content raises {we!r}')
        return
    if ge is not None: raise Violation('json:raises', f'__json__ of a {kind} raised {ge!r} for {short(model)}')
    if not isinstance(got, str): raise Violation('json:type', f'__json__ of a {kind} returned {got!r}')
    back, be = answer(lambda: json.loads(got, object_pairs_hook=Pairs))
    if be is not None: raise Violation('json:text', f'__json__ of a {kind} is no JSON: {got!r} ({be!r})')
    if not alike(back, want): raise Violation('json:content', f'__json__ of a {kind} is {got!r}, expected {json.dumps(model)!r}')
    c['texts'] += 1


class Pairs(list):
    """The pairs of a JSON object in their order."""
def alike(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, tuple): return len(a) == len(b) and all(map(alike, a, b))
    return a == b and repr(a) == repr(b)


def run_case(case):
    rng = case.rng
    n = rng.choice((0, 1, 2, 3, 5, 9, 33, 40)); large = rng.random() < .0006
    if large: n = rng.choice(LARGE); case.large()
    seq = rng.random() < .5
    if rng.random() < .2:
        cls = rng.choice([c for c in MINI if issubclass(c, (PersistentSequence, TransientSequence)) == seq]); kind = cls.__name__
    else: kind = rng.choice(SEQS if seq else MAPS); cls = None
    if large: model = [value(rng, 0) if i % 7 == 0 and i % 1000 else i for i in range(n)]; model = model if seq else {f'k{i}': x for i, x in enumerate(model)}
    else: model = [value(rng) for _ in range(n)] if seq else {key(rng): value(rng) for _ in range(n)}
    lazykind = kind in ('llist', 'tllist', 'ldict', 'tldict')
    fails = lazykind and n > 0 and rng.random() < .1
    if fails:
        def f(): raise Broken
        at = rng.randrange(len(model))
        if seq: items = [lazy(f) if i == at else x for i, x in enumerate(model)]
        else: items = [(k, lazy(f) if i == at else x) for i, (k, x) in enumerate(model.items())]
        obj = CT[kind](items)
    elif cls is not None: obj = cls(model if seq else list(model.items()))
    else: obj = build(kind, list(model) if seq else list(model.items()), rng)
    judge(case, kind, obj, model, 'json', fails)
    if fails: return
    judge(case, kind, obj, model, 'again', False)
    for _ in range(rng.randrange(3)):
        new = dict(model) if not seq else list(model)
        pers = hasattr(obj, 'transient')
        if seq:
            x = value(rng); i = rng.randrange(len(new)) if new else 0
            q = rng.randrange(3)
            if q == 0 or not new:
                new.append(x); derived = obj.append(x)
            elif q == 1:
                new[i] = x
                if pers: derived = obj.set(i, x)
                else: obj[i] = x
            else:
                new.pop(i); derived = obj.delete(i) if pers else obj.pop(i)
        else:
            k = rng.choice(list(new)) if new and rng.random() < .6 else key(rng); x = value(rng)
            if rng.random() < .6 or k not in new:
                new[k] = x
                if pers: derived = obj.set(k, x)
                else: obj[k] = x
            else:
                new.pop(k)
                if pers: derived = obj.drop(k)
                else: del obj[k]
        if pers:
            judge(case, kind, derived, new, 'derived', False)
            judge(case, kind, obj, model, 'original', False); obj = derived
        else: judge(case, kind, obj, new, 'edited', False)
        model = new; case.count['edits'] += 1
    if case.sample is None: case.sample = [short(e, 200) for e in case.log[:2]]
MIN = {'large': 40, 'evaluations': 60000, 'texts': 40000, 'refused': 3000, 'edits': 10000, 'failing lazies': 500}

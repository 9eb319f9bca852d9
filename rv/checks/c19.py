"""Printing of all ten types against an independent formatter; the evaluation log of lazies."""
from ..core import Violation, short
from ..busy import poke
from ..pools import build, CT, SEQS, SETS, MAPS, LARGE
from pcollections import lazy, plist, pset, pdict, tlist, tset, tdict
PROP = 'C19'
BUSY = 2
RULE = ('One case prints one collection of one of the ten types, built by a random history, whose elements have representations of '
        'chosen lengths (including empty, multi-line, very long and boundary sums around 60); str and repr are compared with an '
        'independent formatter of the raw elements in iteration order and the evaluation log is read.  Distinct are different '
        '(type, size, joined length, cut position, number of lazies).')
def plan(tier): return dict(cases=100000 if tier == 'quick' else 1200000, deadline=300 if tier == 'quick' else 600)
REPR_B = dict(plist='[|', llist='[|', tlist='[<', tllist='[<', pset='{|', pdict='{|', ldict='{|', tdict='{|', tldict='{|', tset='{<')
STR_B = dict(REPR_B, tdict='{<')
CLOSE = {'[|': '|]', '[<': '>]', '{|': '|}', '{<': '>}'}


class R:
    __slots__ = ('text', 'boom', '__weakref__')
    def __init__(self, text): self.text = text; self.boom = None
    def __repr__(self):
        if self.boom: raise self.boom
        poke()
        return self.text
    def __str__(self): return 'WRONG-str-of-element'
class Stop(BaseException): pass
class RF(R):
    def __format__(self, spec): return 'WRONG-format'


ALPHA = 'abcxyz0123{}[]<>|%s,: \'"\\'
def text(rng, n):
    q = rng.random()
    if q < .7: return 'x' * n
    if q < .9: return ''.join(rng.choice(ALPHA) for _ in range(n))
    return ''.join(rng.choice('é中\n\t😀\0') for _ in range(n))


def elements(rng, mapping):
    """Representations whose joined length is often close to 60."""
    q = rng.random()
    def L():
        r = rng.random()
        return 0 if r < .06 else rng.randrange(1, 12) if r < .8 else rng.randrange(12, 64) if r < .97 else rng.randrange(64, 300)
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 9, 12, 20, 35, 60))
    if rng.random() < .001: return [rng.randrange(3) for _ in range(rng.choice(LARGE))]
    lens = [L() for _ in range(n)]
    if q > .97: return [rng.choice((0, 0, 0, 0, 1)) for _ in range(rng.choice((10, 25, 40, 70, 130)))]
    if q < .6 and n:                       # make some prefix end around the limit
        k = rng.randrange(1, min(n, 12) + 1); per = 4 if mapping else 2
        want = rng.choice((60, 59, 61, 55, 56, 54, 58, 62)) - 2 * (k - 1) - (2 * k if mapping else 0)
        if want >= 0:
            cuts = sorted(rng.randrange(want + 1) for _ in range(k - 1)); lens[:k] = [b - a for a, b in zip([0] + cuts, cuts + [want])]
    return lens


def fmt(parts, limit=None):
    full = ', '.join(parts)
    if limit is None or len(full) <= limit: return full, -1
    for k in range(min(len(parts) - 1, 40), -1, -1):
        t = ', '.join(parts[:k] + ['...'])
        if len(t) <= limit: return t, k
    raise AssertionError


def run_case(case):
    rng = case.rng; c = case.count
    kind = list(CT)[case.index % 10]
    lens = elements(rng, kind in MAPS)
    large = case.large(len(lens) in LARGE); runs = []
    nlazy = 0
    def val(n):
        q = rng.random()
        if q < .1: return rng.choice((1, 'a', None, 3.5, (), [1], {'k': 2}, 'it\'s', b'z', plist([1]), tlist([2]), pset(), tset(), pdict(a=1), tdict(b=R('q'))))
        return (R if q < .9 else RF)(text(rng, n))
    def wrap(x):
        q = rng.random()
        if q > .5: return x
        def f(): runs.append(x); return x
        l = lazy(f)
        if q < .2: l(); runs.clear()
        return l
    w = wrap if kind in ('llist', 'tllist', 'ldict', 'tldict') else None
    if kind in MAPS:
        def split(n):
            a = rng.randrange(n + 1); return a, n - a
        kv = []
        for n in lens:
            a, b = split(n); kv.append((R(text(rng, a)) if rng.random() < .9 else ('k', len(kv)), val(b)))
        o = build(kind, kv, rng, how=None if large else rng.randrange(6), wrap=w)
    elif kind in SETS: o = build(kind, [R(text(rng, n)) for n in lens], rng)
    else: o = build(kind, [val(n) for n in lens], rng, how=None if large else rng.choice((0, 1, 2, 3, 5)), wrap=w)
    runs.clear()
    raw = {'llist': lambda: list(o.as_plist()), 'ldict': lambda: list(o.as_pdict().items()), 'tldict': lambda: list(o.as_tdict().items())}.get(kind)
    items = raw() if raw else list(o.items()) if kind in MAPS else list(o)
    def show(e, f):
        return f'{f(e[0])}: {f(e[1])}' if kind in MAPS else f(e)
    short_lazy = (lambda e: '<lazy>' if isinstance(e, lazy) else repr(e)) if raw else repr
    case.op('print', kind, [show(e, repr)[:80] for e in items][:20])
    nlazy = sum(isinstance(e[1] if kind in MAPS else e, lazy) for e in items) if raw else 0
    if raw and runs: raise Violation(f'{kind}:raw', f'reading the raw content of a {kind} evaluated lazies')
    faulty = [x for e in items for x in (e if kind in MAPS else (e,)) if isinstance(x, R)]
    if faulty and rng.random() < .15:            # an element cannot be printed for a while; afterwards everything is as ever
        x = rng.choice(faulty); x.boom = rng.choice((ValueError, RuntimeError, Stop))('not now')
        for f in rng.sample((str, repr, format), rng.randrange(1, 4)):
            c['faults'] += 1
            try: f(o)
            except BaseException as e:
                if e is not x.boom: raise Violation(f'{kind}:fault', f'printing a {kind} with an element whose repr raises {x.boom!r} raised {e!r}')
            else:
                if f is repr: raise Violation(f'{kind}:fault', f'repr of a {kind} did not ask every element for its repr')
        x.boom = None
    for nm, f, br, limit, sh in (('str', str, STR_B, 60, short_lazy), ('repr', repr, REPR_B, None, repr), ('format', format, STR_B, 60, short_lazy),
                                 ('str', str, STR_B, 60, short_lazy)):
        want, cut = fmt([show(e, sh) for e in items], limit)
        want = br[kind] + want + CLOSE[br[kind]]
        got = f(o)
        c['evaluations'] += 1
        if raw and runs:
            raise Violation(f'{kind}:{nm}:evaluates', f'{nm} of a {kind} evaluated {len(runs)} lazies')
        if type(got) is not str or got != want:
            raise Violation(f'{kind}:{nm}', f'{nm} of a {kind} is {got!r}, expected {want!r}', items=[show(e, repr) for e in items])
        if nm == 'str':
            c['cut' if cut >= 0 else 'whole'] += 1
            if len(want) > 64: raise AssertionError
        case.sig(kind, len(items), len(want), cut, min(nlazy, 3))
    if kind in MAPS and case.index // 10 % 3 == 0:
        for nm in ('keys', 'values', 'items'):
            v = getattr(o, nm)(); c['views'] += 1; c['evaluations'] += 1
            try: got, txt = repr(v), str(v)
            except Exception as e: raise Violation(f'{kind}:{nm}:raises', f'printing {nm}() of a {kind} raised {e!r}')
            if runs: raise Violation(f'{kind}:{nm}:evaluates', f'printing {nm}() of a {kind} evaluated {len(runs)} lazies')
            at = 0
            for k, x in items:
                for y in dict(keys=(k,), values=(x,), items=(k, x))[nm]:
                    if raw and isinstance(y, lazy): continue
                    at = got.find(repr(y), at)
                    if at < 0: raise Violation(f'{kind}:{nm}:repr', f'repr of {nm}() of a {kind} is {got!r}, which does not show {y!r} in its place', items=[show(e, repr) for e in items])
                    at += len(repr(y))
    c['lazies'] += nlazy
    if case.sample is None and items: case.sample = dict(kind=kind, str=str(o), repr=short(o, 200))
MIN = {'large': 30, 'views': 5000, 'faults': 5000, 'evaluations': 150000, 'cut': 20000, 'whole': 20000, 'lazies': 5000}
ASSUME = ['collections that contain themselves are not printed']

"""Operation tables: every operation as a pair (what to do to the pcollections object, what the builtin does).

A table entry is  name -> gen(env) -> (subject_fn, model_fn, label)
    persistent tables:  subject_fn(p) -> (returned value or NOTHING, new object)
                        model_fn(m)   -> (returned value or NOTHING, new model)      (m is a private copy)
    transient tables:   subject_fn(t) -> returned value or NOTHING  (edits t)
                        model_fn(m)   -> returned value or NOTHING  (edits m)
Returned values are normalised by RET kinds, see engine.
"""
import array, collections, operator
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict
from .values import iterable_shapes, GetItemSeq, IterOnly, fresh


def many(r, few):
    """How many: mostly one of a few small numbers, sometimes dozens or hundreds."""
    q = r.random()
    return r.choice(few) if q < .94 else r.choice((9, 12, 20, 33, 40, 70)) if q < .995 else r.choice((129, 257, 300, 520))
def arity(r, few):
    """How many operands: a few, sometimes up to a dozen."""
    return r.choice(few) if r.random() < .95 else r.randrange(3, 13)
class _N:
    def __repr__(self): return 'NOTHING'
NOTHING = _N()


class Ix:
    """An integer to `operator.index` only."""
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
    def __index__(self): return self.i
    def __repr__(self): return f'Ix({self.i})'


class Env:
    """What the generators draw from: rng, elements, the wrapper for stored elements, current length."""
    def __init__(self, rng, elem, wrap=None, key=None):
        self.rng = rng
        self.elem = elem
        self.key = key or elem
        self.wrap = wrap or (lambda x: x)
        self.model = None           # model of the receiver (read only)
        self.n = 0
        self.cap = 120
        self.subject = None
        self.lazies = False         # stored elements are wrapped in lazy objects
    def at(self, subject, model):
        self.subject, self.model, self.n = subject, model, len(model)
        return self
    def some(self, hi=6):
        k = many(self.rng, (0, 1, 1, 2, 3, hi))
        return [self.elem() for _ in range(k)]
    def member(self):
        """An element of the receiver, or sometimes any element."""
        if self.n and self.rng.random() < 0.75:
            m = self.model
            if isinstance(m, list): return self.rng.choice(m)
            return self.rng.choice(list(m))
        return self.key()
    def index(self, slack=2):
        i = self._index(slack)
        q = self.rng.random()
        if q > .08: return i
        if q > .05: return Ix(i)
        if q > .03: return bool(i % 2)
        return self.rng.choice((float(i), i + .5, float('inf'), float('nan'), None, 'a', (i,), 2**40, -2**40, Ix(2**50)))
    def _index(self, slack=2):
        r = self.rng; n = self.n
        q = r.random()
        if n and q < 0.70: return r.randrange(-n, n)
        if q < 0.80: return r.choice((0, -1, n, n - 1, -n, -n - 1, n + 1))
        return r.randrange(-n - slack, n + slack + 1)
    def slice(self):
        r = self.rng; n = self.n
        def e():
            q = r.random()
            if q < .25: return None
            if q > .98: return Ix(r.randrange(-n - 3, n + 4))
            if q < .35: return 0
            if q < .9: return r.randrange(-n - 3, n + 4)
            return r.choice((10**9, -10**9, 2**70, -2**70))
        st = r.choice((None, None, 1, 1, -1, -1, 2, -2, 3, -3, 7, 10**6, -10**6))
        return slice(e(), e(), st)
    def wraps(self, xs): return [self.wrap(x) for x in xs]


# =============================================================================== sequences
def _keys(env):
    """A sort key and direction."""
    key = env.rng.choice((None, None, repr, lambda e: str(type(e)), lambda e: 0, lambda e: -len(repr(e)), id))
    return key, env.rng.random() < .4

def _sort_args(env, key, rev):
    """Arguments that have their default value are mostly left out."""
    return {k: v for k, v in (('key', key), ('reverse', rev)) if v or env.rng.random() < .3}

def p_set(env):
    i = env.index(); x = env.elem(); y = env.wrap(x)
    def m(l): l[i] = x; return NOTHING, l
    return (lambda p: (NOTHING, p.set(i, y))), m, ('set', i, x)
def p_set_same(env):
    i = env.index(0)
    def m(l): l[i] = l[i]; return NOTHING, l
    return (lambda p: (NOTHING, p.set(i, p.getlazy(i) if isinstance(p, llist) else p[i]))), m, ('set_same', i)
def p_append(env):
    x = env.elem(); y = env.wrap(x)
    def m(l): l.append(x); return NOTHING, l
    return (lambda p: (NOTHING, p.append(y))), m, ('append', x)
def p_prepend(env):
    x = env.elem(); y = env.wrap(x)
    def m(l): l.insert(0, x); return NOTHING, l
    return (lambda p: (NOTHING, p.prepend(y))), m, ('prepend', x)
def p_insert(env):
    i = env.index(4); x = env.elem(); y = env.wrap(x)
    def m(l): l.insert(i, x); return NOTHING, l
    return (lambda p: (NOTHING, p.insert(i, y))), m, ('insert', i, x)
def p_delete(env):
    if env.rng.random() < .2:
        def m(l): del l[-1]; return NOTHING, l
        return (lambda p: (NOTHING, p.delete())), m, ('delete',)
    i = env.index()
    def m(l): del l[i]; return NOTHING, l
    return (lambda p: (NOTHING, p.delete(i))), m, ('delete', i)
def p_drop(env):
    if env.rng.random() < .2:
        def m(l):
            if l: del l[-1]
            return NOTHING, l
        return (lambda p: (NOTHING, p.drop())), m, ('drop',)
    i = env.index()
    def m(l):
        if -len(l) <= operator.index(i) < len(l): del l[i]
        return NOTHING, l
    return (lambda p: (NOTHING, p.drop(i))), m, ('drop', i)
def p_pop(env):
    if env.rng.random() < .2:
        def m(l): v = l.pop(); return v, l
        return (lambda p: p.pop()), m, ('pop',)
    i = env.index()
    def m(l): v = l.pop(i); return v, l
    return (lambda p: p.pop(i)), m, ('pop', i)
def p_remove(env):
    v = env.member()
    def m(l): l.remove(v); return NOTHING, l
    return (lambda p: (NOTHING, p.remove(v))), m, ('remove', v)
def p_extend(env):
    if env.rng.random() < .05: mk, xs, shape = oddshape(env.rng); a = mk()
    else: xs = env.some(); a, b, shape = iterable_shapes(env.rng, env.wraps(xs))
    def m(l): l.extend(xs); return NOTHING, l
    return (lambda p: (NOTHING, p.extend(a))), m, ('extend', shape, xs)
def p_extend_self(env):
    if env.n > env.cap: return p_delete(env)
    def m(l): l.extend(list(l)); return NOTHING, l
    return (lambda p: (NOTHING, p.extend(p))), m, ('extend_self',)
def p_add(env):
    xs = env.some(); k = env.rng.randrange(3)
    other = (list, plist, llist)[k](env.wraps(xs)) if k != 1 or not env.lazies else plist(xs)
    def m(l): return NOTHING, l + xs
    return (lambda p: (NOTHING, p + other)), m, ('add', ('list', 'plist', 'llist')[k], xs)
def p_radd(env):
    xs = env.some(); ys = env.wraps(xs)
    def m(l): return NOTHING, xs + l
    return (lambda p: (NOTHING, ys + p)), m, ('radd', xs)
def p_add_self(env):
    if env.n > env.cap: return p_delete(env)
    return (lambda p: (NOTHING, p + p)), (lambda l: (NOTHING, l + l)), ('add_self',)
def p_mul(env):
    k = env.rng.choice((-2, -1, 0, 1, 2, 3, True, False))
    if env.n and env.rng.random() < .15: k = env.rng.choice((4, 5, 6, 7, 8, 9, 13, 16, 17, 33))
    if env.n > env.cap and k > 1 or k > 3 and env.n * k > 300: k = 1
    if env.rng.random() < .5:
        return (lambda p: (NOTHING, p * k)), (lambda l: (NOTHING, l * k)), ('mul', k)
    return (lambda p: (NOTHING, k * p)), (lambda l: (NOTHING, k * l)), ('rmul', k)
def _bad_arith(env):
    """An operand that a list neither adds nor multiplies with."""
    xs = env.some()
    if env.rng.random() < .5:
        k = env.rng.choice((1.5, 2.0, '2', None, (2,), b'3', 0.0, 'x', [2]))
        return True, k, ('mul-non-integer', k)
    k = env.rng.choice(('tuple', 'str', 'set', 'dict', 'iter', 'None', 'int', 'range'))
    o = dict(tuple=tuple, str=lambda _: 'ab', set=lambda x: set(range(len(x))), dict=lambda x: dict.fromkeys(range(len(x))),
             iter=iter, int=len, range=lambda x: range(len(x)), none=None).get(k, lambda _: None)(xs)
    return False, o, ('add-non-list', k, len(xs))
def _refused(f):
    """TypeError and ValueError are both refusals here."""
    try: return f()
    except (TypeError, ValueError) as e: raise TypeError(str(e))
def p_badarith(env):
    mul, o, lab = _bad_arith(env); r = env.rng.random() < .3
    def f(p):
        if mul: return o * p if r else p * o
        return o + p if r else p + o
    def m(l): raise TypeError
    return (lambda p: (NOTHING, _refused(lambda: f(p)))), m, (('r-' if r else '') + lab[0],) + lab[1:]
def t_badarith(env):
    mul, o, lab = _bad_arith(env); q = env.rng.randrange(3)
    def f(t):
        if q == 0:
            u = t
            if mul: u *= o
            else: u += o
            return u
        if mul: return list(o * t if q == 1 else t * o)
        return list(o + t if q == 1 else t + o)
    def m(l): raise TypeError
    return (lambda t: _refused(lambda: f(t))), m, (('in-place-', 'r-', '')[q] + lab[0],) + lab[1:]
def p_sort(env):
    key, rev = _keys(env)
    def m(l): l.sort(key=key, reverse=rev); return NOTHING, l
    kw = _sort_args(env, key, rev)
    return (lambda p: (NOTHING, p.sort(**kw))), m, ('sort', getattr(key, '__name__', key), rev, list(kw))
def p_reverse(env):
    def m(l): l.reverse(); return NOTHING, l
    return (lambda p: (NOTHING, p.reverse())), m, ('reverse',)
def p_clear(env):
    return (lambda p: (NOTHING, p.clear())), (lambda l: (NOTHING, [])), ('clear',)
def p_slice(env):
    s = env.slice()
    return (lambda p: (NOTHING, p[s])), (lambda l: (NOTHING, l[s])), ('slice', s)
def p_copy(env):
    return (lambda p: (NOTHING, p.copy())), (lambda l: (NOTHING, l)), ('copy',)
def p_roundtrip(env):
    return (lambda p: (NOTHING, p.transient().persistent())), (lambda l: (NOTHING, l)), ('transient-persistent',)
def p_rebuild(env):
    k = env.rng.randrange(4)
    def f(p):
        c = type(p)
        if k == 0: return NOTHING, c(p)
        if k == 1: return NOTHING, c(list(p))
        if k == 2: return NOTHING, c(x for x in p)
        return NOTHING, c(p.transient())
    return f, (lambda l: (NOTHING, l)), ('rebuild', k)

SEQ_P = dict(set=p_set, set_same=p_set_same, append=p_append, prepend=p_prepend, insert=p_insert, delete=p_delete,
             drop=p_drop, pop=p_pop, remove=p_remove, extend=p_extend, extend_self=p_extend_self, add=p_add,
             radd=p_radd, add_self=p_add_self, mul=p_mul, badarith=p_badarith, sort=p_sort, reverse=p_reverse, clear=p_clear,
             slice=p_slice, copy=p_copy, roundtrip=p_roundtrip, rebuild=p_rebuild)
SEQ_P_W = dict(set=8, set_same=1, append=8, prepend=8, insert=9, delete=9, drop=3, pop=5, remove=4, extend=4,
               extend_self=1, add=3, radd=3, add_self=1, mul=2, badarith=1, sort=2, reverse=2, clear=.4, slice=6, copy=.5,
               roundtrip=2, rebuild=1.5)

# reads: gen(env) -> (subject_fn(obj) -> value, model_fn(list) -> value, label)
def r_get(env):
    i = env.index()
    return (lambda p: p[i]), (lambda l: l[i]), ('getitem', i)
def r_slice(env):
    s = env.slice()
    return (lambda p: list(p[s])), (lambda l: l[s]), ('getslice', s)
def r_slice0(env):
    s = env.slice(); s = slice(s.start, s.stop, 0)
    return (lambda p: p[s]), (lambda l: l[s]), ('getslice', s)
def r_index(env):
    v = env.member(); q = env.rng.random()
    if q < .4: return (lambda p: p.index(v)), (lambda l: l.index(v)), ('index', v)
    a = env.rng.randrange(-env.n - 2, env.n + 3)
    if q < .7: return (lambda p: p.index(v, a)), (lambda l: l.index(v, a)), ('index', v, a)
    b = env.rng.randrange(-env.n - 2, env.n + 3)
    return (lambda p: p.index(v, a, b)), (lambda l: l.index(v, a, b)), ('index', v, a, b)
def r_count(env):
    v = env.member()
    return (lambda p: p.count(v)), (lambda l: l.count(v)), ('count', v)
def r_in(env):
    v = env.member()
    return (lambda p: v in p), (lambda l: v in l), ('in', v)
def temps(env, k=16):
    """Elements and keys to ask for; every one is asked for with a copy that dies at once, so that the next takes its place in memory."""
    m = list(env.model)
    return [env.rng.choice(m) if m and env.rng.random() < .6 else env.key() for _ in range(k)]
def tried(f):
    try: return f()
    except (KeyError, ValueError) as e: return type(e).__name__
def r_temps(env):
    ks = temps(env); w = env.rng.randrange(3)
    f = (lambda p: [fresh(k) in p for k in ks], lambda p: [tried(lambda: p.index(fresh(k))) for k in ks], lambda p: [p.count(fresh(k)) for k in ks])[w]
    return f, f, ('temps', w, ks)
def sr_temps(env):
    ks = temps(env)
    f = lambda p: [fresh(k) in p for k in ks]
    return f, f, ('temps', ks)
def dr_temps(env):
    ks = temps(env); w = env.rng.randrange(4); no = object()
    f = (lambda p: [tried(lambda: p[fresh(k)]) for k in ks], lambda p: [p.get(fresh(k), no) for k in ks], lambda p: [fresh(k) in p for k in ks],
         lambda p: [fresh(k) in p.keys() for k in ks])[w]
    return f, f, ('temps', w, ks)
def r_iter(env):
    return (lambda p: list(iter(p))), (lambda l: list(l)), ('iter',)
def r_reversed(env):
    return (lambda p: list(reversed(p))), (lambda l: list(reversed(l))), ('reversed',)
def r_len(env):
    return (lambda p: (len(p), bool(p))), (lambda l: (len(l), bool(l))), ('len',)
def ways_of_reading(q):
    """Every element, read in the ways programs do."""
    yield 'unpack', [*q]
    yield 'tuple', list(tuple(q))
    match q:
        case [a, *b, c]: yield 'match', [a, *b, c]
        case [a]: yield 'match', [a]
        case []: yield 'match', []
        case _: yield 'match', 'no sequence'
    yield 'zip', [x for t in zip(q, reversed(q), q) for x in t]
    i, j = iter(q), iter(q); out = []
    for x in i:                                  # two iterators of one collection, one ahead of the other
        out.append(x)
        for y in (next(i, None), next(j, None)): out.append(y)
    yield 'two iterators', out + list(j)
    yield 'by index', [q[n] for n in range(len(q))] + [q[-1 - n] for n in range(len(q))]
    yield 'enumerate', [x for t in enumerate(q, 1) for x in t]
    h = iter(q); n = len(q) // 2
    yield 'in two parts', [x for _, x in zip(range(n), h)] and list(h)
def r_unpack(env):
    w = env.rng.randrange(8)
    f = lambda q: next(v for i, (_, v) in enumerate(ways_of_reading(q)) if i == w)
    return f, f, ('unpack', w)
SEQ_R = dict(temps=r_temps, get=r_get, slice=r_slice, slice0=r_slice0, index=r_index, count=r_count, contains=r_in, iter=r_iter,
             reversed=r_reversed, len=r_len, unpack=r_unpack)
SEQ_R_W = dict(temps=1.5, get=10, slice=6, slice0=.3, index=5, count=3, contains=4, iter=4, reversed=4, len=3, unpack=1)

# transient sequence
def t_setitem(env):
    i = env.index(); x = env.elem(); y = env.wrap(x)
    def s(t): t[i] = y; return NOTHING
    def m(l): l[i] = x; return NOTHING
    return s, m, ('setitem', i, x)
def t_delitem(env):
    i = env.index()
    def s(t): del t[i]; return NOTHING
    return s, s, ('delitem', i)
def t_append(env):
    x = env.elem(); y = env.wrap(x)
    return (lambda t: t.append(y)), (lambda l: l.append(x)), ('append', x)
def t_prepend(env):
    x = env.elem(); y = env.wrap(x)
    return (lambda t: t.prepend(y)), (lambda l: l.insert(0, x)), ('prepend', x)
def t_insert(env):
    i = env.index(4); x = env.elem(); y = env.wrap(x)
    return (lambda t: t.insert(i, y)), (lambda l: l.insert(i, x)), ('insert', i, x)
def t_extend(env):
    if env.rng.random() < .05: mk, xs, shape = oddshape(env.rng); a = mk()
    else: xs = env.some(); a, b, shape = iterable_shapes(env.rng, env.wraps(xs))
    return (lambda t: t.extend(a)), (lambda l: l.extend(xs)), ('extend', shape, xs)
def t_extend_self(env):
    if env.n > env.cap: return t_delitem(env)
    return (lambda t: t.extend(t)), (lambda l: l.extend(l)), ('extend_self',)
def t_pop(env):
    if env.rng.random() < .3: return (lambda t: t.pop()), (lambda l: l.pop()), ('pop',)
    i = env.index()
    return (lambda t: t.pop(i)), (lambda l: l.pop(i)), ('pop', i)
def t_remove(env):
    v = env.member()
    return (lambda t: t.remove(v)), (lambda l: l.remove(v)), ('remove', v)
def t_sort(env):
    key, rev = _keys(env)
    kw = _sort_args(env, key, rev)
    return ((lambda t: t.sort(**kw)), (lambda l: l.__setitem__(slice(None), sorted(l, key=key, reverse=rev))),
            ('sort', getattr(key, '__name__', key), rev, list(kw)))
def t_reverse(env):
    return (lambda t: t.reverse()), (lambda l: l.reverse()), ('reverse',)
def t_clear(env):
    return (lambda t: t.clear()), (lambda l: l.clear()), ('clear',)
def t_iadd(env):
    xs = env.some(); k = env.rng.randrange(3)
    ys = env.wraps(xs) if not env.lazies or k == 0 else xs
    other = (list, plist, tlist)[k](ys)
    def s(t):
        u = t; u += other
        return u is t
    def m(l):
        l += xs
        return True
    return s, m, ('iadd', ('list', 'plist', 'tlist')[k], xs)
def t_iadd_self(env):
    if env.n > env.cap: return t_delitem(env)
    def s(t):
        u = t; u += u
        return u is t
    return s, s, ('iadd_self',)
def t_imul(env):
    k = env.rng.choice((-1, 0, 1, 2, 2, 3))
    if env.n and env.rng.random() < .15: k = env.rng.choice((4, 5, 6, 7, 8, 9, 13, 16, 17, 33))
    if env.n > env.cap and k > 1 or k > 3 and env.n * k > 300: k = 1
    def s(t):
        u = t; u *= k
        return u is t
    return s, s, ('imul', k)
SEQ_T = dict(setitem=t_setitem, delitem=t_delitem, append=t_append, prepend=t_prepend, insert=t_insert,
             extend=t_extend, extend_self=t_extend_self, pop=t_pop, remove=t_remove, sort=t_sort, reverse=t_reverse,
             clear=t_clear, iadd=t_iadd, iadd_self=t_iadd_self, imul=t_imul, badarith=t_badarith)
SEQ_T_W = dict(setitem=9, delitem=9, append=8, prepend=8, insert=10, extend=4, extend_self=.7, pop=6, remove=4,
               sort=2, reverse=2, clear=.4, iadd=3, iadd_self=.7, imul=1.5, badarith=1)
# non-mutating operations of a transient that give a new transient (checked as reads)
def tr_add(env):
    xs = env.some(); k = env.rng.randrange(3)
    ys = env.wraps(xs) if not env.lazies or k == 0 else xs
    other = (list, plist, tlist)[k](ys)
    return (lambda t: list(t + other)), (lambda l: l + xs), ('add', ('list', 'plist', 'tlist')[k], xs)
def tr_radd(env):
    xs = env.some(); ys = env.wraps(xs)
    return (lambda t: list(ys + t)), (lambda l: xs + l), ('radd', xs)
def tr_mul(env):
    k = env.rng.choice((-1, 0, 1, 2, 3))
    if env.rng.random() < .5: return (lambda t: list(t * k)), (lambda l: l * k), ('mul', k)
    return (lambda t: list(k * t)), (lambda l: k * l), ('rmul', k)
def tr_copy(env):
    return (lambda t: list(t.copy())), (lambda l: l.copy()), ('copy',)
def tr_persistent(env):
    return (lambda t: list(t.persistent())), (lambda l: list(l)), ('persistent',)
SEQ_TR = dict(SEQ_R, add=tr_add, radd=tr_radd, mul=tr_mul, copy=tr_copy, persistent=tr_persistent)
SEQ_TR_W = dict(SEQ_R_W, add=2, radd=2, mul=2, copy=2, persistent=3)


# =============================================================================== sets
SETMAKERS = ('set', 'frozenset', 'pset', 'tset', 'keys', 'pkeys', 'tkeys')
def mkset(kind, xs):
    if kind == 'set': return set(xs)
    if kind == 'frozenset': return frozenset(xs)
    if kind == 'pset': return pset(xs)
    if kind == 'tset': return tset(xs)
    if kind == 'keys': return dict.fromkeys(xs).keys()
    if kind == 'pkeys': return pdict((x, None) for x in xs).keys()
    return tdict((x, None) for x in xs).keys()
def operand(env, hi=8):
    """(subject operand, model operand, label): a set of any type, biased to overlap the receiver."""
    r = env.rng
    xs = [env.member() for _ in range(many(r, (0, 1, 2, 3, hi)))]
    if env.n and r.random() < .15: xs = list(env.model)
    if env.n and r.random() < .1: xs = list(env.model)[:-1]
    if r.random() < .1: xs = list(env.model) + [env.elem()]
    k = r.choice(SETMAKERS)
    return mkset(k, xs), set(xs), (k, xs)
TEXTS = ('a', 'ab', 'abcab', 'aab b', 'baab')
def oddshape(r):
    """An iterable of a builtin type for which `in`, len or + mean something else than for a list of its elements."""
    k = r.randrange(9)
    if k == 0: t = r.choice(TEXTS); return (lambda: t), list(t), 'str'
    if k == 1: t = r.choice(TEXTS).encode(); return (lambda: t), list(t), 'bytes'
    if k == 2: t = r.choice(TEXTS).encode(); return (lambda: bytearray(t)), list(t), 'bytearray'
    if k == 3: g = range(r.randrange(-3, 3), r.choice((3, 9, 50)), r.choice((1, 2, 3))); return (lambda: g), list(g), 'range'
    xs = [r.choice(TEXTS + (97, 98, 0, 1, True, 'b')) for _ in range(many(r, (0, 1, 3, 8)))]
    if k == 4: return (lambda: collections.deque(xs)), xs, 'deque'
    if k == 5: ys = [x for x in xs if isinstance(x, int)]; return (lambda: array.array('i', ys)), [int(y) for y in ys], 'array'
    if k == 6: xs = list(dict.fromkeys(xs)); return (lambda: dict.fromkeys(xs)), xs, 'dict'
    if k == 7: return (lambda: dict(enumerate(xs)).values()), xs, 'values'
    return (lambda: list(xs)), xs, 'list'
def elements(env):
    r = env.rng
    if r.random() < .06:
        mk, xs, sh = oddshape(r)
        return mk(), xs, (sh, xs)
    xs = [env.member() if r.random() < .5 else env.elem() for _ in range(many(r, (0, 1, 2, 3, 8)))]
    if env.n and r.random() < .04: xs += list(env.model)[:200] * 2; r.shuffle(xs)
    if r.random() < .3:
        k = r.choice(SETMAKERS); return mkset(k, xs), list(xs), (k, xs)
    a, b, shape = iterable_shapes(r, xs)
    return a, xs, (shape, xs)

def s_add(env):
    x = env.elem() if env.rng.random() < .7 else env.member()
    if env.rng.random() < .03: x = env.rng.choice(TEXTS)
    def m(s): s.add(x); return NOTHING, s
    return (lambda p: (NOTHING, p.add(x))), m, ('add', x)
def s_discard(env):
    x = env.member()
    def m(s): s.discard(x); return NOTHING, s
    return (lambda p: (NOTHING, p.discard(x))), m, ('discard', x)
def s_remove(env):
    x = env.member()
    def m(s): s.remove(x); return NOTHING, s
    return (lambda p: (NOTHING, p.remove(x))), m, ('remove', x)
def s_addall(env):
    a, xs, lab = elements(env)
    def m(s): s.update(xs); return NOTHING, s
    return (lambda p: (NOTHING, p.addall(a))), m, ('addall', lab)
def s_discardall(env):
    a, xs, lab = elements(env)
    def m(s): s.difference_update(xs); return NOTHING, s
    return (lambda p: (NOTHING, p.discardall(a))), m, ('discardall', lab)
def s_removeall(env):
    mem = list(env.model); env.rng.shuffle(mem)
    xs = mem[:env.rng.randrange(0, len(mem) + 1)]
    a, _, shape = iterable_shapes(env.rng, xs)
    def m(s): s.difference_update(xs); return NOTHING, s
    return (lambda p: (NOTHING, p.removeall(a))), m, ('removeall', shape, xs)
def s_pop(env):
    def m(s):
        if not s: raise KeyError
        return POPPED, s
    return (lambda p: p.pop()), m, ('pop',)
def s_clear(env):
    return (lambda p: (NOTHING, p.clear())), (lambda s: (NOTHING, set())), ('clear',)
def _set_method(name):
    def g(env):
        if name == 'symmetric_difference': k = 1
        else: k = arity(env.rng, (0, 1, 1, 1, 2, 3))
        args = [elements(env) if env.rng.random() < .5 else operand(env) for _ in range(k)]
        sa = [a[0] for a in args]; ma = [a[1] for a in args]
        return ((lambda p: (NOTHING, getattr(p, name)(*sa))), (lambda s: (NOTHING, getattr(s, name)(*ma))),
                (name, [a[2] for a in args]))
    return g
def _set_op(sym):
    import operator
    f = {'|': operator.or_, '&': operator.and_, '-': operator.sub, '^': operator.xor}[sym]
    def g(env):
        o, mo, lab = operand(env)
        return (lambda p: (NOTHING, f(p, o))), (lambda s: (NOTHING, f(s, mo))), (sym, lab)
    def rg(env):
        o, mo, lab = operand(env)
        return (lambda p: (NOTHING, FOREIGN(f(o, p)))), (lambda s: (NOTHING, f(mo, s))), ('r' + sym, lab)
    def sg(env):
        return (lambda p: (NOTHING, f(p, p))), (lambda s: (NOTHING, f(s, set(s)))), (sym + 'self',)
    return g, rg, sg
def nonset(env):
    """An operand that is no set: the binary operators reject it, as set's do."""
    xs = [env.member() for _ in range(env.rng.choice((0, 1, 2, 3)))]
    k = env.rng.choice(('list', 'tuple', 'plist', 'tlist', 'iter', 'None', 'str', 'dict', 'pdict', 'int'))
    return dict(list=list, tuple=tuple, plist=plist, tlist=tlist, iter=iter, str=lambda _: 'ab', dict=dict.fromkeys, int=len,
                pdict=lambda x: pdict(dict.fromkeys(x)))[k](xs) if k != 'None' else None, (k, xs)
def s_opbad(env):
    import operator
    o, lab = nonset(env)
    f = env.rng.choice((operator.or_, operator.and_, operator.sub, operator.xor)); r = env.rng.random() < .3
    mo = object()
    return ((lambda p: (NOTHING, f(o, p) if r else f(p, o))), (lambda s: (NOTHING, f(mo, s) if r else f(s, mo))),
            (('r-' if r else '') + f.__name__ + '-nonset', lab))
class FOREIGN:
    """A result whose type is decided by the other operand: content is checked, the history does not continue."""
    def __init__(self, obj): self.obj = obj
class _P:
    def __repr__(self): return 'POPPED'
POPPED = _P()
def s_copy(env):
    return (lambda p: (NOTHING, p.copy())), (lambda s: (NOTHING, s)), ('copy',)
def s_roundtrip(env):
    return (lambda p: (NOTHING, p.transient().persistent())), (lambda s: (NOTHING, s)), ('transient-persistent',)
def s_rebuild(env):
    k = env.rng.randrange(5)
    def f(p):
        c = type(p)
        return NOTHING, (c(p), c(list(p)), c(x for x in p), c(p.transient()), c(frozenset(p)))[k]
    return f, (lambda s: (NOTHING, s)), ('rebuild', k)
SET_P = dict(add=s_add, discard=s_discard, remove=s_remove, addall=s_addall, discardall=s_discardall,
             removeall=s_removeall, pop=s_pop, clear=s_clear, copy=s_copy, roundtrip=s_roundtrip, rebuild=s_rebuild,
             union=_set_method('union'), intersection=_set_method('intersection'),
             difference=_set_method('difference'), symmetric_difference=_set_method('symmetric_difference'), opbad=s_opbad)
SET_P_W = dict(add=12, discard=8, remove=5, addall=4, discardall=3, removeall=2, pop=3, clear=.4, copy=.5, roundtrip=2,
               rebuild=1.5, union=2, intersection=2, difference=2, symmetric_difference=2, opbad=1)
for _s in '|&-^':
    a, b, c = _set_op(_s)
    SET_P[_s] = a; SET_P['r' + _s] = b; SET_P[_s + 'self'] = c
    SET_P_W[_s] = 2; SET_P_W['r' + _s] = 1.5; SET_P_W[_s + 'self'] = .4

def sr_in(env):
    x = env.member() if env.rng.random() < .7 else env.elem()
    return (lambda p: x in p), (lambda s: x in s), ('in', x)
def sr_len(env):
    return (lambda p: (len(p), bool(p))), (lambda s: (len(s), bool(s))), ('len',)
def sr_iter(env):
    return (lambda p: SetContent(p)), (lambda s: SetContent(s)), ('iter',)
class SetContent:
    """Iterated content of a set: how many elements were yielded, and which."""
    def __init__(self, it):
        xs = list(iter(it)); self.n = len(xs); self.s = frozenset(xs)
    def __eq__(self, o): return self.n == o.n and self.s == o.s
    def __repr__(self): return f'SetContent({self.n}, {set(self.s)!r})'
SET_R = dict(temps=sr_temps, contains=sr_in, len=sr_len, iter=sr_iter)
SET_R_W = dict(temps=1, contains=10, len=2, iter=3)

# transient sets
def ts_add(env):
    x = env.elem() if env.rng.random() < .7 else env.member()
    if env.rng.random() < .03: x = env.rng.choice(TEXTS)
    return (lambda t: t.add(x)), (lambda s: s.add(x)), ('add', x)
def ts_discard(env):
    x = env.member()
    return (lambda t: t.discard(x)), (lambda s: s.discard(x)), ('discard', x)
def ts_remove(env):
    x = env.member()
    return (lambda t: t.remove(x)), (lambda s: s.remove(x)), ('remove', x)
def ts_addall(env):
    a, xs, lab = elements(env)
    def m(s): s.update(xs)
    return (lambda t: t.addall(a)), m, ('addall', lab)
def ts_discardall(env):
    a, xs, lab = elements(env)
    def m(s): s.difference_update(xs)
    return (lambda t: t.discardall(a)), m, ('discardall', lab)
def ts_removeall(env):
    mem = list(env.model); env.rng.shuffle(mem)
    xs = mem[:env.rng.randrange(0, len(mem) + 1)]
    a, _, shape = iterable_shapes(env.rng, xs)
    def m(s): s.difference_update(xs)
    return (lambda t: t.removeall(a)), m, ('removeall', shape, xs)
def ts_pop(env):
    def m(s):
        if not s: raise KeyError
        return POPPED
    return (lambda t: t.pop()), m, ('pop',)
def ts_clear(env):
    return (lambda t: t.clear()), (lambda s: s.clear()), ('clear',)
def _tset_update(name, model_name=None):
    def g(env):
        if name.startswith('symmetric'): k = 1
        else: k = arity(env.rng, (0, 1, 1, 1, 2, 3))
        args = [elements(env) if env.rng.random() < .5 else operand(env) for _ in range(k)]
        sa = [a[0] for a in args]; ma = [a[1] for a in args]
        return ((lambda t: getattr(t, name)(*sa)), (lambda s: getattr(s, name)(*ma)), (name, [a[2] for a in args]))
    return g
def _tset_iop(sym):
    import operator
    f = {'|=': operator.ior, '&=': operator.iand, '-=': operator.isub, '^=': operator.ixor}[sym]
    def g(env):
        o, mo, lab = operand(env)
        return (lambda t: f(t, o) is t), (lambda s: f(s, mo) is s), (sym, lab)
    def sg(env):
        return (lambda t: f(t, t) is t), (lambda s: f(s, s) is s), (sym + 'self',)
    return g, sg
def ts_iopbad(env):
    import operator
    o, lab = nonset(env); mo = object()
    f = env.rng.choice((operator.ior, operator.iand, operator.isub, operator.ixor))
    return (lambda t: f(t, o) is t), (lambda s: f(s, mo) is s), (f.__name__ + '-nonset', lab)
_SELFALL = dict(addall='update', discardall='difference_update', removeall='difference_update')
def _tset_selfall(name):
    def g(env):
        return (lambda t: getattr(t, name)(t)), (lambda s: getattr(s, _SELFALL[name])(set(s))), (name + '_self',)
    return g
def _tset_self(name):
    def g(env):
        return (lambda t: getattr(t, name)(t)), (lambda s: getattr(s, name)(set(s))), (name + '_self',)
    return g
SET_T = dict(add=ts_add, discard=ts_discard, remove=ts_remove, addall=ts_addall, discardall=ts_discardall,
             removeall=ts_removeall, pop=ts_pop, clear=ts_clear, update=_tset_update('update'),
             intersection_update=_tset_update('intersection_update'),
             difference_update=_tset_update('difference_update'),
             symmetric_difference_update=_tset_update('symmetric_difference_update'),
             update_self=_tset_self('update'), intersection_update_self=_tset_self('intersection_update'),
             difference_update_self=_tset_self('difference_update'),
             symmetric_difference_update_self=_tset_self('symmetric_difference_update'), iopbad=ts_iopbad,
             addall_self=_tset_selfall('addall'), discardall_self=_tset_selfall('discardall'),
             removeall_self=_tset_selfall('removeall'))
SET_T_W = dict(add=14, discard=9, remove=5, addall=4, discardall=3, removeall=2, pop=3, clear=.4, update=2,
               intersection_update=1.5, difference_update=2, symmetric_difference_update=2, update_self=.3,
               intersection_update_self=.3, difference_update_self=.3, symmetric_difference_update_self=.3, iopbad=1,
               addall_self=.3, discardall_self=.3, removeall_self=.3)
for _s in ('|=', '&=', '-=', '^='):
    a, b = _tset_iop(_s)
    SET_T[_s] = a; SET_T[_s + 'self'] = b
    SET_T_W[_s] = 2; SET_T_W[_s + 'self'] = .4
def _as_read(gen):
    def g(env):
        s, m, lab = gen(env)
        def sf(t):
            r = s(t)[1]
            if isinstance(r, FOREIGN): r = r.obj
            return SetContent(r)
        return sf, (lambda x: SetContent(m(set(x))[1])), lab
    return g
SET_TR = dict(SET_R)
SET_TR_W = dict(SET_R_W)
for _n in ('union', 'intersection', 'difference', 'symmetric_difference', '|', '&', '-', '^', 'r|', 'r&', 'r-', 'r^',
           '|self', '&self', '-self', '^self', 'opbad'):
    SET_TR[_n] = _as_read(SET_P[_n]); SET_TR_W[_n] = 1
SET_TR['copy'] = lambda env: ((lambda t: SetContent(t.copy())), (lambda s: SetContent(s)), ('copy',))
SET_TR['persistent'] = lambda env: ((lambda t: SetContent(t.persistent())), (lambda s: SetContent(s)), ('persistent',))
SET_TR_W.update(copy=2, persistent=3)


# =============================================================================== mappings
class KeysObj:
    """Not a Mapping, but has keys() and item access (accepted by dict)."""
    def __init__(self, d): self.d = dict(d)
    def keys(self): return list(self.d.keys())
    def __getitem__(self, k): return self.d[k]
def mapping_arg(env, hi=6):
    """(subject argument, list of pairs for the model, label)"""
    r = env.rng
    pairs = [(env.member() if r.random() < .4 else env.key(), env.elem()) for _ in range(many(r, (0, 1, 2, 3, hi)))]
    sp = [(k, env.wrap(v)) for k, v in pairs]
    k = r.randrange(9)
    names = ('dict', 'pairs', 'tuples', 'gen', 'pdict', 'tdict', 'lists', 'items', 'keysobj')
    if env.lazies and k in (4, 5): k = 0          # a plain collection would hand over raw lazies; that is C13's subject
    a = (lambda: dict(sp), lambda: list(sp), lambda: tuple(sp), lambda: (p for p in sp), lambda: pdict(sp),
         lambda: tdict(sp), lambda: [list(p) for p in sp], lambda: dict(sp).items(), lambda: KeysObj(sp))[k]()
    if k in (0, 4, 5, 7, 8): pairs = list(dict(pairs).items())
    return a, pairs, (names[k], pairs)
def d_set(env):
    k = env.key() if env.rng.random() < .6 else env.member(); v = env.elem(); w = env.wrap(v)
    def m(d): d[k] = v; return NOTHING, d
    return (lambda p: (NOTHING, p.set(k, w))), m, ('set', k, v)
def d_setdefault(env):
    k = env.key() if env.rng.random() < .5 else env.member(); v = env.elem(); w = env.wrap(v)
    def m(d): d.setdefault(k, v); return NOTHING, d
    if env.rng.random() < .2:
        def m(d): d.setdefault(k); return NOTHING, d
        return (lambda p: (NOTHING, p.setdefault(k))), m, ('setdefault', k)
    return (lambda p: (NOTHING, p.setdefault(k, w))), m, ('setdefault', k, v)
def d_setall(env):
    pairs = [(env.member() if env.rng.random() < .4 else env.key(), env.elem()) for _ in range(many(env.rng, (0, 1, 2, 3, 7)))]
    ks = [k for k, _ in pairs]; vs = [env.wrap(v) for _, v in pairs]
    if env.rng.random() < .15: vs += [env.elem() for _ in range(3)]
    elif env.rng.random() < .2: vs = vs[:-1]; pairs = pairs[:-1] if pairs else pairs
    a, _, sh = iterable_shapes(env.rng, ks)
    def m(d):
        d.update(pairs); return NOTHING, d
    return (lambda p: (NOTHING, p.setall(a, iter(vs)))), m, ('setall', sh, pairs)
def d_update(env):
    args = [mapping_arg(env) for _ in range(arity(env.rng, (0, 1, 1, 1, 2)))]
    kw = {n: env.elem() for n in env.rng.sample(('a', 'b', 'key', 's1', 's2', 'self', 'cls'), env.rng.choice((0, 0, 1, 2)))}
    kww = {n: env.wrap(v) for n, v in kw.items()}
    def m(d):
        for a in args: d.update(a[1])
        d.update(**kw); return NOTHING, d
    return (lambda p: (NOTHING, p.update(*[a[0] for a in args], **kww))), m, ('update', [a[2] for a in args], kw)
def d_drop(env):
    k = env.member()
    def m(d): d.pop(k, None); return NOTHING, d
    return (lambda p: (NOTHING, p.drop(k))), m, ('drop', k)
def d_dropall(env):
    ks = [env.member() for _ in range(many(env.rng, (0, 1, 2, 4)))]; a, _, sh = iterable_shapes(env.rng, ks)
    if env.rng.random() < .06: mk, ks, sh = oddshape(env.rng); a = mk()
    def m(d):
        for k in ks: d.pop(k, None)
        return NOTHING, d
    return (lambda p: (NOTHING, p.dropall(a))), m, ('dropall', sh, ks)
def d_delete(env):
    k = env.member()
    def m(d): del d[k]; return NOTHING, d
    return (lambda p: (NOTHING, p.delete(k))), m, ('delete', k)
def d_deleteall(env):
    mem = list(env.model); env.rng.shuffle(mem); ks = mem[:env.rng.randrange(0, len(mem) + 1)]
    if env.rng.random() < .15: ks.append(env.key())
    a, _, sh = iterable_shapes(env.rng, ks)
    def m(d):
        for k in ks: del d[k]
        return NOTHING, d
    return (lambda p: (NOTHING, p.deleteall(a))), m, ('deleteall', sh, ks)
def d_pop(env):
    k = env.member()
    if env.rng.random() < .5:
        df = env.elem()
        def m(d): v = d.pop(k, df); return v, d
        return (lambda p: p.pop(k, df)), m, ('pop', k, df)
    def m(d): v = d.pop(k); return v, d
    return (lambda p: p.pop(k)), m, ('pop', k)
def d_popitem(env):
    def m(d):
        if not d: raise KeyError
        return POPPED, d
    return (lambda p: p.popitem()), m, ('popitem',)
def d_clear(env):
    return (lambda p: (NOTHING, p.clear())), (lambda d: (NOTHING, {})), ('clear',)
def d_copy(env):
    return (lambda p: (NOTHING, p.copy())), (lambda d: (NOTHING, d)), ('copy',)
def d_roundtrip(env):
    return (lambda p: (NOTHING, p.transient().persistent())), (lambda d: (NOTHING, d)), ('transient-persistent',)
def d_rebuild(env):
    k = env.rng.randrange(5)
    def f(p):
        c = type(p)
        return NOTHING, (lambda: c(p), lambda: c(dict(p.items())), lambda: c(p.items()), lambda: c(p.transient()),
                         lambda: c(kv for kv in p.items()))[k]()
    return f, (lambda d: (NOTHING, d)), ('rebuild', k)
MAP_P = dict(set=d_set, setdefault=d_setdefault, setall=d_setall, update=d_update, drop=d_drop, dropall=d_dropall,
             delete=d_delete, deleteall=d_deleteall, pop=d_pop, popitem=d_popitem, clear=d_clear, copy=d_copy,
             roundtrip=d_roundtrip, rebuild=d_rebuild)
MAP_P_W = dict(set=16, setdefault=4, setall=3, update=5, drop=8, dropall=2, delete=5, deleteall=2, pop=6, popitem=3,
               clear=.4, copy=.5, roundtrip=2, rebuild=1.5)

def dr_get(env):
    k = env.member()
    return (lambda p: p[k]), (lambda d: d[k]), ('getitem', k)
def dr_getd(env):
    k = env.member()
    if env.rng.random() < .4: return (lambda p: p.get(k)), (lambda d: d.get(k)), ('get', k)
    df = env.elem()
    return (lambda p: p.get(k, df)), (lambda d: d.get(k, df)), ('get', k, df)
def dr_in(env):
    k = env.member()
    return (lambda p: k in p), (lambda d: k in d), ('in', k)
def dr_len(env): return (lambda p: (len(p), bool(p))), (lambda d: (len(d), bool(d))), ('len',)
def dr_iter(env): return (lambda p: EqList(iter(p))), (lambda d: EqList(iter(d))), ('iter',)
def dr_rev(env): return (lambda p: EqList(reversed(p))), (lambda d: EqList(reversed(d))), ('reversed',)
def dr_keys(env): return (lambda p: EqList(p.keys())), (lambda d: EqList(d.keys())), ('keys',)
def dr_values(env): return (lambda p: list(p.values())), (lambda d: list(d.values())), ('values',)
def dr_items(env): return (lambda p: Items(p.items())), (lambda d: Items(d.items())), ('items',)
def dr_revv(env):
    k = env.rng.randrange(3)
    if k == 0: return (lambda p: EqList(reversed(p.keys()))), (lambda d: EqList(reversed(d.keys()))), ('rkeys',)
    if k == 1: return (lambda p: list(reversed(p.values()))), (lambda d: list(reversed(d.values()))), ('rvalues',)
    return (lambda p: Items(reversed(p.items()))), (lambda d: Items(reversed(d.items()))), ('ritems',)
def dr_inviews(env):
    q = env.rng.randrange(3); k = env.member(); v = env.elem()
    if env.n and env.rng.random() < .5: v = env.rng.choice(list(env.model.values()))
    if q == 0: return (lambda p: k in p.keys()), (lambda d: k in d.keys()), ('in keys', k)
    if q == 1: return (lambda p: v in p.values()), (lambda d: v in d.values()), ('in values', v)
    return (lambda p: (k, v) in p.items()), (lambda d: (k, v) in d.items()), ('in items', k, v)
def dr_viewlens(env):
    return ((lambda p: (len(p.keys()), len(p.values()), len(p.items()))),
            (lambda d: (len(d), len(d), len(d))), ('view lens',))
def dr_dict(env): return (lambda p: Items(dict(p).items())), (lambda d: Items(d.items())), ('dict()',)
class NS: pass
def dr_star(env):
    w = env.rng.randrange(6); k = env.member()
    if w == 0: f = lambda d: Items({**d}.items())
    elif w == 1:
        def f(d):
            n = NS(); n.k = k
            match d:
                case {n.k: v, **rest}: return Items([(k, v), *rest.items()])
                case {**rest}: return Items(rest.items())
                case _: return 'no mapping'
    elif w == 2: f = lambda d: Items((x, d[x]) for x in d)
    elif w == 3: f = lambda d: Items((x, v) for x, v, (y, u) in zip(d.keys(), d.values(), d.items()) if u is v)
    elif w == 4: f = lambda d: Items((x, d.get(x)) for x in reversed(list(d.keys())))
    else: f = lambda d: Items(zip(d, d.values()))
    return f, f, ('{**}', w, k)
class EqList:
    """List compared element-wise by identity or equality (keys: which equal key object is kept is not claimed)."""
    def __init__(self, it): self.xs = list(it)
    def __eq__(self, o): return self.xs == o.xs
    def __repr__(self): return f'EqList({self.xs!r})'
class Items:
    """Pairs: keys by equality, values by identity (value identity is compared by the engine's `same`)."""
    def __init__(self, it):
        self.kv = [tuple(p) for p in it]
    def __eq__(self, o):
        return ([k for k, _ in self.kv] == [k for k, _ in o.kv]
                and all(SAME(a, b) for (_, a), (_, b) in zip(self.kv, o.kv)))
    def __repr__(self): return f'Items({self.kv!r})'
def SAME(a, b): return a is b or (type(a) is type(b) and a == b)
MAP_R = dict(temps=dr_temps, get=dr_get, getd=dr_getd, contains=dr_in, len=dr_len, iter=dr_iter, reversed=dr_rev, keys=dr_keys,
             values=dr_values, items=dr_items, revviews=dr_revv, inviews=dr_inviews, viewlens=dr_viewlens,
             dict=dr_dict, star=dr_star)
MAP_R_W = dict(temps=2, get=8, getd=6, contains=5, len=2, iter=3, reversed=2, keys=2, values=3, items=3, revviews=2, inviews=4,
               viewlens=1, dict=1, star=1)

def td_set(env):
    k = env.key() if env.rng.random() < .6 else env.member(); v = env.elem(); w = env.wrap(v)
    def s(t): t[k] = w; return NOTHING
    def m(d): d[k] = v; return NOTHING
    return s, m, ('setitem', k, v)
def td_del(env):
    k = env.member()
    def s(t): del t[k]; return NOTHING
    return s, s, ('delitem', k)
def td_update(env):
    args = [mapping_arg(env) for _ in range(arity(env.rng, (0, 1, 1, 1, 2)))]
    kw = {n: env.elem() for n in env.rng.sample(('a', 'b', 'key', 's1', 's2', 'self', 'cls'), env.rng.choice((0, 0, 1, 2)))}
    kww = {n: env.wrap(v) for n, v in kw.items()}
    def m(d):
        for a in args: d.update(a[1])
        d.update(**kw)
    return (lambda t: t.update(*[a[0] for a in args], **kww)), m, ('update', [a[2] for a in args], kw)
def td_update_self(env):
    return (lambda t: t.update(t)), (lambda d: d.update(d)), ('update_self',)
def td_setdefault(env):
    k = env.key() if env.rng.random() < .5 else env.member()
    if env.rng.random() < .2: return (lambda t: t.setdefault(k)), (lambda d: d.setdefault(k)), ('setdefault', k)
    v = env.elem(); w = env.wrap(v) if not env.lazies else v
    return (lambda t: t.setdefault(k, w)), (lambda d: d.setdefault(k, v)), ('setdefault', k, v)
def td_pop(env):
    k = env.member()
    if env.rng.random() < .5:
        df = env.elem()
        return (lambda t: t.pop(k, df)), (lambda d: d.pop(k, df)), ('pop', k, df)
    return (lambda t: t.pop(k)), (lambda d: d.pop(k)), ('pop', k)
def td_popitem(env):
    def m(d):
        if not d: raise KeyError
        return POPPED
    return (lambda t: t.popitem()), m, ('popitem',)
def td_clear(env): return (lambda t: t.clear()), (lambda d: d.clear()), ('clear',)
MAP_T = dict(setitem=td_set, delitem=td_del, update=td_update, update_self=td_update_self, setdefault=td_setdefault,
             pop=td_pop, popitem=td_popitem, clear=td_clear)
MAP_T_W = dict(setitem=16, delitem=9, update=5, update_self=.4, setdefault=4, pop=7, popitem=3, clear=.5)
MAP_TR = dict(MAP_R,
              copy=lambda env: ((lambda t: Items(t.copy().items())), (lambda d: Items(d.items())), ('copy',)),
              persistent=lambda env: ((lambda t: Items(t.persistent().items())), (lambda d: Items(d.items())), ('persistent',)))
MAP_TR_W = dict(MAP_R_W, copy=2, persistent=3)


KINDS = {
    # kind: (family, persistent?, constructor, edits, weights, reads, weights)
    'plist':  ('seq', True,  plist,  SEQ_P, SEQ_P_W, SEQ_R, SEQ_R_W),
    'llist':  ('seq', True,  llist,  SEQ_P, SEQ_P_W, SEQ_R, SEQ_R_W),
    'tlist':  ('seq', False, tlist,  SEQ_T, SEQ_T_W, SEQ_TR, SEQ_TR_W),
    'tllist': ('seq', False, tllist, SEQ_T, SEQ_T_W, SEQ_TR, SEQ_TR_W),
    'pset':   ('set', True,  pset,   SET_P, SET_P_W, SET_R, SET_R_W),
    'tset':   ('set', False, tset,   SET_T, SET_T_W, SET_TR, SET_TR_W),
    'pdict':  ('map', True,  pdict,  MAP_P, MAP_P_W, MAP_R, MAP_R_W),
    'ldict':  ('map', True,  ldict,  MAP_P, MAP_P_W, MAP_R, MAP_R_W),
    'tdict':  ('map', False, tdict,  MAP_T, MAP_T_W, MAP_TR, MAP_TR_W),
    'tldict': ('map', False, tldict, MAP_T, MAP_T_W, MAP_TR, MAP_TR_W),
}

"""Evaluation log: which operation evaluated which lazy element, and which raw objects a lazy collection stores."""
from ..core import Violation, short
from ..engine import churned
from pcollections import plist, tlist, llist, tllist, pdict, tdict, ldict, tldict, lazy, holdlazy, pset
PROP = 'C13'
RULE = ('One case is a family of llist/tllist or ldict/tldict collections that share lazy elements, each with a model of the raw '
        'objects stored; every lazy logs its evaluation.  After every operation the log must have grown by nothing (structural '
        'operation) or by exactly the requested pending element (single read), and the raw objects read back with getlazy, as_* '
        'and holdlazy must be the stored ones.  Distinct are different (operation, type, size, evaluations).')
def plan(tier): return dict(cases=64000 if tier == 'quick' else 300000, deadline=300 if tier == 'quick' else 600)


class Log:
    def __init__(self, rng):
        self.rng = rng; self.ev = []; self.ids = {}; self.n = 0; self.done = set()
    def mk(self):
        """A raw entry: a lazy (pending or ready) or an ordinary value."""
        q = self.rng.random(); self.n += 1; i = self.n
        if q < .25: return ('plain', i)
        def f(i=i):
            self.ev.append(i); self.done.add(i); return ('value', i)
        l = lazy(f) if q < .6 else lazy(lambda a, k=0: f(k), None, k=i)
        self.ids[id(l)] = (i, l)
        if q > .9: l(); self.ev.pop()
        return l
    def val(self, raw):
        return ('value', self.ids[id(raw)][0]) if isinstance(raw, lazy) else raw
    def pend(self, raw):
        """What reading this entry must log."""
        return [self.ids[id(raw)][0]] if isinstance(raw, lazy) and self.ids[id(raw)][0] not in self.done else []


def run_case(case):
    (run_seq if case.index % 2 else run_map)(case)
    if case.sample is None: case.sample = [short(x, 150) for x in case.log[:8]]


class M:
    def __init__(self, obj, raw, name): self.obj, self.raw, self.name = obj, raw, name


def fail(o, key, msg, **d): raise Violation(f'{type(o).__name__}:{key}', msg, **d)


def guarded(case, log, lab, obj, f, want_ev, kind='structural'):
    """Runs f, demands exactly the given evaluations.  Returns (value, error)."""
    n = len(log.ev)
    case.op(*lab)
    c = case.count
    c['evaluations'] += 1; c[kind] += 1; c['op:' + str(lab[1])] += 1
    try: r, e = f(), None
    except Exception as x: r, e = None, x
    new = log.ev[n:]
    case.sig(lab[1], type(obj).__name__, len(want_ev), bool(e))
    if e is None and new != want_ev:
        fail(obj, f'{lab[1]}:evaluates', f'{short(lab)} on a {type(obj).__name__} evaluated {new}, it may evaluate exactly {want_ev}',
             log=log.ev[-20:])
    if e is not None and new and new != want_ev:
        fail(obj, f'{lab[1]}:evaluates', f'{short(lab)} on a {type(obj).__name__} raised {e!r} and evaluated {new}')
    c['lazies_evaluated'] += len(new)
    return r, e


def check_raw(case, log, m, lab):
    """getlazy gives back every stored raw object (by identity), nothing is evaluated, is_ready is truthful."""
    n = len(log.ev); o = m.obj
    seq = isinstance(m.raw, list)
    try:
        ln = len(o)
        got = [o.getlazy(i) for i in range(ln)] if seq else [(k, o.getlazy(k)) for k in o]
    except Exception as e:
        fail(o, 'getlazy:raises', f'getlazy after {short(lab)} raised {e!r}', raw=m.raw)
    want = m.raw if seq else list(m.raw.items())
    ok = len(got) == len(want) and all((a is b) if seq else (a[0] == b[0] and a[1] is b[1]) for a, b in zip(got, want))
    if not ok:
        fail(o, f'{lab[1]}:raw', f'after {short(lab)} the {type(o).__name__} does not store the expected raw objects', got=got, want=want)
    if not seq:                                           # a missing key: the default, as it is
        nope = object(); dl = lazy(lambda: log.ev.append('default'))
        for d in (nope, dl):
            if o.getlazy(nope, d) is not d: fail(o, 'getlazy:default', 'getlazy of a missing key does not return the default')
        if o.getlazy(nope) is not None: fail(o, 'getlazy:default', 'getlazy of a missing key does not return None')
    if hasattr(o, 'is_lazy'):
        for k, r in (enumerate(want) if seq else want):
            if o.is_lazy(k) is not isinstance(r, lazy):
                fail(o, 'is_lazy', f'is_lazy({k!r}) is {o.is_lazy(k)!r} for {short(r)}')
            ready = log.ids[id(r)][0] in log.done if isinstance(r, lazy) else True
            if o.is_ready(k) is not ready:
                fail(o, 'is_ready', f'is_ready({k!r}) is {o.is_ready(k)!r} for {short(r)}')
    if log.ev[n:]:
        fail(o, 'inspect:evaluates', f'getlazy/is_lazy/is_ready of a {type(o).__name__} evaluated {log.ev[n:]}')
    case.count['raw_checks'] += 1


def inspect(case, log, m):
    """Operations that may evaluate nothing."""
    rng = case.rng; o = m.obj; seq = isinstance(m.raw, list); T = type(o).__name__
    ops = [('len', lambda: len(o)), ('bool', lambda: bool(o)), ('copy', lambda: o.copy()), ('iter', lambda: iter(o)),
           ('make pair', lambda: o.transient() if hasattr(o, 'transient') else o.persistent()), ('dir', lambda: dir(o))]
    if T != 'tllist': ops += [('str', lambda: str(o)), ('repr', lambda: repr(o)), ('format', lambda: f'{o}')] * 2
    if seq: ops += [('reversed', lambda: reversed(o))]
    else:
        k = rng.choice(list(m.raw) + ['missing'])
        ops += [('keys', lambda: list(o.keys())), ('in', lambda: k in o), ('in keys', lambda: k in o.keys()), ('values', lambda: o.values()),
                ('items', lambda: o.items()), ('list', lambda: list(o)), ('len values', lambda: len(o.values())),
                ('len items', lambda: len(o.items())), ('reversed', lambda: list(reversed(o))), ('missing', lambda: o.get('missing')),
                ('iter values', lambda: iter(o.values())), ('iter items', lambda: iter(o.items())), ('not in', lambda: 'nope' not in o)]
    if T in ('llist', 'ldict', 'tldict'): ops += [('holdlazy', lambda: holdlazy(o)), ('holdlazy required', lambda: holdlazy(o, require_lazy=True))]
    ls = [x for x in (m.raw if seq else m.raw.values()) if isinstance(x, lazy)]
    if ls:
        l = rng.choice(ls)
        ops += [('str of lazy', lambda: type(str(l)) is str or 1 / 0), ('repr of lazy', lambda: type(repr(l)) is str or 1 / 0), ('format lazy', lambda: f'{l} {l!r}'),
                ('lazy.is_ready', lambda: l.is_ready()), ('print plist of lazies', lambda: str(plist(ls)) + repr(plist(ls))),
                ('hold a plain collection', lambda: hold_plain(rng.choice((ls, tuple(ls), {1: l}, plist(ls), tlist(ls), pdict({1: l}), tdict({1: l}), pset(ls), None, 5, 'x', l))))]
    ops.append(('hold an own class', lambda: hold_own(rng, o)))
    name, f = rng.choice(ops)
    r, e = guarded(case, log, (m.name, name, T), o, f, [], 'inspect')
    if e is not None: fail(o, f'{name}:raises', f'{name} of a {T} raised {e!r}')


class Holder:
    """A lazy collection of the user's own."""
    def __init__(self, held): self.held = held; self.calls = 0
    def __holdlazy__(self):
        self.calls += 1
        if isinstance(self.held, BaseException): raise self.held
        return self.held
class SubHolder(Holder): pass
def hold_own(rng, o):
    held = rng.choice((o, None, [], 0, AttributeError('inside'), TypeError('inside'), KeyError(1), RuntimeError()))
    h = rng.choice((Holder, SubHolder))(held); kw = rng.choice(({}, {'require_lazy': True}, {'require_lazy': False}))
    try: r = holdlazy(h, **kw)
    except Exception as e: r = e
    if r is not held: raise AssertionError(f'holdlazy of an object with its own __holdlazy__ gave {r!r}, not {held!r}')
    if h.calls != 1: raise AssertionError(f'holdlazy called the __holdlazy__ method {h.calls} times')


def hold_plain(x):
    if holdlazy(x) is not x: raise AssertionError('holdlazy of an object that is no lazy collection does not return the object')
    try: holdlazy(x, require_lazy=True)
    except TypeError: pass
    else: raise AssertionError('holdlazy with require_lazy raised no TypeError')


def run_seq(case):
    rng = case.rng; log = Log(rng)
    n = rng.choice((0, 1, 2, 3, 4, 6, 9)) if rng.random() < .95 else 40
    large = case.large(rng.random() < .001)
    if large: n = rng.choice((1501, 2001, 3100))
    raw = [log.mk() for _ in range(n)]
    src = rng.choice((lambda: raw, lambda: tuple(raw), lambda: plist(raw), lambda: tlist(raw), lambda: iter(raw)))()
    T = rng.choice((llist, tllist))
    o, e = guarded(case, log, ('#1', 'construct', T.__name__, type(src).__name__), T(), lambda: T(src), [])
    if e is not None: fail(T(), 'construct:raises', f'{T.__name__}({type(src).__name__}) raised {e!r}')
    if rng.random() < .08:                            # many elements came and went before; none of that reads an element either
        o, e = guarded(case, log, ('#1', 'churn', T.__name__), o, lambda: churned(o, 'seq', rng, rng.choice((3, 40, 600, 1100)) if rng.random() < .3 else None), [])
        if e is not None: fail(o, 'churn:raises', f'edits of a {T.__name__} raised {e!r}')
    pool = [M(o, list(raw), '#1')]; serial = 1
    check_raw(case, log, pool[0], ('#1', 'construct'))
    for step in range(rng.randrange(10, 40) if not large else 12):
        m = rng.choice(pool); o = m.obj; raw = m.raw; n = len(raw); pers = isinstance(o, llist)
        T = type(o).__name__
        q = rng.random()
        new = None; nraw = None; ev = []; kind = 'structural'; expect = None; lab = None
        i = rng.randrange(-n, n) if n else 0
        x = log.mk()
        if q < .45:                                       # structural
            if pers:
                k = rng.randrange(17)
                r = list(raw)
                if k == 0 and n: lab = 'set'; f = lambda: o.set(i, x); r[i] = x
                elif k == 1: lab = 'append'; f = lambda: o.append(x); r.append(x)
                elif k == 2: lab = 'prepend'; f = lambda: o.prepend(x); r.insert(0, x)
                elif k == 3: j = rng.randrange(-n - 1, n + 2); lab = 'insert'; f = lambda: o.insert(j, x); r.insert(j, x)
                elif k == 4 and n: lab = 'delete'; f = lambda: o.delete(i); del r[i]
                elif k == 5: lab = 'drop'; f = lambda: o.drop(i); r = r[:i % n] + r[i % n + 1:] if n else r
                elif k == 6: s = slice(*sorted((rng.randrange(-n, n + 1), rng.randrange(-n, n + 1))), rng.choice((None, 2, -1))); lab = 'slice'; f = lambda: o[s]; r = r[s]
                elif k == 7: lab = 'transient'; f = lambda: o.transient()
                elif k == 8: lab = 'tllist()'; f = lambda: tllist(o)
                elif k == 9: lab = 'llist()'; f = lambda: llist(o)
                elif k == 10: lab = 'as_plist'; f = lambda: llist(o.as_plist())
                elif k == 11: ys = [x, log.mk()]; lab = 'add'; f = lambda: o + ys; r = r + ys
                elif k == 12: ys = [x, log.mk()]; lab = 'extend'; f = lambda: o.extend(iter(ys)); r = r + ys
                elif k == 13: ys = [x, log.mk()]; lab = 'radd'; f = lambda: ys + o; r = ys + r
                elif k == 14: lab = 'copy'; f = lambda: o.copy()
                elif k == 15: lab = 'tlist(as_plist)'; f = lambda: tllist(tlist(o.as_plist()))
                elif k == 16: lab = 'clear'; f = lambda: o.clear(); r = []
                else: continue
                nraw = r
            else:
                k = rng.randrange(12)
                r = raw
                if k == 0 and n:
                    lab = 'setitem'
                    def f(): o[i] = x
                    r[i] = x
                elif k == 1: lab = 'append'; f = lambda: o.append(x); r.append(x)
                elif k == 2: lab = 'prepend'; f = lambda: o.prepend(x); r.insert(0, x)
                elif k == 3: j = rng.randrange(-n - 1, n + 2); lab = 'insert'; f = lambda: o.insert(j, x); r.insert(j, x)
                elif k == 4 and n:
                    lab = 'delitem'
                    def f(): del o[i]
                    del r[i]
                elif k == 5: lab = 'persistent'; f = lambda: o.persistent(); nraw = list(raw)
                elif k == 6: lab = 'llist()'; f = lambda: llist(o); nraw = list(raw)
                elif k == 7: lab = 'tllist()'; f = lambda: tllist(o); nraw = list(raw)
                elif k == 8: lab = 'copy'; f = lambda: o.copy(); nraw = list(raw)
                elif k == 9: ys = [x, log.mk()]; lab = 'extend'; f = lambda: o.extend(ys); r += ys
                elif k == 10:
                    ys = [x, log.mk()]; lab = 'iadd'
                    def f():
                        u = o; u += ys
                    r += ys
                elif k == 11 and rng.random() < .3: lab = 'clear'; f = lambda: o.clear(); r.clear()
                else: continue
            new, e = guarded(case, log, (m.name, lab, T, i), o, f, [])
            if e is not None: fail(o, f'{lab}:raises', f'{lab} on a {T} raised {e!r}', raw=raw)
            if nraw is None: new = None
        elif q < .75 and n:                               # single reads
            k = rng.randrange(8)
            if k in (0, 1): lab = 'getitem'; f = lambda: o[i]; expect = log.val(raw[i]); ev = log.pend(raw[i])
            elif k == 2: lab = 'next(iter)'; f = lambda: next(iter(o)); expect = log.val(raw[0]); ev = log.pend(raw[0])
            elif k == 3: lab = 'next(reversed)'; f = lambda: next(reversed(o)); expect = log.val(raw[-1]); ev = log.pend(raw[-1])
            elif k in (4, 5):                             # step by step
                it = iter(o) if k == 4 else reversed(o)
                order = raw if k == 4 else raw[::-1]
                for r in list(order[:rng.randrange(1, n + 1)]):
                    v, e = guarded(case, log, (m.name, 'next', T), o, lambda: next(it), log.pend(r), 'read')
                    if e is not None or v != log.val(r): fail(o, 'next:value', f'iteration gave {v!r} {e!r}, not {log.val(r)}')
                continue
            elif k == 6 and pers:
                ev = log.pend(raw[i])
                r, e = guarded(case, log, (m.name, 'pop', T, i), o, lambda: o.pop(i), ev, 'read')
                if e is not None: fail(o, 'pop:raises', f'pop raised {e!r}')
                if r[0] != log.val(raw[i]): fail(o, 'pop:value', f'pop gave {r[0]!r}')
                new = r[1]; nraw = list(raw); del nraw[i]; lab = None
            elif k == 6:
                ev = log.pend(raw[i]); want = log.val(raw[i])
                r, e = guarded(case, log, (m.name, 'pop', T, i), o, lambda: o.pop(i), ev, 'read')
                if e is not None or r != want: fail(o, 'pop:value', f'pop gave {r!r} {e!r}')
                del raw[i]
                check_raw(case, log, m, (m.name, 'pop'))
                continue
            else:
                lab = 'ready_all'
                if not pers: continue
                f = lambda: o.ready_all(); ev = []
                seen = set()
                for r in raw:
                    if id(r) not in seen and log.pend(r): ev += log.pend(r)
                    seen.add(id(r))
                k0 = len(log.ev)
                r, e = guarded2(case, log, (m.name, lab, T), o, f, ev)
                if e is not None: fail(o, 'ready_all:raises', f'ready_all raised {e!r}')
                if r is not o: fail(o, 'ready_all:value', 'ready_all does not return the list')
                for r in raw:
                    if isinstance(r, lazy) and not r.is_ready(): fail(o, 'ready_all', 'ready_all left an element pending')
                continue
            if lab:
                r, e = guarded(case, log, (m.name, lab, T, i), o, f, ev, 'read')
                if e is not None or r != expect: fail(o, f'{lab}:value', f'{lab} gave {r!r} {e!r}, not {expect}')
        else:
            inspect(case, log, m)
        if new is not None and isinstance(new, (llist, tllist)):
            serial += 1
            nm = M(new, nraw, f'#{serial}')
            if not any(p.obj is new for p in pool): pool.append(nm)
            check_raw(case, log, nm, (m.name, lab or 'pop'))
            if len(pool) > 6: pool.pop(rng.randrange(5))
        elif nraw is not None and new is not None:
            fail(o, f'{lab}:type', f'{lab} of a {T} gave a {type(new).__name__}')
        check_raw(case, log, m, (m.name, lab or 'read'))
        if pers and rng.random() < .15:
            for f, nm in ((lambda: o.as_plist(), 'as_plist'), (lambda: holdlazy(o), 'holdlazy')):
                p, e = guarded(case, log, (m.name, nm, T), o, f, [])
                if e is not None or type(p) is not plist or len(p) != len(m.raw) or not all(a is b for a, b in zip(p, m.raw)):
                    fail(o, nm, f'{nm} of an llist gave {short(p)} {e!r}', raw=m.raw)


def guarded2(case, log, lab, obj, f, want_ev):
    """Like guarded, but the order of evaluation is free."""
    n = len(log.ev); case.op(*lab); case.count['evaluations'] += 1; case.count['op:' + lab[1]] += 1
    try: r, e = f(), None
    except Exception as x: r, e = None, x
    new = log.ev[n:]
    if sorted(new) != sorted(want_ev):
        fail(obj, f'{lab[1]}:evaluates', f'{short(lab)} evaluated {new}, not {want_ev}')
    return r, e


def run_map(case):
    rng = case.rng; log = Log(rng)
    from ..values import HKS_ONE
    keys = rng.choice(([f'k{i}' for i in range(12)], HKS_ONE + [5, 'x'], list(range(10))))
    n = rng.choice((0, 1, 2, 3, 4, 6, 9))
    large = case.large(rng.random() < .001)
    if large: n = rng.choice((1501, 2001, 3100)); keys = list(range(n + 5))
    raw = {k: log.mk() for k in rng.sample(keys, min(n, len(keys)))}
    src = rng.choice((lambda: raw, lambda: list(raw.items()), lambda: pdict(raw), lambda: tdict(raw), lambda: iter(list(raw.items()))))()
    T = rng.choice((ldict, tldict))
    o, e = guarded(case, log, ('#1', 'construct', T.__name__, type(src).__name__), T(), lambda: T(src), [])
    if e is not None: fail(T(), 'construct:raises', f'{T.__name__}({type(src).__name__}) raised {e!r}')
    if rng.random() < .08:
        o, e = guarded(case, log, ('#1', 'churn', T.__name__), o, lambda: churned(o, 'map', rng), [])
        if e is not None: fail(o, 'churn:raises', f'edits of a {T.__name__} raised {e!r}')
    pool = [M(o, dict(raw), '#1')]; serial = 1
    check_raw(case, log, pool[0], ('#1', 'construct'))
    for step in range(rng.randrange(10, 40) if not large else 12):
        m = rng.choice(pool); o = m.obj; raw = m.raw; n = len(raw); pers = isinstance(o, ldict)
        T = type(o).__name__
        q = rng.random()
        new = None; nraw = None; lab = None
        present = rng.choice(list(raw)) if n else None
        key = rng.choice(keys); x = log.mk()
        if q < .45:
            if pers:
                k = rng.randrange(15); r = dict(raw)
                if k <= 1: lab = 'set'; f = lambda: o.set(key, x); r[key] = x
                elif k == 2 and n: lab = 'drop'; f = lambda: o.drop(present); del r[present]
                elif k == 3 and n: lab = 'delete'; f = lambda: o.delete(present); del r[present]
                elif k == 4: lab = 'transient'; f = lambda: o.transient()
                elif k == 5: lab = 'tldict()'; f = lambda: tldict(o)
                elif k == 6: lab = 'ldict()'; f = lambda: ldict(o)
                elif k == 7: lab = 'as_pdict'; f = lambda: ldict(o.as_pdict())
                elif k == 8: d = {key: x, 'z': log.mk()}; lab = 'update'; f = lambda: o.update(d); r.update(d)
                elif k == 9: lab = 'setall'; f = lambda: o.setall([key], [x]); r[key] = x
                elif k == 10: lab = 'dropall'; f = lambda: o.dropall([key]); r.pop(key, None)
                elif k == 11 and n: lab = 'deleteall'; f = lambda: o.deleteall([present]); r.pop(present)
                elif k == 12: lab = 'setdefault'; f = lambda: o.setdefault(key, x); r.setdefault(key, x)
                elif k == 13: lab = 'copy'; f = lambda: o.copy()
                elif k == 14 and rng.random() < .3: lab = 'clear'; f = lambda: o.clear(); r = {}
                else: continue
                nraw = r
            else:
                k = rng.randrange(11); r = raw
                if k <= 1:
                    lab = 'setitem'
                    def f(): o[key] = x
                    r[key] = x
                elif k == 2 and n:
                    lab = 'delitem'
                    def f(): del o[present]
                    del r[present]
                elif k == 3: lab = 'persistent'; f = lambda: o.persistent(); nraw = dict(raw)
                elif k == 4: lab = 'ldict()'; f = lambda: ldict(o); nraw = dict(raw)
                elif k == 5: lab = 'tldict()'; f = lambda: tldict(o); nraw = dict(raw)
                elif k == 6: lab = 'copy'; f = lambda: o.copy(); nraw = dict(raw)
                elif k == 7: lab = 'as_tdict'; f = lambda: tldict(o.as_tdict()); nraw = dict(raw)
                elif k == 8: d = {key: x, 'z': log.mk()}; lab = 'update'; f = lambda: o.update(d); r.update(d)
                elif k == 9: lab = 'update kw'; f = lambda: o.update(z=x); r['z'] = x
                elif k == 10 and rng.random() < .3: lab = 'clear'; f = lambda: o.clear(); r.clear()
                else: continue
            new, e = guarded(case, log, (m.name, lab, T, key), o, f, [])
            if e is not None: fail(o, f'{lab}:raises', f'{lab} on a {T} raised {e!r}', raw=raw)
            if nraw is None: new = None
        elif q < .75 and n:
            k = rng.randrange(11); pr = raw[present]
            first = next(iter(raw)); ev = log.pend(pr); want = log.val(pr)
            if k == 10:
                n0 = len(log.ev); was = {kk: log.pend(r) for kk, r in raw.items()}
                case.op(m.name, 'popitem'); case.count['op:popitem'] += 1; case.count['evaluations'] += 1
                try: kv = o.popitem()
                except Exception as e: fail(o, 'popitem:raises', f'popitem raised {e!r}')
                if pers: kv, new = kv
                kk, v = kv
                if log.ev[n0:] != was[kk]: fail(o, 'popitem:evaluates', f'popitem of {kk!r} evaluated {log.ev[n0:]}')
                if v != log.val(raw[kk]): fail(o, 'popitem:value', f'popitem gave {v!r}')
                if pers: nraw = dict(raw); del nraw[kk]; lab = None
                else: del raw[kk]
            elif k <= 1: lab = 'getitem'; f = lambda: o[present]
            elif k == 2: lab = 'get'; f = lambda: o.get(present, 0)
            elif k == 3: lab = 'next(values)'; f = lambda: next(iter(o.values())); ev = log.pend(raw[first]); want = log.val(raw[first])
            elif k == 4: lab = 'next(items)'; f = lambda: next(iter(o.items())); ev = log.pend(raw[first]); want = (first, log.val(raw[first]))
            elif k in (5, 6):
                it = iter(o.values()) if k == 5 else iter(o.items())
                for kk, r in list(raw.items())[:rng.randrange(1, n + 1)]:
                    v, e = guarded(case, log, (m.name, 'next', T), o, lambda: next(it), log.pend(r), 'read')
                    w = log.val(r) if k == 5 else (kk, log.val(r))
                    if e is not None or v != w: fail(o, 'next:value', f'iteration gave {v!r} {e!r}, not {w}')
                continue
            elif k == 7:
                r, e = guarded(case, log, (m.name, 'pop', T), o, lambda: o.pop(present), ev, 'read')
                v = r[0] if pers and e is None else r
                if e is not None or v != want: fail(o, 'pop:value', f'pop gave {v!r} {e!r}, not {want}')
                if pers: new = r[1]; nraw = dict(raw); del nraw[present]
                else: del raw[present]
                lab = None
            elif k == 8 and not pers:
                lab = 'setdefault'; f = lambda: o.setdefault(present, 0)
            elif k == 9:
                want_ev = []
                seen = set()
                for r in raw.values():
                    if id(r) not in seen: want_ev += log.pend(r)
                    seen.add(id(r))
                r, e = guarded2(case, log, (m.name, 'ready_all', T), o, lambda: o.ready_all(), want_ev)
                if e is not None: fail(o, 'ready_all:raises', f'ready_all raised {e!r}')
                if r is not o: fail(o, 'ready_all:value', 'ready_all does not return the dict')
                continue
            else: continue
            if lab:
                r, e = guarded(case, log, (m.name, lab, T, present), o, f, ev, 'read')
                if e is not None or r != want: fail(o, f'{lab}:value', f'{lab} gave {r!r} {e!r}, not {want}')
        else:
            inspect(case, log, m)
        if new is not None and isinstance(new, (ldict, tldict)):
            serial += 1
            nm = M(new, nraw, f'#{serial}')
            if not any(p.obj is new for p in pool): pool.append(nm)
            check_raw(case, log, nm, (m.name, lab or 'pop'))
            if len(pool) > 6: pool.pop(rng.randrange(5))
        elif nraw is not None and new is not None:
            fail(o, f'{lab}:type', f'{lab} of a {T} gave a {type(new).__name__}')
        check_raw(case, log, m, (m.name, lab or 'read'))
        if rng.random() < .15:
            g = ((lambda: o.as_pdict(), 'as_pdict', pdict), (lambda: holdlazy(o), 'holdlazy', pdict)) if pers else \
                ((lambda: o.as_tdict(), 'as_tdict', tdict), (lambda: holdlazy(o), 'holdlazy', tdict))
            for f, nm, tt in g:
                p, e = guarded(case, log, (m.name, nm, T), o, f, [])
                if e is not None or type(p) is not tt or len(p) != len(m.raw) or \
                        not all(a == b and x is y for (a, x), (b, y) in zip(p.items(), m.raw.items())):
                    fail(o, nm, f'{nm} of a {T} gave {short(p)} {e!r}', raw=m.raw)
MIN = {'large': 20, 'evaluations': 100000, 'structural': 50000, 'inspect': 25000, 'read': 40000, 'lazies_evaluated': 20000, 'raw_checks': 100000}

"""Event logs of lazy values under threads: the workload (shared by C11 and C12) and the offline checker."""
import itertools, threading, random, time, resource
from . import sched
from .core import Violation, short
from .sched import Sched, Deadlock, Gate, point, free
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy, unlazy, holdlazy


class Res:
    """A result; compared by identity, orderable by number, so that every read works on it."""
    __slots__ = ('z',)
    def __init__(self, z): self.z = z
    def __lt__(self, o): return self.z < o.z
    def __le__(self, o): return self.z <= o.z
    def __gt__(self, o): return self.z > o.z
    def __ge__(self, o): return self.z >= o.z
    def __repr__(self): return f'Res({self.z})'
class Boom(Exception): pass
class Odd(Exception):
    def __eq__(self, o): return True
    __hash__ = None
class Base(BaseException): pass
EXC = (ValueError, KeyError, IndexError, TypeError, AttributeError, StopIteration, RuntimeError, NotImplementedError, OSError, RecursionError,
       Boom, Odd, LookupError, AssertionError, StopAsyncIteration, EOFError)
BASE = (KeyboardInterrupt, SystemExit, GeneratorExit, Base)


class Log:
    """Events with logical clocks.  next() on a count and list.append are atomic."""
    def __init__(self):
        self.clock = itertools.count(1)
        self.runs = []            # dict: z, thread, start, end, ok, value / exc
        self.requests = []        # dict: zs, path, thread, start, end, values {z: value} / exc
        self.readies = []         # dict: z, thread, start, end, answer
    def now(self): return next(self.clock)


class Plan:
    """The lazies of one case and the collections that share them."""
    def __init__(self, rng, n, fails=None, base_exc=False):
        self.rng, self.n = rng, n
        self.log = Log()
        self.deps = [rng.sample(range(i), min(i, rng.choice((0, 0, 0, 1, 1, 2)))) for i in range(n)]
        self.pauses = [rng.choice((0, 1, 2, 4)) for _ in range(n)]
        self.fails = list(fails) if fails else [0] * n
        self.exc = [rng.choice(BASE if base_exc and rng.random() < .5 else EXC) for _ in range(n)]
        self.where = [rng.choice(('before', 'after')) for _ in range(n)]
        self.gates = {}           # z -> (gate to set at entry or None, gate to wait for or None)
        self.tries = [itertools.count() for _ in range(n)]
        self.args = [((object(), [i]), dict(k=object(), value=i, self=None)) for i in range(n)]
        self.bad = []
        self.sleeps = None
        self.value_kind = [rng.choice(('res', 'res', 'res', 'res', 'none', 'lazyfalse', 'odd', 'odd')) for _ in range(n)]
        self.lz = [self.make(i) for i in range(n)]
        self.direct = [rng.random() < .5 for _ in range(n)]
        self.ll = llist(self.lz)
        self.ll2 = llist(reversed(self.lz)).reverse() if rng.random() < .5 and False else llist(self.lz[:1]).extend(self.lz[1:])
        self.ld = ldict((('k', i), l) for i, l in enumerate(self.lz))
        self.mixed = ldict(a=1, b=self.lz[0])

    def make(self, i):
        a, kw = self.args[i]
        def fn(*args, **kwargs): return self.body(i, args, kwargs)
        return lazy(fn, *a, **kw)

    def body(self, i, args, kwargs):
        log = self.log
        run = dict(z=i, thread=threading.get_ident(), start=log.now(), end=None, ok=None, value=None, exc=None)
        log.runs.append(run)
        a, kw = self.args[i]
        if len(args) != len(a) or any(x is not y for x, y in zip(a, args)) or list(kw) != list(kwargs) or any(kwargs[k] is not kw[k] for k in kw):
            self.bad.append((i, 'arguments', args, kwargs))
        try:
            point()
            g = self.gates.get(i)
            if g:
                if g[0]: g[0].set()
                if g[1]: g[1].wait()
            t = next(self.tries[i])
            fail = t < self.fails[i]
            if fail and self.where[i] == 'before': self.boom(i, t)
            for d in self.deps[i]:
                if self.direct[i]: self.lz[d]()
                else: self.ll[d] if t % 2 else self.ld['k', d]
                point()
            for _ in range(self.pauses[i]): point()
            if self.sleeps:
                nap(self.sleeps[i])
            if fail: self.boom(i, t)
            v = self.result(i)
            run['value'] = v; run['ok'] = True
            return v
        except BaseException as e:
            run['exc'] = e; run['ok'] = False
            raise
        finally:
            point()
            run['end'] = log.now()

    def result(self, i):
        k = self.value_kind[i]
        if k == 'res': return Res(i)
        if k == 'none': return None
        if k == 'lazyfalse': return []
        # values an implementation may be tempted to treat specially
        return (lambda: ValueError(i), lambda: ValueError, lambda: (lambda: 1), lambda: (len, (), {}), lambda: (None, None, None), lambda: NotImplemented,
                lambda: Ellipsis, lambda: threading.RLock(), lambda: self.bad, lambda: llist(), lambda: iter(()), lambda: KeyError, lambda: lazy,
                lambda: float('nan'), lambda: Odd(), lambda: lazy(int), self.inner, self.inner, self.inner)[hash((i, self.n, self.deps[0] == [], len(self.deps[-1]))) % 19]()

    def inner(self):
        l = lazy(Res, -1)
        if self.n % 2: l()
        return l

    def boom(self, i, t):
        raise self.exc[i](i, t)

    # ---- requests
    def paths(self, i):
        """Ways to request lazy i alone: name -> function that gives its value."""
        lz, ll, ll2, ld, n = self.lz[i], self.ll, self.ll2, self.ld, self.n
        k = ('k', i)
        P = {'call': lambda: lz(), 'unlazy': lambda: unlazy(lz), 'll[i]': lambda: ll[i], 'll[-i]': lambda: ll[i - n], 'll2[i]': lambda: ll2[i],
             'slice': lambda: ll[i:i + 1][0], 'll.transient': lambda: ll.transient()[i], 'll.pop': lambda: ll.pop(i)[0],
             'll.getlazy()': lambda: ll.getlazy(i)(), 'as_plist': lambda: ll.as_plist()[i](), 'tll.pop': lambda: ll.transient().pop(i),
             'll.prepend': lambda: ll.prepend(0)[i + 1], 'll.set': lambda: ll.set(i, lz)[i],
             'ld[k]': lambda: ld[k], 'ld.get': lambda: ld.get(k), 'ld.pop': lambda: ld.pop(k)[0], 'ld.transient': lambda: ld.transient()[k],
             'tld.pop': lambda: ld.transient().pop(k), 'ld.getlazy()': lambda: ld.getlazy(k)(), 'as_pdict': lambda: ld.as_pdict()[k](),
             'ld.set': lambda: ld.set(('x',), 1)[k], 'tld.get': lambda: ld.transient().get(k), 'new llist': lambda: llist([lz])[0],
             'new ldict': lambda: ldict({0: lz})[0], 'iterate one': lambda: next(iter(llist([lz, 1]))), 'values': lambda: next(iter(ldict({0: lz}).values())),
             'items': lambda: next(iter(ldict({0: lz}).items()))[1], 'mapped': lambda: ldict({0: lz}).setdefault(0, 1)[0]}
        return P

    def all_paths(self):
        """Ways to request all of them: name -> function that gives the values in order, or None where it gives none."""
        ll, ld, n = self.ll, self.ld, self.n
        return {'list': lambda: list(ll), 'plist': lambda: list(plist(ll)), 'ready_all': lambda: ll.ready_all() and None, 'ld.ready_all': lambda: ld.ready_all() and None,
                'ld.values': lambda: list(ld.values()), 'ld.items': lambda: [v for _, v in ld.items()], 'pdict': lambda: list(pdict(ld).values()),
                'transient': lambda: list(ll.transient()), 'tuple': lambda: tuple(x for x in ll[:]), 'index all': lambda: [ll[i] for i in range(n)],
                'tdict': lambda: list(tdict(ld).values()), 'ld loop': lambda: [ld[k] for k in ld]}

    def request(self, i, path, f):
        log = self.log
        r = dict(zs=[i] if i is not None else list(range(self.n)), path=path, thread=threading.get_ident(), start=log.now(), end=None, values={}, exc=None)
        log.requests.append(r)
        try:
            v = f()
            if i is not None: r['values'] = {i: v}
            elif v is not None: r['values'] = dict(enumerate(v))
            r['done'] = True
        except sched.Abort: raise
        except BaseException as e:
            r['exc'] = e; r['done'] = False
        r['end'] = log.now()
        return r

    def ask(self, i, how=0):
        log = self.log
        r = dict(z=i, thread=threading.get_ident(), start=log.now(), end=None, answer=None)
        q = how % 4
        r['answer'] = (self.lz[i].is_ready() if q == 0 else self.ll.is_ready(i) if q == 1 else self.ld.is_ready(('k', i)) if q == 2 else self.ll2.is_ready(i))
        r['end'] = log.now()
        log.readies.append(r)
        return r['answer']


def is_lazy_error(e): return isinstance(e, RuntimeError) and type(e).__name__ == 'LazyError'
def chained(e):
    """All exceptions that e is chained to."""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        for y in (x.__cause__, x.__context__):
            if y is not None and all(y is not z for z in out): out.append(y); todo.append(y)
    return out


def check(plan, what, failing):
    """Judges a complete log.  failing: functions may fail (C12), else nothing may raise."""
    log = plan.log
    if plan.bad: raise Violation('arguments', 'a lazy function was called with other arguments than it was given', bad=plan.bad[:3])
    evals = 0
    for z in range(plan.n):
        runs = sorted((r for r in log.runs if r['z'] == z), key=lambda r: r['start'])
        good = [r for r in runs if r['ok']]
        reqs = [r for r in log.requests if z in r['zs']]
        evals += len(reqs)
        def hist(): return dict(runs=[(r['thread'] % 9973, r['start'], r['end'], r['ok']) for r in runs],
                                requests=[(r['path'], r['thread'] % 9973, r['start'], r['end'], short(r['values'].get(z), 60), short(r['exc'], 80)) for r in reqs][:40],
                                readies=[(r['thread'] % 9973, r['start'], r['end'], r['answer']) for r in log.readies if r['z'] == z][:40])
        if len(good) > 1: raise Violation('completed-twice', f'the function of one lazy value ran to completion {len(good)} times ({what})', **hist())
        for a, b in itertools.combinations(runs, 2):
            if a['thread'] != b['thread'] and a['start'] < b['end'] and b['start'] < a['end']:
                raise Violation('overlap', f'two threads ran the function of one lazy value at the same time ({what})', **hist())
        done = good[0] if good else None
        for r in reqs:
            if z in r['values']:
                if done is None: raise Violation('value-from-nowhere', f'a request ({r["path"]}) returned although the function never completed ({what})', **hist())
                if r['values'][z] is not done['value']:
                    raise Violation('other-object', f'a request ({r["path"]}) returned {short(r["values"][z])} instead of the one result object ({what})', **hist())
                if r['end'] < done['end']: raise Violation('value-before-result', f'a request ({r["path"]}) returned before the function completed ({what})', **hist())
            elif not failing and r['exc'] is not None:
                raise Violation('request-raised', f'a request ({r["path"]}) raised {r["exc"]!r} although the function does not fail ({what})', **hist())
        first_done = min((r['end'] for r in reqs if z in r['values']), default=None)
        for q in (q for q in log.readies if q['z'] == z):
            evals += 1
            if q['answer'] is True:
                if done is None or done['end'] > q['end']: raise Violation('ready-early', f'is_ready() was True before the result existed ({what})', **hist())
                if any(r['start'] > q['end'] for r in runs): raise Violation('run-after-ready', f'the function ran after is_ready() was True ({what})', **hist())
            elif q['answer'] is False:
                if first_done is not None and q['start'] > first_done: raise Violation('not-ready', f'is_ready() was False after the value had been returned ({what})', **hist())
            else: raise Violation('ready-type', f'is_ready() gave {q["answer"]!r}')
    if failing:
        for r in log.requests:
            mine = [x for x in log.runs if x['thread'] == r['thread'] and r['start'] < x['start'] and x['end'] <= r['end'] and x['ok'] is False]
            outer = [x for x in mine if x['z'] in r['zs']]
            def hist(): return dict(request=(r['path'], r['zs'], r['start'], r['end'], r['values']), exc=repr(r['exc']), chain=[repr(x) for x in chained(r['exc'])] if r['exc'] else None,
                                    runs=[(x['z'], x['thread'] % 9973, x['start'], x['end'], x['ok'], repr(x['exc'])) for x in log.runs if x['start'] < r['end'] and x['end'] > r['start']][:30])
            if r['exc'] is None:
                if outer: raise Violation('failure-swallowed', f'a request ({r["path"]}) ran a function that raised, and did not raise ({what})', **hist())
                continue
            e = r['exc']
            cand = outer or [x for x in log.runs if x['z'] in r['zs'] and x['ok'] is False and x['start'] < r['end'] and x['end'] > r['start']]
            if not cand: raise Violation('raised-for-nothing', f'a request ({r["path"]}) raised {e!r} without running a function that failed ({what})', **hist())
            if any(not isinstance(x['exc'], Exception) and x['exc'] is e for x in cand): continue
            if not outer and any(not isinstance(x['exc'], Exception) for x in cand): continue
            if any(not isinstance(x['exc'], Exception) for x in cand):
                raise Violation('base-exception', f'{cand[0]["exc"]!r} came out as {e!r} ({what}, {r["path"]})', **hist())
            if not is_lazy_error(e): raise Violation('not-a-LazyError', f'a failed request ({r["path"]}) raised {e!r} instead of a LazyError ({what})', **hist())
            ch = chained(e)
            if not any(any(x['exc'] is y for y in ch) for x in cand):
                raise Violation('not-chained', f'the LazyError of a failed request ({r["path"]}) is not chained to the exception that its own run raised ({what})', **hist())
    return evals


def scheduler(rng):
    q = rng.random()
    if q < .45: return Sched(rng, opcodes=rng.random() < .5, strategy='random', p=rng.choice((.02, .08, .2, .5)))
    if q < .85: return Sched(rng, opcodes=rng.random() < .5, strategy='pct', span=rng.choice((40, 120, 400)), depth=rng.choice((1, 2, 3, 5)))
    return Sched(rng, opcodes=False, strategy='rr')


NAPS = []
def nap(t):
    NAPS.append(1)
    try: time.sleep(t)
    finally: NAPS.pop()
def slow(case, longest, failing=False):
    """Functions that really take long (fractions of a second up to `longest` seconds) while other threads wait for them."""
    rng = case.rng; plans = []; fns = []
    times = [t for t in (.12, .15, .3, .3, .6, .6, 1.2, 1.2, 2.2, 2.2, 3.3, 5.5, 5.5, 8, 10.5, 10.5, 12, 16, 21, 31, 31, 46, 61, 61, 95, 122) if t <= longest]
    for t in times:
        n = rng.choice((1, 1, 2)); p = Plan(rng, n, fails=[rng.choice((0, 1, 2)) for _ in range(n)] if failing else None)
        if t > 8: p.fails = [min(f, 1) for f in p.fails]
        p.sleeps = [t if i == n - 1 or rng.random() < .5 and t < 5 else 0 for i in range(n)]; plans.append(p)
        for k in range(3):
            def go(p=p, k=k, n=n, t=t, path=rng.choice(list(p.paths(n - 1))), early=rng.random()):
                nap(k * (.03 if k < 2 else early * t))
                if k: p.ask(n - 1, k)
                p.request(n - 1, path, p.paths(n - 1)[path])
                if not failing or k: p.ask(n - 1); p.request(n - 1, 'again', p.lz[n - 1])
            fns.append(go)
        case.op('slow', t, n, p.fails)
    case.count['slow'] += len(times)
    keep = threading.stack_size(1 << 19); lim = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (lim[1], lim[1]))
    try: free(fns, interval=.005, sleeping=lambda: bool(NAPS))
    finally: threading.stack_size(keep)             # the address space limit stays raised: freed arenas stay mapped
    for p in plans: case.count['evaluations'] += check(p, 'slow functions', failing=failing)

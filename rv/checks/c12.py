"""Failing lazy functions: the log of runs and requests is judged for LazyErrors, chains, retries and freed locks.

Three workloads: threads under the seeded scheduler or free running; one thread requesting in every way, with a probe from another
thread after each failure; and whole-collection reads (the operation tables) of collections whose lazies fail on a schedule."""
import itertools, threading, traceback
from functools import partial
from ..core import Violation, short, WATCH
from ..sched import Deadlock, Endless, Sched, free, point, Gate
from ..lazyrun import Plan, check, scheduler, slow, is_lazy_error, chained, EXC, BASE, Res
from ..ops import KINDS, Env, NOTHING
from pcollections import lazy, llist, ldict, tllist, tldict, plist, pdict, tlist, tdict
PROP = 'C12'
RULE = ('One case runs requests for lazy values whose functions raise on their first runs (16 Exception classes and 4 classes that are not), '
        'in 1-4 threads under a seeded scheduler, free running, or alone with probes from other threads, through every way of reading a lazy '
        'value; or operations of the differential tables on llists and ldicts whose lazies fail.  Distinct are different schedules, request '
        'programs and (operation, exception) pairs.')
def plan(tier): return dict(cases=6000 if tier == 'quick' else 200000, deadline=300 if tier == 'quick' else 650)
MIN = {'slow': 10, 'evaluations': 20000, 'scheduled': 1000, 'free': 200, 'failed requests': 6000, 'retried': 1500, 'base exceptions': 300, 'operation failed': 800,
       'probes': 2000, 'own requests': 300, 'errors printed': 500}
ASSUME = ['a request that waited for another thread\'s failing run may either run the function itself or report that failure']


def threads(case):
    rng = case.rng; c = case.count
    n = rng.choice((1, 1, 2, 3))
    p = Plan(rng, n, fails=[rng.choice((0, 1, 1, 2, 3, 10**6)) for _ in range(n)], base_exc=rng.random() < .4)
    k = rng.choice((2, 2, 3, 4))
    progs = []
    for _ in range(k):
        prog = []
        for _ in range(rng.choice((1, 2, 3))):
            if rng.random() < .2: prog.append(('ask', rng.randrange(n), rng.randrange(4)))
            else:
                i = rng.randrange(n); prog += [('one', i, rng.choice(list(p.paths(i))))] * rng.choice((1, 1, 2))
        progs.append(prog)
    for i, g in enumerate(progs): case.op('thread', i, g)
    case.op('fails', p.fails, [e.__name__ for e in p.exc], p.deps)
    def go(prog):
        def f():
            for kind, i, how in prog:
                if kind == 'ask': p.ask(i, how)
                else: p.request(i, how, p.paths(i)[how])
        return f
    fns = [go(g) for g in progs]
    mode = 'free' if case.index % 8 == 3 else 'scheduled'
    sig = ''
    try:
        if mode == 'free': c['free'] += 1; free(fns)
        else:
            s = scheduler(rng); case.op('schedule', s.strategy, s.opcodes)
            s.run(fns); c['scheduled'] += 1; c['switches'] += s.switches; sig = tuple(s.trace)
    except Endless: raise Violation('nontermination', 'a request does not terminate')
    except Deadlock as d: raise Violation('deadlock', f'threads that request failing lazy values block one another forever ({mode}): {d}', requests=p.log.requests)
    case.sig(mode, sig, tuple(map(tuple, progs)))
    c['evaluations'] += check(p, mode, failing=True)
    aftermath(case, p, mode)
    if case.sample is None and n > 1: case.sample = dict(threads=progs, fails=p.fails, exc=[e.__name__ for e in p.exc], runs=[(r['z'], r['start'], r['end'], r['ok']) for r in p.log.runs][:20])
    count(c, p)


def aftermath(case, p, mode):
    """Every lazy again, from a new thread and from this one: the locks are free and the first success stays."""
    c = case.count
    def probe():
        for i in range(p.n):
            p.request(i, 'probe', p.lz[i]); p.ask(i)
    c['probes'] += 1
    try: Sched(case.rng, strategy='random', p=0).run([probe])
    except Deadlock as d: raise Violation('deadlock', f'the lock of a lazy value is not free after its requests are over ({mode}): {d}', requests=p.log.requests)
    c['evaluations'] += check(p, mode + ', probed from another thread', failing=True)
    for i in range(p.n):
        before = len(p.log.runs)
        ready = p.ask(i)
        r = p.request(i, 'again', p.lz[i])
        ran = [x for x in p.log.runs[before:] if x['z'] == i]
        if ready and ran: raise Violation('run-after-ready', f'a ready lazy value ran its function again ({mode})')
        if not ready and not ran: raise Violation('not-retried', f'a request for a lazy value that is not ready did not run its function ({mode})', request=r)
    c['evaluations'] += check(p, mode + ', again', failing=True)


def count(c, p):
    c['runs'] += len(p.log.runs)
    c['failed requests'] += sum(1 for r in p.log.requests if r['exc'] is not None)
    c['base exceptions'] += sum(1 for r in p.log.requests if r['exc'] is not None and not isinstance(r['exc'], Exception))
    c['retried'] += sum(1 for z in range(p.n) if len([r for r in p.log.runs if r['z'] == z]) > 1)


def alone(case):
    """One thread; after every failure everything is looked at."""
    rng = case.rng; c = case.count
    n = rng.choice((1, 2, 3))
    p = Plan(rng, n, fails=[rng.choice((0, 1, 2, 3)) for _ in range(n)], base_exc=rng.random() < .4)
    case.op('fails', p.fails, [e.__name__ for e in p.exc], p.deps)
    kept = []
    for _ in range(rng.choice((3, 6))):
        if rng.random() < .2:
            path = rng.choice(list(p.all_paths())); r = p.request(None, path, p.all_paths()[path])
        else:
            i = rng.randrange(n); path = rng.choice(list(p.paths(i))); r = p.request(i, path, p.paths(i)[path])
        case.op('request', r['zs'], path, short(r['exc'], 60)); case.sig('alone', path, type(r['exc']).__name__)
        if r['exc'] is not None:
            e = r['exc']; kept.append((e, chained(e), list(e.args)))
            for z in range(n):
                p.ask(z, rng.randrange(4))
            if rng.random() < .3: aftermath(case, p, 'alone')
    c['evaluations'] += check(p, 'alone', failing=True)
    aftermath(case, p, 'alone')
    # errors that were raised earlier still tell what happened then
    for e, ch, args in kept:
        now = chained(e)
        if len(now) != len(ch) or any(a is not b for a, b in zip(now, ch)):
            raise Violation('chain-changed', 'the LazyError of an earlier failure is now chained to something else', was=ch, now=now)
    count(c, p)


# ------------------------------------------------------------------ whole collections
class Callable:
    def __init__(self, f): self.f = f
    def __call__(self, *a, **k): return self.f(*a, **k)


def report(c, err, fname, told, kind, name):
    """A LazyError can be printed, says which call failed, and shows up with its cause in a traceback."""
    c['errors printed'] += 1
    try: s, r, t = str(err), repr(err), ''.join(traceback.format_exception(err))
    except Exception as e: raise Violation('error-text', f'the LazyError that {name} of a {kind} raised cannot be printed: {e!r}')
    if fname not in s or fname not in t or type(err).__name__ not in t: raise Violation('error-text', f'the text of a LazyError does not name the function {fname}', text=s)
    for x in told:
        if x not in s: raise Violation('error-text', f'the text of a LazyError does not tell the argument {x}', text=s)


def tables(case):
    rng = case.rng; c = case.count
    kind = rng.choice(('llist', 'ldict', 'tllist', 'tldict')); seq = 'list' in kind
    runs = []; state = {}
    def mk(i):
        left = [rng.choice((0, 0, 1, 2, 3)) if rng.random() < .97 else rng.randrange(4, 70)]; cls = rng.choice(EXC if rng.random() < .9 else BASE); v = i
        nargs = rng.choice((0, 1, 1, 2, 3)); keys = rng.choice(([], ['k'], ['k'], ['key', 'opt']))
        if rng.random() < .06: nargs = rng.randrange(4, 15)
        if rng.random() < .06: keys = [f'k{j}' for j in range(rng.randrange(3, 12))]
        args, kws = [object() for _ in range(nargs)], {k: object() for k in keys}
        def fn(*a, **kw):
            if len(a) != nargs or list(kw) != keys or any(x is not y for x, y in zip((*a, *kw.values()), (*args, *kws.values()))): raise Violation('arguments', 'a retried lazy function got other arguments')
            if left[0] > 0:
                left[0] -= 1; e = cls(i); runs.append((i, e)); raise e
            runs.append((i, None)); state[i] = state.get(i, 0) + 1
            if state[i] > 1: raise Violation('completed-twice', 'a lazy function ran to completion twice')
            return v
        fn.__name__ = f'compute_{i}_'; shape = rng.randrange(5)
        names[i] = fn.__name__ if shape > 1 else ''             # a callable object and a partial have no name
        told[i] = [repr(x) for x in (*args, *kws.values())] + [k + '=' for k in keys]
        return lazy(Callable(fn) if shape == 0 else partial(fn) if shape == 1 else fn, *args, **kws)
    names, told = {}, {}
    n = rng.choice((1, 2, 4, 7))
    L = [mk(i) if rng.random() < .8 else i for i in range(n)]
    model = list(range(n)) if seq else {i: i for i in range(n)}
    P = llist(L) if seq else ldict(enumerate(L))
    o = P if kind in ('llist', 'ldict') else P.transient()
    fam, pers, ctor, edits, ew, reads, rw = KINDS[kind]
    env = Env(rng, lambda: rng.randrange(n + 2)); env.lazies = True; env.cap = 20
    for _ in range(rng.choice((4, 8, 14))):
        use = edits if rng.random() < .35 and pers else reads
        name = rng.choice(list(use))
        sf, mf, lab = use[name](env.at(o, model))
        case.op(kind, *lab)
        before = len(runs); r = err = None
        try: r = sf(o)
        except BaseException as e: err = e
        failed = [e for _, e in runs[before:] if e is not None]
        c['operations'] += 1; c['evaluations'] += 1
        case.sig('table', kind, name, type(failed[0]).__name__ if failed else None, type(err).__name__)
        if failed:
            c['operation failed'] += 1
            if err is None: raise Violation('failure-swallowed', f'{name} of a {kind} evaluated a lazy value that raised {failed[0]!r}, and did not raise', result=r)
            if all(not isinstance(x, Exception) for x in failed):
                if all(err is not x for x in failed): raise Violation('base-exception', f'{failed[0]!r} came out of {name} of a {kind} as {err!r}')
            elif isinstance(failed[0], Exception):
                if not is_lazy_error(err): raise Violation('not-a-LazyError', f'{name} of a {kind} raised {err!r} although a lazy value failed with {failed[0]!r}')
                i = next(i for i, e in runs[before:] if e is not None)
                report(c, err, names[i], told[i], kind, name)
                if not any(x is y for x in chained(err) for y in failed): raise Violation('not-chained', f'the LazyError that {name} of a {kind} raised is not chained to {failed[0]!r}', chain=chained(err))
        elif isinstance(err, Violation): raise err
        elif err is not None and is_lazy_error(err): raise Violation('raised-for-nothing', f'{name} of a {kind} raised a LazyError although no lazy value failed', chain=chained(err))
        err = None
    # lazies that never completed are not ready, and vice versa; then everything can still be had
    for i, l in enumerate(L):
        if isinstance(l, lazy) and l.is_ready() != (state.get(i, 0) == 1): raise Violation('ready-wrong', f'is_ready() of a lazy value is {l.is_ready()} after {state.get(i, 0)} completed runs')
    for i in range(n):
        for _ in range(75):
            try: v = P[i]
            except BaseException: c['retried'] += 1; continue
            if v != i: raise Violation('value-wrong', f'a retried lazy value gave {v!r} instead of {i}')
            break
        else: raise Violation('never-succeeds', 'a lazy value whose function succeeds now does not')


# ------------------------------------------------------------------ functions that request their own lazy value
def selfask(case):
    """Lazy values that need themselves, through one another and through collections: they fail or recover, and never block."""
    rng = case.rng; c = case.count
    n = rng.choice((1, 1, 2, 3)); depth = rng.choice((1, 2, 3, 5, 8) * 6 + (10**6,)); recover = depth < 10**6 and rng.random() < .4
    cls = rng.choice(EXC); lz = []; st = dict(open=0, deepest=0, runs=0, ok=0, done=False); raised = []
    def mk(i):
        def fn(a, b=None):
            if a is not arg or b is not arg: raise Violation('arguments', 'a lazy function that requests its own value got other arguments')
            st['runs'] += 1; st['open'] += 1; st['deepest'] = max(st['deepest'], st['open'])
            try:
                if st['done']: return res[i]
                if st['open'] > depth * n: e = cls('deep'); raised.append(e); raise e
                how = rng.randrange(5); z = (i + 1) % n
                try:
                    if how == 0: return lz[z]()
                    if how == 1: return P[z]
                    if how == 2: return list(P)[z]
                    if how == 3: return D[z]
                    return list(D.values())[z]
                except RuntimeError:
                    if not (recover and st['open'] == 1): raise
                    return res[i]
            finally: st['open'] -= 1
        return lazy(fn, arg, b=arg)
    arg = object(); res = [object() for _ in range(n)]
    lz += [mk(i) for i in range(n)]
    P = rng.choice((llist, tllist))(lz); D = rng.choice((ldict, tldict))(enumerate(lz))
    case.op('selfask', n, depth, recover, cls.__name__, type(P).__name__, type(D).__name__); case.sig('selfask', n, depth, recover, cls.__name__)
    def inthread(f, what):
        out = []
        def body():
            try: out.append((f(), None))
            except BaseException as e: out.append((None, e))
        t = threading.Thread(target=body, daemon=True); t.start(); t.join(30)
        if t.is_alive(): raise Violation('deadlock', f'{what} blocks for ever')
        if isinstance(out[0][1], Violation): raise out[0][1]
        return out[0]
    for k in range(rng.choice((1, 2, 3))):
        st['runs'] = 0; del raised[:]
        v, e = inthread(lz[0], 'a request for a lazy value that requests itself')
        c['evaluations'] += 1; c['own requests'] += 1
        if recover:
            if e is not None: raise Violation('recovery', f'the function caught the LazyError of its own request and returned, but the request raised {e!r}', chain=chained(e))
            if v is not res[0] or not lz[0].is_ready(): raise Violation('recovery', 'a function that caught the LazyError of its own request: result not given or not remembered')
            if k and st['runs']: raise Violation('completed-twice', 'a lazy function that recovered from its own failure ran again')
        else:
            if not is_lazy_error(e): raise Violation('not-a-LazyError', f'a request for a lazy value that needs itself gave {v!r} and raised {e!r}')
            if raised and not any(x is raised[0] for x in chained(e)): raise Violation('not-chained', 'the LazyError of a lazy value that needs itself is not chained to the failure', chain=chained(e)[:20])
            if any(l.is_ready() for l in lz): raise Violation('ready-wrong', 'a lazy value that needs itself is ready after its failure')
        for i in range(n): inthread(lz[i].is_ready, 'is_ready() after a lazy value that requests itself')
    e = None
    st['done'] = True
    for i in range(n):
        st['runs'] = 0; was = lz[i].is_ready()
        v, e = inthread(lz[i], 'a request, by another thread, after a lazy value requested itself and failed')
        if e is not None or v is not res[i] or st['runs'] != (not was): raise Violation('never-succeeds', f'a lazy value whose function now succeeds gave {v!r}, raised {e!r}, with {st["runs"]} runs')
        if lz[i]() is not res[i] or st['runs'] != (not was): raise Violation('completed-twice', 'a lazy value that is ready ran its function')


def run_case(case):
    WATCH.stop()
    if case.index % 16 == 11: return selfask(case)
    if case.index in (6, 14):
        try: return slow(case, 3.5 if case.tier == 'quick' or case.index == 6 else 62, failing=True)
        except Deadlock as d: raise Violation('deadlock', f'threads that request slow lazy values block one another forever: {d}')
    q = case.index % 4
    if q == 0: alone(case)
    elif q == 1: WATCH.start_case(); tables(case)
    else: threads(case)

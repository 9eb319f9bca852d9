"""Threads that request shared lazy values in every way, under a seeded scheduler and free running; offline check of the event log."""
import itertools, threading
from ..core import Violation, short, WATCH
from ..sched import Deadlock, Endless, Gate, free, point
from ..lazyrun import Plan, check, scheduler, slow
from pcollections import lazy, llist, ldict
PROP = 'C11'
RULE = ('One case runs 2-5 threads that request 1-4 lazy values, some of which request others, directly and through the collections that share '
        'them, and ask is_ready, either under a seeded scheduler that decides at every line or bytecode instruction of pcollections which thread '
        'runs, or free running with the shortest switch interval; the log of runs, requests and answers with logical clocks is judged offline.  '
        'Distinct are different schedules (sequence of switches) and request programs.')
def plan(tier): return dict(cases=6000 if tier == 'quick' else 200000, deadline=300 if tier == 'quick' else 650)
MIN = {'slow': 20, 'evaluations': 40000, 'scheduled': 3000, 'free': 300, 'switches': 20000, 'contended': 800, 'rendezvous': 200, 'runs': 6000}
ASSUME = ['a thread may be preempted between any two bytecode instructions of pcollections (the language gives no atomicity there)']


def program(p, rng, requests):
    """What one thread does: (lazy or None, path name) or a question."""
    prog = []
    for _ in range(requests):
        q = rng.random()
        if q < .25: prog.append(('ask', rng.randrange(p.n), rng.randrange(4)))
        elif q < .88:
            i = rng.randrange(p.n) if rng.random() < .5 else p.n - 1
            prog.append(('one', i, rng.choice(list(p.paths(i))) if rng.random() < .7 else 'call'))
        else: prog.append(('all', None, rng.choice(list(p.all_paths()))))
    return prog


def runner(p, prog):
    def go():
        for kind, i, how in prog:
            if kind == 'ask': p.ask(i, how)
            elif kind == 'one': p.request(i, how, p.paths(i)[how])
            else: p.request(None, how, p.all_paths()[how])
    return go


SLOW = 12
def run_case(case):
    WATCH.stop()
    if case.index in (5, 14):
        try: return slow(case, SLOW if case.index == 5 or case.tier == 'quick' else 125)
        except Deadlock as d: raise Violation('deadlock', f'threads that request slow lazy values block one another forever: {d}')
    rng = case.rng; c = case.count
    n = rng.choice((1, 1, 2, 3, 4)); p = Plan(rng, n)
    k = rng.choice((2, 2, 3, 3, 4, 5))
    progs = [program(p, rng, rng.choice((1, 1, 2, 3))) for _ in range(k)]
    rendezvous = n >= 2 and rng.random() < .3
    if rendezvous:
        # two independent lazies whose functions wait for each other to be in progress, or one that waits until the other was delivered
        p.deps[0] = p.deps[1] = []
        p.deps = [[d for d in D if d > 1] for D in p.deps]
        a, b = Gate(), Gate()
        if rng.random() < .6: p.gates = {0: (a, b), 1: (b, a)}; extra = None
        else: p.gates = {0: (None, a)}; extra = a
        progs[0] = [('one', 0, rng.choice(list(p.paths(0))))] + progs[0]
        progs[1] = [('one', 1, rng.choice(list(p.paths(1))))] + progs[1]
        c['rendezvous'] += 1
    else: extra = None
    fns = [runner(p, g) for g in progs]
    if extra is not None:
        rest = progs[1][1:]
        def second():
            runner(p, progs[1][:1])(); extra.set(); runner(p, rest)()
        fns[1] = second
    for i, g in enumerate(progs): case.op('thread', i, g)
    mode = 'free' if case.index % 7 == 3 else 'scheduled'
    try:
        if mode == 'free':
            c['free'] += 1; free(fns); sig = ''
        else:
            s = scheduler(rng); case.op('schedule', s.strategy, s.p, sorted(s.changes), s.opcodes)
            try: s.run(fns)
            finally: case.op('switches', s.trace[:300])
            c['scheduled'] += 1; c['switches'] += s.switches; c['points'] += s.points; c['foreign blocks'] += s.foreign
            sig = tuple(s.trace)
    except Endless: raise Violation('nontermination', 'a request does not terminate')
    except Deadlock as d:
        raise Violation('deadlock', f'threads that request lazy values block one another forever ({mode}): {d}', runs=p.log.runs, requests=p.log.requests)
    c['runs'] += len(p.log.runs); c['requests'] += len(p.log.requests)
    # contention: a request that was under way while another thread ran the function
    for r in p.log.requests:
        if any(x['z'] in r['zs'] and x['thread'] != r['thread'] and r['start'] < x['end'] and x['start'] < r['end'] for x in p.log.runs): c['contended'] += 1
    c['evaluations'] += check(p, mode, failing=False)
    # afterwards, alone: the same objects, and nothing runs again
    before = len(p.log.runs)
    for i in range(n): p.request(i, 'afterwards', p.lz[i]); p.ask(i)
    c['evaluations'] += check(p, mode + ', afterwards', failing=False)
    case.sig(mode, sig, tuple(map(tuple, progs)))
    if case.sample is None and mode == 'scheduled' and k > 2: case.sample = dict(threads=progs, switches=list(sig)[:60], runs=[(r['z'], r['start'], r['end']) for r in p.log.runs])

"""Runner shared by all checks: seeded cases on worker processes, watchdog, verdicts, evidence, replay.

A check is a module with
    PROP        property id
    RULE        text for the evidence file
    def plan(tier) -> dict(cases=int, ...)         how much to run
    def run_case(case)                             one seeded case; raises Violation
    MIN         dict counter-name -> minimum        fewer events than this is "inconclusive"
    def probes(report)      (optional)             deterministic probes of known findings
Verdicts: exit 0 held on what was observed, exit 1 violated (with a witness), exit 2 inconclusive.
"""
import sys, os, json, time, random, signal, traceback, collections, multiprocessing, resource, hashlib, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RV_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """The oracle refuted the property.  `key` names the mechanism (used for known findings)."""
    def __init__(self, key, msg, **detail):
        super().__init__(key, msg)
        self.key = key
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


class NonTermination(BaseException):
    """Raised by the watchdog inside an operation that has used far more steps than it ever needs."""


# ---------------------------------------------------------------------------------- step watchdog
class Watchdog:
    """Wall clock only *arms* the watchdog; the verdict is a count of logical steps.

    After `wall` seconds in one case a sys.monitoring counter is switched on.  It counts executed
    lines in pcollections code since the current operation began (or since it was switched on).  More
    than `limit` of them inside one operation on a small collection is non-termination.
    """
    TOOL = 4
    def __init__(self, wall=20, limit=2_000_000):
        self.wall = wall
        self.limit = self.usual = limit
        self.n = 0
        self.on = False
        self.prefix = os.path.join(os.path.realpath(REPO), 'pcollections') + os.sep

    def start_case(self):
        self.stop()
        self.limit = self.usual
        signal.signal(signal.SIGALRM, self._alarm)
        signal.alarm(self.wall)

    def op(self):
        self.n = 0

    def stop(self):
        signal.alarm(0)
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
            self.on = False
        self.n = 0

    def _alarm(self, *a):
        if self.on: return
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'rv-watchdog')
        self.on = True
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.n = 0
            raise NonTermination()


WATCH = Watchdog()


# ---------------------------------------------------------------------------------- one seeded case
class Case:
    """Context of one case: PRNG, counters, operation log."""
    def __init__(self, prop, seed, index, tier, params):
        self.prop, self.seed, self.index, self.tier, self.params = prop, seed, index, tier, params
        self.rng = random.Random(f'{seed}/{prop}/{index}')
        self.count = collections.Counter()
        self.sigs = set()
        self.log = []
        self.sample = None

    def op(self, *entry):
        """Logs an operation (and tells the watchdog that a new operation begins)."""
        WATCH.op()
        self.log.append(entry)
        if len(self.log) > 4000: del self.log[:2000]

    def large(self, yes=True):
        """This case is about a collection of thousands of elements: its operations may take many more steps."""
        if yes: self.count['large'] += 1; WATCH.limit = 500 * WATCH.usual
        return yes

    def sig(self, *parts):
        self.sigs.add(zlib.crc32(repr(parts).encode()) | (len(repr(parts)) << 32))


def short(x, n=160):
    try:
        s = repr(x)
    except BaseException as e:
        s = f'<unprintable {type(x).__name__}: {type(e).__name__}>'
    return s if len(s) <= n else s[:n] + '...'


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def in_repo(e):
    """The exception was raised while pcollections code was running."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(WATCH.prefix): return True
        tb = tb.tb_next
    return False


def run_one(mod, seed, index, tier, params):
    """Runs one case in this process; returns (case, violation dict or None, inconclusive text or None)."""
    case = Case(mod.PROP, seed, index, tier, params)
    vio = inc = None
    WATCH.start_case()
    try:
        if getattr(mod, 'BUSY', 0) and (index // 10) % mod.BUSY == 0:        # elements that use collections while they are compared, hashed, printed
            from . import busy
            busy.RNG.seed(index); del busy.BAD[:]
            n = busy.COUNT
            with busy.during(None): mod.run_case(case)
            case.count['nested_uses'] += busy.COUNT - n
            if busy.BAD: raise Violation('nested', 'collections used inside of user code called by an operation answered wrongly', found=busy.BAD[:3])
        else: mod.run_case(case)
    except Violation as v:
        vio = dict(key=v.key, msg=v.msg, detail={k: short(x, 2000) for k, x in v.detail.items()})
    except NonTermination:
        vio = dict(key='nontermination', msg='an operation does not terminate (more than '
                   f'{WATCH.limit} steps on a small collection)', detail={})
    except Inconclusive as e:
        inc = str(e)
    except MemoryError as e:
        if in_repo(e): vio = dict(key='memory', msg='an operation on a small collection exhausts memory', detail={})
        else: inc = 'MemoryError in harness'
    except Exception as e:
        if in_repo(e):
            vio = dict(key='unexpected-exception', msg=f'pcollections raised {e!r} where nothing may be raised',
                       detail=dict(traceback=traceback.format_exc()[-1500:]))
        elif isinstance(e, (OSError, ImportError)) or "start new thread" in str(e): inc = 'harness error: ' + traceback.format_exc()[-1500:]
        else:                        # an oracle met an object that behaves like no legitimate result (on the committed tree this never happens)
            vio = dict(key='unjudgeable', msg=f'an oracle cannot interpret what pcollections gave: {e!r}', detail=dict(traceback=traceback.format_exc()[-1500:]))
    finally:
        WATCH.stop()
    if vio is not None:
        vio.update(index=index, log=[short(e, 400) for e in case.log[-60:]])
    return case, vio, inc


def _worker(mod, seed, tier, params, wid, nworkers, total, deadline, conn):
    _limits()
    sys.setrecursionlimit(1200)
    count = collections.Counter(); sigs = set(); samples = []; vios = []; incs = []
    done = 0
    idx = wid
    last_send = time.time()
    try:
        while idx < total:
            if time.time() > deadline:
                incs.append('deadline'); break
            conn.send(('at', idx))
            case, vio, inc = run_one(mod, seed, idx, tier, params)
            done += 1
            count.update(case.count); sigs |= case.sigs
            if case.sample is not None and len(samples) < 2: samples.append(case.sample)
            if vio: vios.append(vio)
            if inc: incs.append(f'case {idx}: {inc}')
            if vio and vio['key'] == 'deadlock': break            # its locks may stay taken
            if len([v for v in vios if not v.get('known')]) >= 3 or len(incs) >= 20: break
            idx += nworkers
    except BaseException:
        incs.append('worker error: ' + traceback.format_exc()[-1500:])
    conn.send(('end', done, dict(count), sigs, samples, vios, incs))
    conn.close()
    os._exit(0)


def load_known():
    """KNOWN_FINDINGS.txt: lines 'known: property=<id> key=<mechanism key> :: <text>'."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: '):
                head, _, text = line[7:].partition(' :: ')
                f = dict(w.split('=', 1) for w in head.split() if '=' in w)
                out[(f['property'], f['key'])] = text
    return out


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    workers = min(8, os.cpu_count() or 1)
    it = iter(argv)
    cases_override = None
    for a in it:
        if a == '--tier': tier = next(it)
        elif a == '--seed': seed = int(next(it))
        elif a == '--replay': replay = next(it)
        elif a == '--cases': cases_override = int(next(it))
        elif a == '--workers': workers = int(next(it))
    params = mod.plan(tier)
    if cases_override: params['cases'] = cases_override
    if 'workers' in params: workers = min(workers, params['workers'])
    t0 = time.time()

    if replay is not None:
        r = json.load(open(replay))
        case, vio, inc = run_one(mod, r['seed'], r['index'], r['tier'], mod.plan(r['tier']))
        for e in case.log[-60:]: print('  op', short(e, 300))
        if vio:
            print(json.dumps(vio, indent=1))
            print(f'VIOLATION property={mod.PROP} replay={replay}')
            return 1
        print('no violation', inc or '')
        return 0 if not inc else 2

    total = params['cases']
    deadline = t0 + params.get('deadline', 420 if tier == 'quick' else 840)
    count = collections.Counter(); sigs = set(); samples = []; vios = []; incs = []; crashes = []
    done = 0
    procs = []
    ctx = multiprocessing.get_context('fork')
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(min(workers, total)):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(mod, seed, tier, params, w, min(workers, total), total, deadline, b))
        p.start(); b.close()
        procs.append([p, a, None, w])
    live = list(procs)
    hard = deadline + 120
    from multiprocessing.connection import wait
    stop_at = None
    while live:
        ready = wait([x[1] for x in live], timeout=1.0)
        for x in list(live):
            if x[1] in ready:
                try:
                    msg = x[1].recv()
                except (EOFError, OSError):
                    x[0].join(5)
                    if x[0].exitcode is not None and x[0].exitcode < 0 and -x[0].exitcode in (
                            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                        crashes.append((x[2], -x[0].exitcode))
                    elif stop_at is None:
                        incs.append(f'worker {x[3]} ended with {x[0].exitcode} in case {x[2]}')
                    live.remove(x); continue
                if msg[0] == 'at': x[2] = msg[1]
                else:
                    _, d, c, s, sm, v, i = msg
                    done += d; count.update(c); sigs |= s; samples += sm; vios += v; incs += i
                    live.remove(x)
                    # one violation decides; give the other workers a moment, then stop them
                    if v and stop_at is None: stop_at = time.time() + 3
        if stop_at and time.time() > stop_at: break
        if time.time() > hard:
            incs.append('hard deadline'); break
    for x in procs:
        if x[0].is_alive(): x[0].kill()
    for x in procs: x[0].join(5)
    for idx, sig in crashes:
        vios.append(dict(key='crash', msg=f'the interpreter crashed with signal {sig}', detail={}, index=idx, log=[]))

    extra_lines = []
    if hasattr(mod, 'finish') and not vios:
        try:
            mod.finish(dict(count=count, tier=tier, seed=seed, vios=vios, incs=incs, samples=samples, sigs=sigs))
        except Violation as v:
            vios.append(dict(key=v.key, msg=v.msg, index=-1, log=[],
                             detail={k: short(x, 2000) for k, x in v.detail.items()}))
    known = load_known()
    if hasattr(mod, 'probes'):
        for key, failing, what in mod.probes():
            count['known_finding_probes'] += 1
            if failing:
                vios.append(dict(key=key, msg=what, detail={}, index=-1, log=[], probe=True))
    fresh = []; seen_known = {}
    for v in vios:
        if (mod.PROP, v['key']) in known: seen_known[v['key']] = known[(mod.PROP, v['key'])]
        else: fresh.append(v)
    for k, text in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={mod.PROP} {k}: {text}')

    mins = dict(mod.MIN, nested_uses=500) if getattr(mod, 'BUSY', 0) else mod.MIN
    short_of = {k: (count[k], m) for k, m in mins.items()
                if count[k] < (m if not cases_override else 0)}
    evals = count.get(getattr(mod, 'EVAL', 'evaluations'), 0)
    cov = dict(evaluations=int(evals), distinct_nontrivial=len(sigs), rule=mod.RULE,
               samples=[short(s, 1500) for s in samples[:3]] or ['(none)'],
               cases=done, events={k: int(v) for k, v in sorted(count.items())},
               inconclusive=incs[:5])
    ev = dict(property=mod.PROP, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{mod.PROP}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{mod.PROP} {tier} seed={seed}: cases={done}/{total} evaluations={evals} '
          f'distinct={len(sigs)} wall={ev["wall_s"]}s')
    if fresh:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        fresh.sort(key=lambda v: (len(v.get('log', [])), v.get('index', 0)))
        shown = set()
        for v in fresh:
            if v['key'] in shown: continue
            shown.add(v['key'])
            path = os.path.join(rd, f'{mod.PROP}-{len(shown)}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=mod.PROP, seed=seed, tier=tier, index=v['index'], **{
                    k: v[k] for k in ('key', 'msg', 'detail', 'log')}), f, indent=1)
            print(f'  {v["key"]}: {v["msg"]}')
            for e in v['log'][-6:]: print('    ', e)
            for k, x in v['detail'].items(): print('    ', k, '=', x)
            print(f'VIOLATION property={mod.PROP} replay={path}')
            if len(shown) >= 5: break
        return 1
    if incs or short_of:
        for i in incs[:5]: print('INCONCLUSIVE', i)
        for k, (a, b) in short_of.items(): print(f'INCONCLUSIVE counter {k}: observed {a}, need {b}')
        # a few harness-level hiccups do not matter when the monitors saw enough
        if short_of or any('harness error' in i or 'worker' in i or 'hard' in i for i in incs): return 2
        return 2 if not count else 0
    return 0

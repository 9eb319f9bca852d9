"""Seeded cooperative scheduler for real threads.

One thread runs at a time.  Scheduling points are the executed lines (or single bytecode instructions) of pcollections code, seen
through sys.monitoring, explicit points in the monitored user functions (lazy functions, __eq__, __hash__), and acquiring or
releasing a lock that pcollections made.  At each point the running thread asks the strategy whether another one should run.
Locks made by pcollections are replaced (through the names in the threading module) by cooperative ones, so that a thread that
waits is known to the scheduler and a state in which every unfinished thread waits for a lock is recognised as a deadlock without
any clock.  A thread that blocks in something else is noticed by the supervising thread, which lets another one run; it is only
called a deadlock when no thread can run and the operating system reports that none of them has been scheduled for seconds.
"""
import sys, os, threading, _thread, time

REAL_RLOCK, REAL_LOCK = threading.RLock, threading.Lock
PREFIX = None
LOCAL = threading.local()


class Abort(BaseException):
    """Ends a scheduled thread after a verdict."""


def current():
    return getattr(LOCAL, 'me', None)


def point():
    """A scheduling point in user code."""
    me = current()
    if me is not None: me.sched.point(me)


class CoopLock:
    """A lock (re-entrant or not) that tells the scheduler when a thread has to wait."""
    def __init__(self, real): self._real = real; self._waiters = []
    def acquire(self, blocking=True, timeout=-1):
        me = current()
        if me is None or not blocking: return self._real.acquire(blocking, timeout)
        me.sched.point(me)
        if timeout is not None and timeout >= 0:           # a bounded wait: let others run, then give up
            for _ in range(3):
                if self._real.acquire(False): return True
                me.sched.switch(me)
            return self._real.acquire(False)
        while not self._real.acquire(False):
            self._waiters.append(me)
            me.sched.wait(me)
        return True
    def release(self):
        self._real.release()
        me = current()
        w, self._waiters = self._waiters, []
        for x in w: x.sched.ready(x)
        if me is not None: me.sched.point(me)
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()
    def __getattr__(self, name): return getattr(self._real, name)
    def __repr__(self): return f'<coop {self._real!r}>'


class Gate:
    """An event that user code sets and waits for."""
    def __init__(self): self._real = threading.Event(); self._waiters = []
    def set(self):
        self._real.set()
        w, self._waiters = self._waiters, []
        for x in w: x.sched.ready(x)
    def wait(self):
        me = current()
        if me is None: return self._real.wait()
        me.sched.point(me)
        while not self._real.is_set():
            self._waiters.append(me)
            me.sched.wait(me)


def _ours():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None: return False
        if f.f_code.co_filename.startswith(PREFIX): return True
        f = f.f_back
    return False
def _rlock():
    r = REAL_RLOCK()
    return CoopLock(r) if _ours() else r
def _lock():
    r = REAL_LOCK()
    return CoopLock(r) if _ours() else r
def install(prefix):
    global PREFIX
    PREFIX = prefix
    threading.RLock = _rlock
    threading.Lock = _lock


class Thread:
    def __init__(self, sched, n, fn):
        self.sched, self.n, self.fn = sched, n, fn
        self.sem = _thread.allocate_lock(); self.sem.acquire()
        self.state = 'ready'          # ready, running, waiting, foreign, done
        self.tid = None
        self.error = None
        self.steps = 0


class Deadlock(Exception): pass
class Endless(Exception):
    """One thread has used millions of steps for operations on small collections."""


class Sched:
    def __init__(self, rng, opcodes=False, strategy='random', p=.1, span=400, depth=3):
        self.rng, self.opcodes = rng, opcodes
        self.threads = []
        self.guard = _thread.allocate_lock()
        self.running = None
        self.points = self.switches = 0
        self.trace = []               # thread numbers in the order in which they were switched to
        self.aborting = False
        self.deadlock = None
        self.over = _thread.allocate_lock(); self.over.acquire()
        self.strategy, self.p = strategy, p
        self.changes = set(rng.randrange(span) for _ in range(depth)) if strategy == 'pct' else ()
        self.foreign = self.alone = 0
        self.must_yield = False

    # ---- decisions (the caller is the running thread)
    def point(self, me):
        me.steps += 1
        if me.steps > 3_000_000: raise Endless()
        if self.aborting: raise Abort()
        if self.running is not me:                     # it was believed to be blocked
            with self.guard: me.state = 'ready'
            if not self._kick(): pass
            me.sem.acquire()
            if self.aborting: raise Abort()
        self.points += 1; self.alone += 1
        if self.must_yield or self.alone > 20000: pass       # fairness: busy waiting must not starve the others
        elif self.strategy == 'random':
            if self.rng.random() >= self.p: return
        elif self.strategy == 'pct':
            if self.points not in self.changes: return
        elif self.strategy == 'rr': pass
        self.switch(me)

    def choose(self, me):
        c = [t for t in self.threads if t.state == 'ready' and t is not me]
        if not c: return None
        if self.strategy == 'rr': return min(c, key=lambda t: (t.n <= me.n, t.n))
        return self.rng.choice(c)

    def switch(self, me):
        self.must_yield = False; self.alone = 0
        with self.guard:
            t = self.choose(me)
            if t is None: return
            me.state = 'ready'; t.state = 'running'; self.running = t
            self.switches += 1; self.trace.append(t.n)
        t.sem.release(); me.sem.acquire()
        if self.aborting: raise Abort()

    def wait(self, me):
        """The running thread waits for a lock."""
        with self.guard:
            me.state = 'waiting'
            t = self.choose(me)
            if t is not None:
                t.state = 'running'; self.running = t; self.switches += 1; self.trace.append(t.n)
            else:
                self.running = None
                if not any(x.state == 'foreign' for x in self.threads): self._dead()
        if t is not None: t.sem.release()
        me.sem.acquire()
        if self.aborting: raise Abort()

    def ready(self, t):
        with self.guard:
            if t.state == 'waiting': t.state = 'ready'
        if self.running is None: self._kick()

    def _kick(self):
        with self.guard:
            if self.running is not None: return False
            c = [t for t in self.threads if t.state == 'ready']
            if not c: return False
            t = self.rng.choice(c); t.state = 'running'; self.running = t; self.trace.append(t.n)
        t.sem.release(); return True

    def _dead(self):
        self.deadlock = [(t.n, t.state) for t in self.threads]
        self._abort()

    def _abort(self):
        self.aborting = True
        for t in self.threads:
            if t.state in ('waiting', 'ready'):
                t.state = 'running'; t.sem.release()
        try: self.over.release()
        except RuntimeError: pass

    def finish(self, me):
        with self.guard:
            me.state = 'done'
            if self.aborting: return
            t = self.choose(me)
            if t is not None: t.state = 'running'; self.running = t; self.trace.append(t.n)
            else:
                self.running = None
                left = [x for x in self.threads if x.state != 'done']
                if not left: self.over.release()
                elif not any(x.state == 'foreign' for x in left): self._dead()
        if t is not None: t.sem.release()

    def _main(self, t):
        t.tid = threading.get_native_id()
        LOCAL.me = t
        t.sem.acquire()
        try:
            if self.aborting: raise Abort()
            t.fn()
        except Abort: pass
        except BaseException as e: t.error = e
        finally:
            LOCAL.me = None
            self.finish(t)

    def run(self, fns):
        """Runs the functions as threads to the end.  Raises Deadlock."""
        observe()
        self.threads = [Thread(self, n, f) for n, f in enumerate(fns)]
        ts = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.threads]
        for t in ts: t.start()
        first = self.rng.choice(self.threads); first.state = 'running'; self.running = first; self.trace.append(first.n)
        first.sem.release()
        last = was = None; idle = 0
        while not self.over.acquire(timeout=.2):
            now = (self.points, tuple(t.state for t in self.threads))
            r = self.running
            if now != last:
                if last is not None and r is was: self.must_yield = True
                last = now; was = r; idle = 0; continue
            if r is not None and r.state == 'running':
                # no point was reached for a while: is the running thread asleep?
                if asleep(r.tid):
                    with self.guard:
                        if self.running is r and r.state == 'running':
                            r.state = 'foreign'; self.running = None; self.foreign += 1
                    self._kick()
                continue
            if r is not None: continue
            # nobody runs, and the threads that are left sleep in something the scheduler does not know
            idle += 1
            if idle > 25 and all(t.state in ('done', 'waiting') or asleep(t.tid) for t in self.threads):
                with self.guard:
                    self.deadlock = [(t.n, t.state) for t in self.threads]; self._abort()
        for t, th in zip(self.threads, ts):
            if not (self.aborting and t.state == 'foreign'): th.join(20)
        if self.deadlock is not None: raise Deadlock(self.deadlock, [repr(t.error) for t in self.threads if t.error is not None])
        for t in self.threads:
            if t.error is not None: raise t.error


# ---- observation: sys.monitoring events of pcollections code, switched on once per process and never changed afterwards
# (turning sys.settrace with opcodes on and off while other threads are inside the same code crashes CPython 3.12)
TOOL = 3
ACTIVE = False
def observe():
    global ACTIVE
    if ACTIVE: return
    ACTIVE = True
    import gc, types
    m = sys.monitoring; E = m.events
    seen = set()
    def add(code):
        if code in seen or not code.co_filename.startswith(PREFIX): return
        seen.add(code)
        for k in code.co_consts:
            if isinstance(k, types.CodeType): add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType): add(o.__code__)
    def line(code, n):
        me = getattr(LOCAL, 'me', None)
        if me is not None and not me.sched.opcodes: me.sched.point(me)
    def instruction(code, offset):
        me = getattr(LOCAL, 'me', None)
        if me is not None and me.sched.opcodes: me.sched.point(me)
    m.use_tool_id(TOOL, 'rv-sched')
    m.register_callback(TOOL, E.LINE, line); m.register_callback(TOOL, E.INSTRUCTION, instruction)
    for code in seen: m.set_local_events(TOOL, code, E.LINE | E.INSTRUCTION)


def asleep(tid):
    """The thread of this process sleeps and was not scheduled during the last tenth of a second."""
    def look():
        with open(f'/proc/self/task/{tid}/status') as f: s = f.read()
        return [l for l in s.splitlines() if l.startswith(('State', 'voluntary', 'nonvoluntary'))]
    try:
        a = look(); time.sleep(.1); b = look()
    except OSError: return False
    return a == b and 'S (' in a[0]


def free(fns, interval=1e-6, sleeping=lambda: False):
    """Free running threads with a very short switch interval; started together.  Raises Deadlock when all of those that are left
    sleep for seconds."""
    gate = threading.Barrier(len(fns)); errs = []; tids = {}
    def body(n, f):
        tids[n] = threading.get_native_id()
        gate.wait()
        try: f()
        except BaseException as e: errs.append(e)
    keep = sys.getswitchinterval()
    ts = [threading.Thread(target=body, args=(n, f), daemon=True) for n, f in enumerate(fns)]
    sys.setswitchinterval(interval)
    try:
        for t in ts: t.start()
        idle = 0
        while True:
            t = next((t for t in ts if t.is_alive()), None)
            if t is None: break
            t.join(.5)
            if not t.is_alive(): idle = 0; continue
            left = [n for n, t in enumerate(ts) if t.is_alive()]
            if left and not sleeping() and len(tids) == len(ts) and all(asleep(tids[n]) for n in left): idle += 1
            else: idle = 0
            if idle > 8 and all(ts[n].is_alive() for n in left): raise Deadlock(left)
    finally: sys.setswitchinterval(keep)
    if errs: raise errs[0]

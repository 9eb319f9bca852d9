"""Work and memory of one operation, for the same operation on collections of very different sizes.

Work is counted three ways: interpreter events (executed lines, calls) through sys.monitoring, peak allocation through tracemalloc,
and thread CPU time (only to notice loops inside C code; the bar is a 20-fold excess that persists over repetitions).
"""
import sys, time, tracemalloc, gc
from ..core import Violation, short, WATCH
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy
PROP = 'C20'
RULE = ('One case builds collections of one type and one history at three sizes (200, 3200, 51200 elements; thorough up to 409600) and '
        'runs every listed operation on each, measuring executed lines and calls, peak allocated memory and CPU time; an operation whose '
        'cost at the largest size is far above four times the cost at the smallest is a violation.  Distinct are different (type, '
        'history, operation, size).')
def plan(tier):
    global CHAIN
    if tier == 'thorough': CHAIN = 150             # below the smallest size: some chains delete one element per step
    return dict(cases=160 if tier == 'quick' else 1600, deadline=300 if tier == 'quick' else 700, workers=8)
TOOL = 3
CHAIN = 70
KINDS = ('plist', 'pset', 'pdict', 'llist', 'ldict')
SIZES = {'quick': (200, 3200, 51200), 'thorough': (200, 6400, 102400)}


class Events:
    def __init__(self): self.n = 0
    def run(self, f, a):
        m = sys.monitoring; E = m.events
        self.n = 0
        m.use_tool_id(TOOL, 'rv-work')
        def tick(*x): self.n += 1
        for ev in (E.LINE, E.CALL, E.PY_RESUME, E.PY_YIELD, E.JUMP): m.register_callback(TOOL, ev, tick)
        m.set_events(TOOL, E.LINE | E.CALL | E.PY_RESUME | E.PY_YIELD | E.JUMP)
        try: r = f(a)
        finally:
            m.set_events(TOOL, 0); m.free_tool_id(TOOL)
        return self.n, r


def memory(f, a):
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]; tracemalloc.reset_peak()
        r = f(a)
        return tracemalloc.get_traced_memory()[1] - base, r
    finally: tracemalloc.stop()


# ------------------------------------------------------------------ histories
def mk(kind):
    if kind == 'llist': return lambda i: lazy(lambda: i) if i % 7 == 0 else i
    if kind == 'ldict': return lambda i: lazy(lambda: i) if i % 7 == 0 else i
    return lambda i: i
def key(i): return ('k', i) if i % 3 == 0 else i
def build(kind, how, n, case):
    v = mk(kind)
    if kind in ('plist', 'llist'):
        P = plist if kind == 'plist' else llist
        if how == 0: return P([v(i) for i in range(n)])
        if how == 1:
            p = P()
            for i in range(n): p = p.append(v(i))
            return p
        if how == 2:
            t = P().transient()
            for i in range(n): t.prepend(v(i))
            return t.persistent()
        if how == 3:                      # shifted far to the right, deleted from the front
            t = P([v(i) for i in range(n)]).transient()
            for i in range(n // 2): t.append(v(i)); del t[0]
            return t.persistent()
        if how == 4:                      # both ends, many persistent() calls in between
            t = P([v(i) for i in range(n)]).transient(); keep = []
            for i in range(60): t.append(i); t.prepend(i); keep.append(t.persistent())
            p = t.persistent(); case.keep.append(keep); return p
        if how == 5:                      # shrunk from a larger one
            t = P([v(i) for i in range(2 * n)]).transient()
            for i in range(n // 2): t.pop(); t.pop(0)
            return t.persistent()
        if how == 6: return P([v(i) for i in range(n + 7)])[3:-4]
        p = P([v(i) for i in range(n)]); hash_(p)
        for i in range(40): p = p.set(i, i); p = p.prepend(i); p = p.delete(-1)
        return p
    items = [(key(i), v(i)) for i in range(n)]
    if kind == 'pset':
        xs = [k for k, _ in items]
        if how == 0: return pset(xs)
        if how == 1:
            p = pset()
            for x in xs: p = p.add(x)
            return p
        if how == 2:
            t = tset()
            for x in reversed(xs): t.add(x)
            return t.persistent()
        if how == 3:
            t = pset(xs).transient()
            for i in range(n // 2): t.discard(xs[i]); t.add(('new', i))
            for i in range(n // 2): t.discard(('new', i)); t.add(xs[i])
            return t.persistent()
        if how == 4:
            t = pset(xs).transient(); keep = []
            for i in range(60): t.add(('t', i)); keep.append(t.persistent())
            for i in range(60): t.discard(('t', i)); keep.append(t.persistent())
            case.keep.append(keep); return t.persistent()
        if how == 5: return pset(xs + [('x', i) for i in range(n)]).discardall([('x', i) for i in range(n)])
        if how == 6: return pset(xs[:n // 2]) | pset(xs[n // 2:])
        p = pset(xs); hash_(p)
        for i in range(40): p = p.discard(xs[i]); p = p.add(xs[i])
        return p
    P = pdict if kind == 'pdict' else ldict
    if how == 0: return P(items)
    if how == 1:
        p = P()
        for k, w in items: p = p.set(k, w)
        return p
    if how == 2:
        t = P().transient()
        for k, w in reversed(items): t[k] = w
        return t.persistent()
    if how == 3:
        t = P(items).transient()
        for i in range(n // 2): k = items[i][0]; del t[k]; t['new', i] = i
        for i in range(n // 2): del t['new', i]; t[items[i][0]] = i
        return t.persistent()
    if how == 4:
        t = P(items).transient(); keep = []
        for i in range(60): t['t', i] = i; keep.append(t.persistent())
        for i in range(60): del t['t', i]; keep.append(t.persistent())
        case.keep.append(keep); return t.persistent()
    if how == 5: return P(items + [(('x', i), 0) for i in range(n)]).dropall([('x', i) for i in range(n)])
    if how == 6: return P(items[:n // 2]).update(items[n // 2:])
    p = P(items); hash_(p)
    for i in range(40): k, w = items[i]; p = p.drop(k); p = p.set(k, w)
    return p
def touch(p):
    """Everything that might be remembered has been asked for before the operations are measured."""
    hash_(p); repr(p); str(p); p == p.copy(); p == p.transient(); list(p); p.copy(); t = p.transient(); t.persistent()
    if not isinstance(p, pset): list(reversed(p))
    if isinstance(p, (pdict, ldict)): list(p.items()); list(p.values()); list(p.keys())
def hash_(p):
    try: hash(p)
    except TypeError: pass


# ------------------------------------------------------------------ operations: name -> (prepare(p, rng), run(prepared))
def same(p, i): return p
def ops_for(kind, n, rng):
    O = {}
    def op(nm, run, prep=lambda p: p): O[nm] = (prep, run)
    def tr(nm, run): op('transient ' + nm, run, lambda p: p.transient())                              # first edit of a transient
    def tr2(nm, run, first): op('edited transient ' + nm, run, lambda p: later(p.transient(), first))    # later edit
    def later(t, first): first(t); return t
    def many(t, first):
        keep = []
        for i in range(30): first(t); keep.append(t.persistent())
        return t, keep
    i = rng.randrange(n)
    op('transient()', lambda p: p.transient())
    op('len', len)
    P = dict(plist=plist, llist=llist, pset=pset, pdict=pdict, ldict=ldict)[kind]; TR = dict(plist=tlist, llist=tllist, pset=tset, pdict=tdict, ldict=tldict)[kind]
    if kind in ('plist', 'llist'):
        op('set', lambda p: p.set(i, None)); op('set last', lambda p: p.set(-1, None)); op('append', lambda p: p.append(1)); op('prepend', lambda p: p.prepend(1))
        op('delete last', lambda p: p.delete()); op('delete first', lambda p: p.delete(0)); op('pop last', lambda p: p.pop()); op('pop first', lambda p: p.pop(0))
        op('lookup', lambda p: p[i]); op('lookup first', lambda p: p[0]); op('lookup last', lambda p: p[-1]); op('drop last', lambda p: p.drop())
        op('append twice', lambda p: p.append(1).append(2)); op('prepend append', lambda p: p.prepend(1).append(2)); op('insert at end', lambda p: p.insert(len(p), 0))
        for j in (1, 2, 5):
            op(f'insert at {j}', lambda p, j=j: p.insert(j, 0)); op(f'insert at -{j}', lambda p, j=j: p.insert(-j, 0))
            op(f'delete at {j}', lambda p, j=j: p.delete(j)); op(f'delete at -{j + 1}', lambda p, j=j: p.delete(-j - 1))
        op('pop at 2', lambda p: p.pop(2)); op('pop at -3', lambda p: p.pop(-3)); op('drop at -2', lambda p: p.drop(-2)); op('drop out of range', lambda p: p.drop(len(p)))
        op('extend', lambda p: p.extend([1, 2])); op('extend by none', lambda p: p.extend(())); op('+', lambda p: p + [1]); op('+ plist', lambda p: p + plist([1])); op('radd', lambda p: [1] + p)
        op('short slice', lambda p: p[i:i + 3]); op('short tail', lambda p: p[-3:]); op('short backwards', lambda p: p[3::-1]); op('convert', lambda p: type(p)(p)); op('tlist()', TR)
        op('convert back', lambda t: P(t), lambda p: later(p.transient(), first)); op('convert unedited back', lambda t: P(t), lambda p: p.transient())
        op('copy', lambda p: p.copy())
        edits = [('set', lambda t: t.__setitem__(i, None)), ('append', lambda t: t.append(1)), ('prepend', lambda t: t.prepend(1)), ('del first', lambda t: t.__delitem__(0)),
                 ('del last', lambda t: t.__delitem__(-1)), ('pop last', lambda t: t.pop()), ('pop first', lambda t: t.pop(0)), ('read', lambda t: t[i]),
                 ('insert at 2', lambda t: t.insert(2, 0)), ('insert at -2', lambda t: t.insert(-2, 0)), ('del at 2', lambda t: t.__delitem__(2)), ('del at -3', lambda t: t.__delitem__(-3)),
                 ('extend', lambda t: t.extend((1, 2))), ('+=', lambda t: t.__iadd__([1])), ('set last', lambda t: t.__setitem__(-1, 3)), ('clear', lambda t: t.clear())]
        first = lambda t: t.append(0)
    elif kind == 'pset':
        k = key(i)
        op('add', lambda p: p.add('new')); op('add present', lambda p: p.add(k)); op('discard', lambda p: p.discard(k)); op('discard absent', lambda p: p.discard('q'))
        op('remove', lambda p: p.remove(k)); op('in', lambda p: k in p); op('not in', lambda p: 'q' in p)
        op('addall', lambda p: p.addall(('new', k))); op('discardall', lambda p: p.discardall((k, 'q'))); op('removeall', lambda p: p.removeall((k,))); op('union', lambda p: p.union(('new', k)))
        op('difference', lambda p: p.difference((k, 'q'))); op('|', lambda p: p | {'new'}); op('-', lambda p: p - {k, 'q'}); op('addall none', lambda p: p.addall(()))
        op('pop', lambda p: p.pop()); op('issuperset', lambda p: p.issuperset([k, 'q'])); op('convert', lambda p: pset(p)); op('tset()', TR); op('copy', lambda p: p.copy())
        op('convert back', lambda t: pset(t), lambda p: later(p.transient(), lambda t: t.add('first'))); op('convert unedited back', lambda t: pset(t), lambda p: p.transient())
        edits = [('add', lambda t: t.add('new')), ('add present', lambda t: t.add(k)), ('discard', lambda t: t.discard(k)), ('remove', lambda t: t.remove(k)), ('in', lambda t: k in t), ('addall', lambda t: t.addall(('new', k))),
                 ('discardall', lambda t: t.discardall((k, 'q'))), ('|=', lambda t: t.__ior__({'new'})), ('-=', lambda t: t.__isub__({k})), ('pop', lambda t: t.pop()), ('clear', lambda t: t.clear())]
        first = lambda t: t.add('first')
    else:
        k = key(i)
        op('set new', lambda p: p.set('new', 1)); op('set', lambda p: p.set(k, None)); op('drop', lambda p: p.drop(k)); op('drop absent', lambda p: p.drop('q'))
        op('pop', lambda p: p.pop(k)); op('pop absent', lambda p: p.pop('q', 0)); op('delete', lambda p: p.delete(k)); op('lookup', lambda p: p[k]); op('get', lambda p: p.get('q'))
        op('in', lambda p: k in p); op('setdefault', lambda p: p.setdefault(k, 1)); op('setdefault new', lambda p: p.setdefault('new', 1))
        op('keys view', lambda p: k in p.keys()); op('items view', lambda p: (k, 1) in p.items()); op('len view', lambda p: len(p.items()))
        op('update', lambda p: p.update({'new': 1, k: 2})); op('update pairs', lambda p: p.update([(k, 1)], new=2)); op('setall', lambda p: p.setall(['new', k], [1, 2])); op('update none', lambda p: p.update())
        op('dropall', lambda p: p.dropall([k, 'q'])); op('deleteall', lambda p: p.deleteall([k])); op('popitem', lambda p: p.popitem()); op('convert', lambda p: P(p)); op('tdict()', TR); op('copy', lambda p: p.copy())
        op('convert back', lambda t: P(t), lambda p: later(p.transient(), lambda t: t.__setitem__('first', 1))); op('convert unedited back', lambda t: P(t), lambda p: p.transient())
        op('value view', lambda p: len(p.values())); op('not in', lambda p: 'q' in p)
        edits = [('set new', lambda t: t.__setitem__('new', 1)), ('set', lambda t: t.__setitem__(k, 1)), ('del', lambda t: t.__delitem__(k)), ('pop', lambda t: t.pop(k)),
                 ('setdefault', lambda t: t.setdefault('n', 1)), ('read', lambda t: t[k]), ('get', lambda t: t.get('q')), ('update', lambda t: t.update({'new': 1, k: 2})), ('popitem', lambda t: t.popitem()), ('clear', lambda t: t.clear())]
        first = lambda t: t.__setitem__('first', 1)
    for nm, f in edits:
        tr(nm, f); tr2(nm, f, first)
        op('transient, ' + nm + ', persistent', lambda p, f=f: (lambda t: (f(t), t.persistent()))(p.transient()))
        op(nm + ' after many persistent()', lambda tk, f=f: f(tk[0]), lambda p: many(p.transient(), first))
    def chain(nm, step, start=lambda p: p):
        def run(q):
            for j in range(CHAIN): q = step(q, j)
            return q
        op(f'{CHAIN} times {nm}', run, start)
    def on(f):
        def step(t, j): f(t, j); return t
        return step
    def per(f):
        def step(t, j): f(t, j); t.persistent(); return t
        return step
    if kind in ('plist', 'llist'):
        chain('append', lambda p, j: p.append(j)); chain('prepend', lambda p, j: p.prepend(j)); chain('delete first', lambda p, j: p.delete(0)); chain('delete last', lambda p, j: p.delete())
        chain('set', lambda p, j: p.set((i + 37 * j) % n, j)); chain('append, delete first', lambda p, j: p.append(j).delete(0)); chain('prepend, delete last', lambda p, j: p.prepend(j).delete())
        chain('append prepend', lambda p, j: p.append(j) if j % 3 else p.prepend(j)); chain('pop', lambda p, j: p.pop()[1] if j % 2 else p.pop(0)[1])
        te = [('append', lambda t, j: t.append(j)), ('prepend', lambda t, j: t.prepend(j)), ('del first', lambda t, j: t.__delitem__(0)), ('pop', lambda t, j: t.pop()),
              ('set', lambda t, j: t.__setitem__((i + 37 * j) % n, j)), ('append, del first', lambda t, j: (t.append(j), t.pop(0))), ('prepend, del last', lambda t, j: (t.prepend(j), t.pop()))]
    elif kind == 'pset':
        chain('add', lambda p, j: p.add(('c', j))); chain('discard', lambda p, j: p.discard(key((i + j) % n))); chain('discard, add', lambda p, j: p.discard(key((i + j) % n)).add(key((i + j) % n)))
        te = [('add', lambda t, j: t.add(('c', j))), ('discard', lambda t, j: t.discard(key((i + j) % n))), ('add, discard', lambda t, j: (t.add(('c', j)), t.discard(key((i + j) % n)))),
              ('add and discard', lambda t, j: (t.add(('c', j)), t.discard(('c', j))))]
    else:
        chain('set new', lambda p, j: p.set(('c', j), j)); chain('set', lambda p, j: p.set(key((i + j) % n), j)); chain('drop', lambda p, j: p.drop(key((i + j) % n)))
        chain('drop, set', lambda p, j: p.drop(key((i + j) % n)).set(key((i + j) % n), j)); chain('pop', lambda p, j: p.pop(key((i + j) % n), 0)[1])
        te = [('set new', lambda t, j: t.__setitem__(('c', j), j)), ('set', lambda t, j: t.__setitem__(key((i + j) % n), j)), ('del', lambda t, j: t.pop(key((i + j) % n), 0)),
              ('set and del', lambda t, j: (t.__setitem__(('c', j), j), t.pop(('c', j)))), ('set, del', lambda t, j: (t.__setitem__(('c', j), j), t.pop(key((i + j) % n), 0)))]
    for nm, f in te: chain('transient ' + nm, on(f), lambda p: p.transient()); chain('transient ' + nm + ' and persistent()', per(f), lambda p: p.transient())
    op('persistent()', lambda t: t.persistent(), lambda p: later(p.transient(), first))
    op('persistent() unedited', lambda t: t.persistent(), lambda p: p.transient())
    op('persistent() after many', lambda tk: (first(tk[0]), tk[0].persistent()), lambda p: many(p.transient(), first))
    op('transient copy', lambda t: t.copy(), lambda p: later(p.transient(), first))
    return O


def cpu(prep, run, p, reps):
    best = None
    for _ in range(reps):
        a = prep(p)
        t = time.thread_time_ns(); run(a); t = time.thread_time_ns() - t
        if best is None or t < best: best = t
    return best


def run_case(case):
    rng = case.rng; c = case.count; case.keep = []
    kind = KINDS[case.index % 5]; how = (case.index // 5) % 8
    ns = SIZES[case.tier]
    if case.tier == 'thorough' and case.index % 97 == 13: ns = (200, 12800, 409600)
    off = rng.randrange(64); ns = tuple(n + off for n in ns)
    ps = []
    gc.disable()
    try:
        for n in ns:
            case.op('build', kind, how, n); WATCH.start_case()
            ps.append(build(kind, how, n, case))
            if case.index // 40 % 2: touch(ps[-1])
        seeds = rng.random()
        tables = [ops_for(kind, n, __import__('random').Random(seeds)) for n in (len(p) for p in ps)]
        for nm in tables[0]:
            case.op(kind, how, nm)
            L, M = [], []
            for p, T, n in zip(ps, tables, ns):
                prep, run = T[nm]
                e = Events(); run(prep(p))                      # once unmeasured: caches and lazies settle
                a = prep(p); l, r = e.run(run, a); L.append(l); del r, a
                a = prep(p); m, r = memory(run, a); M.append(m); del r, a
                c['evaluations'] += 1; c['events'] += l; c['kilobytes'] += m >> 10
                case.sig(kind, how, nm, n)
            if L[2] > 4 * L[0] + 300:
                raise Violation(f'{kind}:{nm}:work', f'{nm} on a {kind} (history {how}) executes {L} interpreter events at sizes {ns}', memory=M)
            # a chain on a small collection comes to the same few nodes again and again: what it leaves behind is compared with the middle size
            if M[2] > 4 * (max(M[0], M[1]) if ' times ' in nm else M[0]) + 48 * 1024:
                raise Violation(f'{kind}:{nm}:memory', f'{nm} on a {kind} (history {how}) allocates {M} bytes at sizes {ns}', events=L)
            # loops inside C code: CPU time, only a persistent excess of a factor of 20 (linear growth would be a factor of 256)
            t0, t2 = cpu(*tables[0][nm], ps[0], 3), cpu(*tables[2][nm], ps[2], 3)
            for reps in (10, 40, 100) if 'times' not in nm else (5, 10, 20):
                if t2 <= 20 * t0 + 300_000: break
                c['cpu repetitions'] += 1
                t0, t2 = cpu(*tables[0][nm], ps[0], reps), cpu(*tables[2][nm], ps[2], reps)
            else:
                raise Violation(f'{kind}:{nm}:cpu', f'{nm} on a {kind} (history {how}) needs {t2} ns at size {ns[2]} but {t0} ns at size {ns[0]}', events=L, memory=M)
            c['operations'] += 1
            c['max events'] = max(c['max events'], L[2]); c['max bytes'] = max(c['max bytes'], M[2])
        if case.sample is None: case.sample = dict(kind=kind, history=how, op=nm, events=L, bytes=M, cpu_ns=(t0, t2))
    finally:
        gc.enable(); case.keep = []
MIN = {'evaluations': 8000, 'operations': 2500}
ASSUME = ['elements have distinct hashes (colliding keys are compared one by one)',
          'CPU time is only used for a 20-fold excess over the smallest size that persists in 100 repetitions']

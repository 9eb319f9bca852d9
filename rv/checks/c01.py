import copy
from ..core import Violation, short
from ..family import *
from .. import interrupt
PROP = 'C01'
BUSY = 2
RULE = ('One case is a family of up to 11 collections derived from one start (versions, slices, transients, copies, raw '
        'views), driven by 25-90 random operations on random members; after every operation every persistent member is '
        'read again (content by identity, length) and regularly observed in full (hash, repr, all lookups).  Item and '
        'attribute writes are attempted.  An evaluation is one re-read of a persistent member; distinct are different '
        '(kind, operation, size, member).')
def plan(tier): return dict(cases=9000 if tier == 'quick' else 250000, deadline=300 if tier == 'quick' else 600)


def attempt_write(fm, m):
    rng = fm.rng; o = m.obj
    names = [n for n in dir(o) if not n.startswith('__')] + ['foo', '__dict__', '_data', '__class__', '__doc__', 'n', '_cache', '', 'é']
    if rng.random() < .35: names = [n for n in dir(o) if n.startswith('__')] + ['__note', '__foo__', '__weakref__', '__dict__', '__class__', '__x', '__wrapped__', '___']
    hidden = [n for c in type(o).__mro__ for n in (c.__dict__.get('__slots__') or ())]
    k = rng.randrange(6)
    n = rng.choice(names + [h for h in hidden if isinstance(h, str)] * 3)
    key = 0
    if not isinstance(m.snap, Exception) and m.snap:
        key = rng.choice(m.snap)[0] if m.fam == 'map' else rng.randrange(len(m.snap))
    had = outcome(lambda: getattr(o, n)) if k in (0, 1) else None
    if k == 0:
        v = rng.choice((None, 0, {}, [], type(o), PAIR[m.kind], type('Sub', (type(o),), {}), len, lambda *a: 0, (), '', 5, o, m.obj.transient()))
        if n == '__class__' and rng.random() < .7:
            v = rng.choice((type(o), type('Sub', (type(o),), {}), type('Sub', (type(o),), {'__slots__': ()})) + tuple(c for c in CTOR.values()))
        lab, f = ('setattr', n), lambda: setattr(o, n, v)
    elif k == 1: lab, f = ('delattr', n), lambda: delattr(o, n)
    elif k == 2: lab, f = ('setitem', key), lambda: o.__setitem__(key, ABSENT)
    elif k == 3:
        def f(): o[key] = ABSENT
        lab = ('setitem', key)
    elif k == 4:
        def f(): del o[key]
        lab = ('delitem', key)
    else:
        def f(): o[0:1] = []
        lab = ('setslice',)
    fm.case.op(m.name, m.kind, 'write', *lab)
    fm.case.count['write_attempts'] += 1
    r, e = attempt(f)
    if not isinstance(e, TypeError):
        raise Violation(f'{m.kind}:{lab[0]}', f'{short(lab)} on a {m.kind} '
                        + (f'raised {e!r}' if e is not None else 'was accepted') + ' instead of raising TypeError')
    if k in (0, 1):
        has = outcome(lambda: getattr(o, n))
        if has is not had and type(has) is not type(had) or type(o) is not CTOR[m.kind]:
            raise Violation(f'{m.kind}:{lab[0]}:effect', f'{short(lab)} on a {m.kind} raised TypeError but took effect', before=short(had), after=short(has))
    fm.verify_full(m, lab)
    return lab


def again(fm, m):
    """Running the initialisers once more on an existing object."""
    rng = fm.rng; o = m.obj
    a = rng.choice(((), ([1, 2],), ({1: 2},), ([(5, 6)],)))
    fm.case.op(m.name, m.kind, 'init again', a)
    attempt(lambda: o.__init__(*a))
    fm.case.count['init again'] += 1
    fm.verify_full(m, ('__init__', a))


def ready(fm, m):
    o = m.obj
    fm.case.op(m.name, m.kind, 'ready_all')
    r, e = attempt(o.ready_all)
    fm.case.count['ready_all'] += 1
    if e is None and r is not o: fm.add(r, (m.name, 'ready_all'))


def every_line(fm, m):
    """A read or an operation of a persistent member, interrupted at every line in turn."""
    rng = fm.rng; o = m.obj; c = fm.case.count
    x = rng.choice(list(o) or [0]) if not isinstance(m.snap, Exception) else 0
    reads = [hash, repr, str, len, list, lambda o: o == type(o)(o.transient()), lambda o: x in o, lambda o: o.transient().persistent(), lambda o: o.copy(),
             lambda o: type(o)(o), lambda o: PAIR[m.kind](o), lambda o: o.clear(), lambda o: next(iter(o)), lambda o: o == list(o), lambda o: copy.copy(o)]
    if m.fam == 'seq': reads += [lambda o: o[-1], lambda o: o[0], lambda o: o[1:-1], lambda o: o.index(x), lambda o: list(reversed(o)), lambda o: o < o, lambda o: o.set(0, ABSENT),
                                 lambda o: o.append(1).prepend(2), lambda o: o.insert(1, ABSENT), lambda o: o.delete(0), lambda o: o.pop(), lambda o: o.sort(key=id),
                                 lambda o: o.reverse(), lambda o: o * 2, lambda o: o + o, lambda o: o.extend([1, 2]), lambda o: o.remove(x)]
    elif m.fam == 'set': reads += [lambda o: o.add(ABSENT), lambda o: o.discard(x), lambda o: o | {ABSENT}, lambda o: o & {x}, lambda o: o ^ {x, ABSENT}, lambda o: o - {x}, lambda o: o <= {x},
                                   lambda o: o.addall([1, ABSENT]), lambda o: o.pop(), lambda o: o.remove(x), lambda o: o.discardall([x])]
    else: reads += [lambda o: o[x], lambda o: o.get(ABSENT), lambda o: list(o.items()), lambda o: list(o.values()), lambda o: list(reversed(o)), lambda o: o.set(x, ABSENT), lambda o: o.set(ABSENT, 1),
                    lambda o: o.drop(x), lambda o: o.update({x: 1, ABSENT: 2}), lambda o: o.popitem(), lambda o: o.setall([x, 2], [3, 4]), lambda o: o.dropall([x]), lambda o: o.setdefault(ABSENT, 1)]
    if m.kind in ('llist', 'ldict'): reads += [lambda o: holdlazy(o), lambda o: o.ready_all()]
    i = rng.randrange(len(reads)); f = reads[i]
    fm.case.op(m.name, m.kind, 'every line of', i)
    k = 1
    while k < 400:
        r, e, n = interrupt.run(lambda: f(o), k)
        if n < k: break
        c['interrupted'] += 1
        now = snap(m.fam, o); c['evaluations'] += 1
        if not snap_same(now, m.snap): raise Violation(f'{m.kind}:interrupted', f'{m.name} ({m.kind}) changed when operation {i} was interrupted at line {k}', before=m.snap, after=now)
        k += 1 if k < 25 else rng.randrange(1, 12)
    fm.case.sig(m.kind, 'every line', i, n)
    fm.verify_full(m, ('interrupted', i))


def run_case(case):
    rng = case.rng
    fm = Family(case, large=case.index % 300 == 7)
    if (case.index // 10) % BUSY == 1 and rng.random() < .3 and not fm.large: fm.interrupts = True; case.count['interrupted cases'] += 1
    fm.start()
    its = []
    for step in range(rng.randrange(25, 90) if not fm.large else 8):
        m = rng.choice(fm.members)
        if fm.interrupts and m.pers and rng.random() < .1:
            every_line(fm, m); fm.verify(m, ('interrupted',), 'persistent'); continue
        q = rng.random(); changed = m
        if q < .50: lab = fm.edit(m)
        elif q < .72: lab = ('derive',); fm.derive(m)
        elif q < .76:
            lab = ('raw',); fm.raw(m)
        elif q < .84:
            lab = ('cross',); fm.cross(m, rng.choice(fm.members))
        elif q < .87: lab = ('mutate argument',); changed = None; fm.mutate_held()
        elif q < .90:                                   # a half consumed iterator stays in use
            lab = ('iterate',); changed = None
            if its and rng.random() < .7: attempt(next, rng.choice(its))
            else:
                i, e = attempt(rng.choice((iter, reversed)), m.obj)
                if e is None: its.append(i)
        elif m.pers and q < .91: lab = ('__init__',); changed = None; again(fm, m)
        elif m.kind in ('llist', 'ldict') and q < .94: lab = ('ready_all',); ready(fm, m)
        elif m.pers:
            lab = attempt_write(fm, m); changed = None
        else: continue
        fm.verify(changed, lab, 'persistent')
        ps = [x for x in fm.members if x.pers]
        if ps: fm.verify_full(rng.choice(ps), lab)
    fm.verify(None, ('end',), 'persistent', full=True)
    if case.sample is None: case.sample = [short(e, 120) for e in case.log[:10]]
MIN = {'large': 20, 'evaluations': 100000, 'full_observations': 20000, 'write_attempts': 3000, 'cross': 3000, 'derive:transient': 2000,
       'derive:persistent': 2000, 'derive:slice': 200, 'derive:ctor-pair': 500, 'derive:copy': 500, 'interrupted': 30000}

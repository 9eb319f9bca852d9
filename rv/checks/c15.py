"""Type and identity of every result, over families of collections."""
from ..core import Violation, short
from ..family import *
from ..values import HASHABLE
PROP = 'C15'
BUSY = 2
RULE = ('One case is a family of related collections driven by 15-50 random operations; every derived version must have the type of '
        'its receiver, conversions must pair the types, and after every operation a random member is probed with operations without '
        'effect (result must be the receiver itself) and with operations that empty it (result must be the empty instance). '
        'An evaluation is one type or identity comparison; distinct are different (type, operation, size).')
def plan(tier): return dict(cases=24000 if tier == 'quick' else 300000, deadline=300 if tier == 'quick' else 600)
MIXED = {'add', 'extend'}


class Fam(Family):
    def add(self, obj, lab, expect=None):
        return super().add(obj, lab, None)
    def on_result(self, m, lab, obj):
        if lab[0] == 'add' and lab[1] != 'list': return
        self.case.count['evaluations'] += 1; self.case.count['result_types'] += 1
        self.case.count['type:' + m.kind] += 1
        if type(obj) is not type(m.obj):
            raise Violation(f'{m.kind}:{lab[0]}:type', f'{short(lab)} on a {m.kind} returned a {type(obj).__name__}', before=m.snap)
    def on_derived(self, m, name, r):
        want = {'ctor-pair': PAIR[m.kind], 'ctor-own': CTOR[m.kind], 'copy': CTOR[m.kind], 'transient': PAIR[m.kind],
                'persistent': PAIR[m.kind], 'slice': CTOR[m.kind]}.get(name) or CTOR[name]
        self.case.count['evaluations'] += 1; self.case.count['conversion_types'] += 1
        if type(r) is not want:
            raise Violation(f'{m.kind}:{name}:type', f'{name} of a {m.kind} gave a {type(r).__name__}, not a {want.__name__}', before=m.snap)


def ident(case, m, lab, f, want):
    case.op('probe', m.name, m.kind, lab)
    r, e = attempt(f)
    case.count['evaluations'] += 1; case.count['probe:' + lab] += 1
    case.sig(m.kind, lab, len(m.obj))
    if e is not None:
        raise Violation(f'{m.kind}:{lab}:raises', f'{lab} on a {m.kind} raised {e!r}', content=m.snap)
    if r is not want:
        raise Violation(f'{m.kind}:{lab}:identity', f'{lab} on a {m.kind} did not return '
                        f'{"the receiver" if want is m.obj else "the empty instance"} but {short(r)} ({type(r).__name__})', content=m.snap)


class Absent:
    """Hashes like something present, equal to nothing."""
    def __init__(self, h): self.h = h
    def __hash__(self): return self.h


def noop_probes(case, fm, m):
    rng = case.rng; o = m.obj; T = type(o); P = T if m.pers else PAIR[m.kind]
    s = m.snap
    if isinstance(s, Exception): return
    n = len(o); c = []
    if m.pers:
        c.append(('copy', lambda: o.copy(), o))
        c.append(('clear', lambda: o.clear(), T.empty))
        c.append(('empty constructor', lambda: T(), T.empty))
        if n:
            def rt():
                t = o.transient(); list(t); len(t); repr(t); str(t); t == o
                return t.persistent()
            c.append(('transient-persistent', rt, o))
            c.append(('transient-persistent', lambda: o.transient().persistent(), o))
        c.append(('emptied transient', lambda: emptied(rng, o.transient()), T.empty))
        if m.fam == 'seq':
            get = o.getlazy if m.kind == 'llist' else o.__getitem__
            if n:
                i = rng.randrange(-n, n)
                c += [('set same', lambda: o.set(i, get(i)), o)] * 2
            for j in (n, n + 1, -n - 1, n + 1000): c.append(("drop out of range", lambda j=j: o.drop(j), o))
            c.append(('+ []', lambda: o + [], o)); c.append(('[] +', lambda: [] + o, o))
            c.append(('* 1', lambda: o * 1, o)); c.append(('* 1', lambda: 1 * o, o))
            c.append(('* 0', lambda: o * 0, T.empty))
            if not n: c.append(('drop from empty', lambda: o.drop(), o))
        elif m.fam == 'set':
            xs = rng.sample(s, rng.randrange(0, n + 1)) if n else []
            ab = [Absent(rng.choice([hash(x) for x in s] or [0])) for _ in range(rng.randrange(1, 4))]
            if n: x = rng.choice(s); c += [('add present', lambda: o.add(x), o)] * 2
            c += [('addall present', lambda: o.addall(list(xs)), o), ('union present', lambda: o.union(xs, set(xs)), o),
                  ('discard absent', lambda: o.discard(ab[0]), o), ('discardall absent', lambda: o.discardall(ab), o),
                  ('difference absent', lambda: o.difference(ab, set(ab)), o),
                  ('intersection superset', lambda: o.intersection(list(s) + ab), o), ('union nothing', lambda: o.union(), o),
                  ('difference nothing', lambda: o.difference(), o), ('intersection nothing', lambda: o.intersection(), o)]
        else:
            get = o.getlazy if m.kind == 'ldict' else o.get
            ab = Absent(rng.choice([hash(k) for k, _ in s] or [0]))
            if n:
                k = rng.choice(s)[0]
                c += [('set same', lambda: o.set(k, get(k)), o)] * 2
                c.append(('setdefault present', lambda: o.setdefault(k, ab), o))
                c.append(('setdefault present', lambda: o.setdefault(k), o))
            c.append(('drop absent', lambda: o.drop(ab), o))
    else:
        c += [('copy type', lambda: type(o.copy()), T), ('persistent type', lambda: type(o.persistent()), P),
              ('emptied copy', lambda: emptied(rng, o.copy()), P.empty), ('empty constructor', lambda: T().persistent(), P.empty),
              ('persistent of empty', lambda: (o.persistent() if n == 0 else P.empty), P.empty)]
        if m.fam == 'set':
            c += [('|', lambda: type(o | set()), T), ('&', lambda: type(o & set(s)), T), ('-', lambda: type(o - set()), T),
                  ('^', lambda: type(o ^ set()), T), ('union', lambda: type(o.union([])), T),
                  ('difference', lambda: type(o.difference([])), T), ('intersection', lambda: type(o.intersection(s)), T)]
        if m.fam == 'seq':
            c += [('+', lambda: type(o + []), T), ('*', lambda: type(o * 1), T), ('slice', lambda: type(o[:]), T),
                  ('[]+', lambda: type([] + o), T), ('+', lambda: type(o + [1]), T)]
    if m.fam == 'set':           # a builtin set on the left, one on the right: the type is the receiver's
        import operator as op
        fs = rng.choice((set, frozenset))(rng.choice(([], list(s), s[:rng.randrange(n + 1)], [Absent(1), Absent(2)], s[:1] + [Absent(3)])))
        for f in (op.or_, op.and_, op.sub, op.xor):
            c += [('reflected ' + f.__name__, lambda f=f: type(f(fs, o)), T), ('set ' + f.__name__, lambda f=f: type(f(o, fs)), T)]
    for lab, f, want in rng.sample(c, min(5, len(c))):
        ident(case, m, lab, f, want)


def emptied(rng, t):
    """Removes everything from a transient in one of several ways, then persists it."""
    q = rng.randrange(4)
    if q == 0: t.clear()
    elif isinstance(t, tlist):
        while len(t):
            if q == 1: t.pop()
            elif q == 2: t.pop(0)
            else: del t[rng.randrange(len(t))]
    else:
        for k in list(t):
            if q == 1 and not isinstance(t, tset): del t[k]
            elif q == 2: t.discard(k) if isinstance(t, tset) else t.pop(k)
            else: t.remove(k) if isinstance(t, tset) else t.__delitem__(k)
    return t.persistent()


def run_case(case):
    rng = case.rng
    fm = Fam(case, full=False, cap=8, large=case.index % 250 == 7)
    fm.start()
    for step in range(rng.randrange(15, 50) if not fm.large else 12):
        m = rng.choice(fm.members) if rng.random() < .5 else rng.choice([x for x in fm.members if x.pers] or fm.members)
        q = rng.random()
        if q < .7: fm.edit(m)
        else: fm.derive(m)
        for x in fm.members:
            if not x.pers: x.snap = snap(x.fam, x.obj)
        noop_probes(case, fm, rng.choice(fm.members))
    if case.sample is None: case.sample = [short(e, 120) for e in case.log[:10]]
MIN = {'large': 50, 'evaluations': 200000, 'result_types': 40000, 'conversion_types': 20000}
for _t in ('plist', 'llist', 'pset', 'pdict', 'ldict'): MIN['type:' + _t] = 3000
for _p in ('copy', 'clear', 'empty constructor', 'transient-persistent', 'emptied transient', 'set same', 'drop out of range', '+ []',
           '* 1', 'add present', 'addall present', 'union present', 'discard absent', 'discardall absent', 'difference absent',
           'intersection superset', 'setdefault present', 'drop absent', 'copy type', 'emptied copy', 'persistent of empty'):
    MIN['probe:' + _p] = 300
ASSUME = ['the type of a result of mixing two different pcollections types is not claimed']

"""Family monitor: related versions, transients, slices, copies and views that share structure.

Every member carries the observation made when it was created (or, for a transient, after its own last edit).  After every
operation on any member all others are read again: a difference is interference.  The operations are the subject side of
the operation tables; whether they compute the right thing is not this monitor's business (C02-C07), so an operation that
raises is simply logged.
"""
from .core import Violation, short
from . import values, ops, interrupt
from .ops import NOTHING, FOREIGN, Env, KINDS
from .engine import wrapper, attempt, churned
from pcollections import (plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy, holdlazy)

KIND_OF = {plist: 'plist', tlist: 'tlist', llist: 'llist', tllist: 'tllist', pset: 'pset', tset: 'tset', pdict: 'pdict',
           tdict: 'tdict', ldict: 'ldict', tldict: 'tldict'}
PERS = {'plist', 'llist', 'pset', 'pdict', 'ldict'}
LAZY = {'llist', 'tllist', 'ldict', 'tldict'}
PAIR = {'plist': tlist, 'tlist': plist, 'llist': tllist, 'tllist': llist, 'pset': tset, 'tset': pset, 'pdict': tdict,
        'tdict': pdict, 'ldict': tldict, 'tldict': ldict}
CTOR = {k: c for c, k in KIND_OF.items()}
GROUPS = {'list': ('plist',), 'set': ('pset',), 'dict': ('pdict',), 'llist': ('llist',), 'ldict': ('ldict',)}
FAM = {k: v[0] for k, v in KINDS.items()}


def snap(fam, obj):
    """Content in iteration order, to be compared by identity; or the kind of error that reading it gives."""
    try:
        if fam == 'map': return [(k, obj[k]) for k in obj]
        return list(iter(obj))
    except Exception as e:
        return e


def snap_same(a, b):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a) is type(b)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x is y: continue
        if type(x) is tuple is type(y) and len(x) == 2 == len(y) and x[0] is y[0] and x[1] is y[1]: continue
        return False
    return True


def outcome(f, *a):
    try: return f(*a)
    except Exception as e: return type(e)


def osame(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, list): return snap_same(a, b)
    if isinstance(a, tuple): return len(a) == len(b) and all(map(osame, a, b))
    if isinstance(a, (int, str)): return a == b
    return False


def stored(obj, i):
    """What is stored: the lazy object, or the plain element (for which getlazy makes a new lazy)."""
    l = obj.getlazy(i)
    return l if obj.is_lazy(i) is True else ('plain', l.is_ready(), l())
ABSENT = object()
def observe(fam, obj):
    """Everything a user can see of a persistent collection, as (label, outcome) pairs."""
    s = snap(fam, obj)
    out = [('content', s), ('len', outcome(len, obj)), ('bool', outcome(bool, obj))]
    if isinstance(s, Exception): return out
    for x in s:                                   # raw lazies are evaluated first: becoming ready is the permitted change
        v = x[1] if fam == 'map' else x
        if isinstance(v, lazy): outcome(v)
    out.append(('hash', outcome(hash, obj)))
    out.append(('repr', outcome(repr, obj)))
    out.append(('str', outcome(str, obj)))
    if fam == 'seq':
        n = len(s)
        out += [(f'[{i}]', outcome(lambda i=i: obj[i])) for i in range(-n - 1, n + 1)] if n < 40 else \
               [(f'[{i}]', outcome(lambda i=i: obj[i])) for i in (0, 1, 31, 32, n - 1, -1, -n, n, -n - 1)]
        out.append(('reversed', outcome(lambda: list(reversed(obj)))))
        out += [(f'index {i}', outcome(obj.index, x)) for i, x in enumerate(s[:12])]
        out += [(f'count {i}', outcome(obj.count, x)) for i, x in enumerate(s[:6])]
        out += [(f'in {i}', outcome(lambda x=x: x in obj)) for i, x in enumerate(s[:6])]
        if type(obj) is llist:
            out += [(f'getlazy {i}', outcome(stored, obj, i)) for i in range(min(n, 8))] + [(f'is_lazy {i}', outcome(obj.is_lazy, i)) for i in range(min(n, 8))]
            out.append(('as_plist', outcome(lambda: list(obj.as_plist()))))
        out.append(('in absent', outcome(lambda: ABSENT in obj)))
        out.append(('slice', outcome(lambda: list(obj[1:-1]))))
    elif fam == 'set':
        out += [(f'in {short(x, 40)}', outcome(lambda x=x: x in obj)) for x in s[:40]]
        out.append(('in absent', outcome(lambda: ABSENT in obj)))
    else:
        for k, _ in s[:40]:
            out.append((f'[{short(k, 40)}]', outcome(lambda: obj[k])))
            out.append((f'get {short(k, 40)}', outcome(obj.get, k)))
            out.append((f'in {short(k, 40)}', outcome(lambda: k in obj)))
        if type(obj) is ldict:
            out += [(f'getlazy {short(k, 40)}', outcome(stored, obj, k)) for k, _ in s[:8]] + [(f'is_lazy {short(k, 40)}', outcome(obj.is_lazy, k)) for k, _ in s[:8]]
            out.append(('as_pdict', outcome(lambda: list(obj.as_pdict().items()))))
        out.append(('get absent', outcome(obj.get, ABSENT, 0)))
        out.append(('[absent]', outcome(lambda: obj[ABSENT])))
        out.append(('keys', outcome(lambda: list(obj.keys()))))
        out.append(('values', outcome(lambda: list(obj.values()))))
        out.append(('items', outcome(lambda: [tuple(p) for p in obj.items()])))
        out.append(('reversed', outcome(lambda: list(reversed(obj)))))
    return out


class Member:
    __slots__ = ('obj', 'kind', 'fam', 'pers', 'snap', 'full', 'name', 'model')
    def __init__(self, obj, name, full=True):
        self.obj = obj
        self.kind = KIND_OF.get(type(obj))
        self.fam = FAM.get(self.kind)
        self.pers = self.kind in PERS
        self.name = name
        self.snap = snap(self.fam, obj)
        self.full = observe(self.fam, obj) if self.pers and full else None


class Family:
    def __init__(self, case, group=None, cap=11, full=True, elem=None, key=None, wrap=None, large=False):
        self.large = case.large(large)
        self.case, self.rng = case, case.rng
        rng = self.rng
        self.group = group or rng.choice(list(GROUPS))
        self.base = GROUPS[self.group][0]
        self.fam = FAM[self.base]
        self.full = full
        self.cap = cap
        self.members = []
        self.held = []            # builtin containers that were given to constructors, edited later
        self.serial = 0
        self.interrupts = False   # operations are sometimes interrupted in the middle
        table = values.ANY if self.fam == 'seq' else values.HASHABLE
        self.uni = rng.choice(list(table)); u = table[self.uni]
        if large: self.uni = 'huge'; u = values.HUGE
        key = key or (lambda: rng.choice(u))
        if elem is None:
            if self.fam == 'map':
                vu = values.ANY[rng.choice(list(values.ANY))]
                elem = lambda: rng.choice(vu)
            else: elem = key
        self.lazies = self.base in LAZY
        self.env = Env(rng, elem, wrap=wrap or (wrapper(rng) if self.lazies else None), key=key)
        self.env.lazies = self.lazies
        self.env.cap = 60

    # ---- to be overridden by checks
    def on_result(self, src, lab, obj): pass          # a new object came out of an operation
    def on_verify(self, m, lab): pass

    # ---- members
    def add(self, obj, lab, expect=None):
        if type(obj) not in KIND_OF: return None
        for m in self.members:
            if m.obj is obj: return m
        self.serial += 1
        m = Member(obj, f'#{self.serial}', self.full)
        self.case.op('  ->', m.name, m.kind, short(lab, 100))
        self.members.append(m)
        self.case.count['members'] += 1
        if expect is not None and not snap_same(m.snap, expect):
            raise Violation(f'{m.kind}:initial-content', f'{m.kind} made by {short(lab)} does not hold the content of its '
                            'source', got=m.snap, want=expect)
        if len(self.members) > self.cap:
            i = self.rng.randrange(len(self.members) - 2)
            if self.interrupts and i == 0: i = 1         # the first one stays
            self.members.pop(i)
        return m

    def start(self):
        rng, env = self.rng, self.env
        n = rng.choice((0, 1, 2, 3, 5, 8, 12, 20, 33, 40)) if rng.random() < .97 else 70
        if self.large: n = rng.choice((1501, 1600, 2001, 2500, 3100, 4097))
        c = CTOR[self.base]
        if self.fam == 'map':
            src = {env.key(): env.wrap(env.elem()) for _ in range(n)}
        elif self.fam == 'set': src = {env.key() for _ in range(n)}
        else: src = [env.wrap(env.elem()) for _ in range(n)]
        if rng.random() < .4 and self.fam == 'seq':
            k = rng.randrange(len(src) + 1)
            p = c(src[k:])
            for x in reversed(src[:k]): p = p.prepend(x)
        else:
            p = c(src); self.held.append(src)
        if rng.random() < .12: p = churned(p, self.fam, rng); self.case.count['churned'] += 1
        self.case.op('start', self.group, self.uni, n)
        self.add(p, ('start',))
        if rng.random() < .5: self.add(PAIR[self.base](src), ('start', 'transient'))

    def call(self, ms, f, *a):
        """attempt(f, *a), or an interrupted one.  ms: the members it may leave half edited, which are then given up if transient."""
        if not self.interrupts or self.rng.random() < .5: return attempt(f, *a)
        k = self.rng.choice((1, 2, 3, 5, 8, 13, 21, self.rng.randrange(1, 80)))
        r, e, n = interrupt.run(lambda: f(*a), k, self.rng.choice((interrupt.Interrupt, interrupt.Interrupt, interrupt.NoMemory)))
        if n < k: return r, e
        self.case.op('   interrupted at line', k); self.case.count['interrupted'] += 1
        for m in ms:
            if not m.pers and m in self.members: self.members.remove(m)
        return None, RuntimeError('interrupted')

    # ---- steps
    def edit(self, m):
        """One operation of the tables on member m.  Returns True if it may have edited m (a transient)."""
        fam, pers, ctor, edits, ew, reads, rw = KINDS[m.kind]
        name = self.rng.choices(list(ew), list(ew.values()))[0]
        model = m.snap if not isinstance(m.snap, Exception) else []
        try:
            mod = dict(model) if fam == 'map' else set(model) if fam == 'set' else list(model)
        except TypeError:
            mod = {} if fam == 'map' else set()
        self.env.lazies = m.kind in LAZY
        keep = self.env.wrap
        if not self.env.lazies: self.env.wrap = lambda x: x
        try: sf, _, lab = edits[name](self.env.at(m.obj, mod))
        finally: self.env.wrap = keep
        self.case.op(m.name, m.kind, *lab)
        self.case.count['operations'] += 1
        self.case.count['op:' + name] += 1
        r, e = self.call((m,), sf, m.obj)
        if e is not None:
            self.case.op('   raised', short(e, 80)); self.case.count['raised'] += 1
        self.case.sig(m.kind, lab[0], len(model), e is not None, m.name)
        if pers:
            if e is None and isinstance(r, tuple) and len(r) == 2 and not isinstance(r[1], FOREIGN):
                self.on_result(m, lab, r[1])
                self.add(r[1], lab)
        return lab

    def derive(self, m):
        """A conversion of m: a new member whose content must be that of m."""
        rng = self.rng; o = m.obj
        pair, own = PAIR[m.kind], CTOR[m.kind]
        c = [('ctor-pair', lambda: pair(o)), ('ctor-own', lambda: own(o)), ('copy', lambda: o.copy())]
        if m.pers: c += [('transient', lambda: o.transient())] * 3
        else: c += [('persistent', lambda: o.persistent())] * 4
        if m.kind == 'llist': c += [('tlist', lambda: tlist(o)), ('plist', lambda: plist(o))]
        if m.kind == 'tllist': c += [('plist', lambda: plist(o))]
        if m.kind == 'ldict': c += [('pdict', lambda: pdict(o)), ('tdict', lambda: tdict(o))]
        if m.kind == 'tldict': c += [('pdict', lambda: pdict(o)), ('tdict', lambda: tdict(o))]
        if m.fam == 'seq': c += [('slice', lambda: o[:])]
        name, f = rng.choice(c)
        self.case.op(m.name, m.kind, 'derive', name)
        self.case.count['derive:' + name] += 1
        self.case.count['operations'] += 1
        self.case.sig(m.kind, 'derive', name, m.name)
        r, e = self.call((), f)
        if e is not None:
            self.case.op('   raised', short(e, 80)); self.case.count['raised'] += 1
            return
        self.on_derived(m, name, r)
        self.add(r, (m.name, name), expect=m.snap if r is not o else None)

    def on_derived(self, m, name, r): pass

    def raw(self, m):
        """as_* / holdlazy: a member holding the raw values."""
        o = m.obj
        c = {'llist': [lambda: o.as_plist(), lambda: holdlazy(o)], 'ldict': [lambda: o.as_pdict(), lambda: holdlazy(o)],
             'tldict': [lambda: o.as_tdict(), lambda: holdlazy(o)]}.get(m.kind)
        if not c: return False
        self.case.op(m.name, m.kind, 'as_* / holdlazy')
        r, e = attempt(self.rng.choice(c))
        if e is None: self.add(r, (m.name, 'raw'))
        return True

    def cross(self, a, b):
        """An operation on a with b as argument.  Returns True when a (a transient) may have changed."""
        rng = self.rng; x, y = a.obj, b.obj
        inplace = ('extend', '+=', 'update', 'update items', 'addall', 'discardall', 'difference_update', 'intersection_update',
                   'symmetric_difference_update', '__ior__', '__iand__', '__isub__', '__ixor__')
        q = rng.random()
        if q < .25: y = [] if a.fam == 'seq' else set() if a.fam == 'set' else {}
        elif q < .35: y = type(y)()
        if a.fam == 'seq':
            if len(x) + len(y) > 200: return
            c = [('extend', lambda: x.extend(y)), ('+', lambda: x + y), ('+=', lambda: _iadd(x, y)), ('==', lambda: x == y), ('[] +', lambda: [] + x), ('*', lambda: x * 1)]
        elif a.fam == 'set':
            c = [(n, lambda n=n: getattr(x, n)(y)) for n in
                 ('union', 'intersection', 'difference', 'symmetric_difference', 'addall', 'discardall', '__or__', '__and__',
                  '__sub__', '__xor__', '__rsub__', '__eq__', '__le__', 'isdisjoint')]
            if not a.pers: c += [(n, lambda n=n: getattr(x, n)(y)) for n in (
                'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__ior__', '__iand__',
                '__isub__', '__ixor__')]
        else:
            c = [('update', lambda: x.update(y)), ('update items', lambda: x.update(y.items())), ('==', lambda: x == y)]
            if a.pers: c += [('setall', lambda: x.setall(y.keys(), y.values())), ('dropall', lambda: x.dropall(y)),
                             ('deleteall', lambda: x.deleteall(y.keys()))]
        name, f = rng.choice(c)
        self.case.op(a.name, a.kind, name, 'with', b.name, b.kind)
        self.case.count['operations'] += 1; self.case.count['cross'] += 1
        self.case.sig(a.kind, b.kind, name, a is b)
        r, e = self.call((a,), f)
        if e is not None: self.case.op('   raised', short(e, 80)); self.case.count['raised'] += 1
        elif type(r) in KIND_OF and r is x and not a.pers and name not in inplace or r is y and y is not x and not b.pers and type(r) in KIND_OF:
            raise Violation(f'{a.kind}:{name}:aliased', f'{name} of {a.name} ({a.kind}) gave a transient operand itself', a=a.snap, b=b.snap)
        elif type(r) in KIND_OF and r is not x:
            self.add(r, (a.name, name, b.name))

    def fill(self, b):
        """A new transient is filled from b by one bulk operation, as a new member."""
        rng = self.rng; y = b.obj
        T = rng.choice([CTOR[b.kind] if not b.pers else PAIR[b.kind], PAIR[self.base]]); t = T() if rng.random() < .7 else None
        if t is None: t = T([] if self.fam != 'map' else {}); 
        names = {'seq': ('extend', '__iadd__'), 'set': ('addall', 'update', '__ior__', '__ixor__', 'symmetric_difference_update'), 'map': ('update',)}[self.fam]
        name = rng.choice(names)
        self.case.op('fill a new', T.__name__, name, 'from', b.name, b.kind); self.case.count['filled'] += 1; self.case.count['operations'] += 1
        r, e = attempt(getattr(t, name), y)
        if e is not None: self.case.op('   raised', short(e, 80)); self.case.count['raised'] += 1; return
        m = self.add(t, (name, 'from', b.name))
        if m and not self.lazies and not isinstance(b.snap, Exception):
            same = snap_same(m.snap, b.snap) if self.fam != 'set' else set(map(id, m.snap)) == set(map(id, b.snap))
            if not same: raise Violation(f'{m.kind}:{name}:content', f'an empty {m.kind} filled by {name} from a {b.kind} holds something else', got=m.snap, want=b.snap)

    def lookups(self, m, lab):
        """What m finds is what it holds."""
        s = m.snap
        if isinstance(s, Exception): return
        self.case.count['lookups'] += 1
        keys = s if self.fam == 'set' else [k for k, _ in s]
        try: have = set(keys)
        except TypeError: return
        for x in keys + [self.env.key() for _ in range(4)]:
            want = x in have; got, e = attempt(lambda: x in m.obj)
            if e is not None or got is not want:
                raise Violation(f'{m.kind}:lookup', f'{m.name} ({m.kind}) says {got!r} ({e!r}) when asked for {short(x)} after {short(lab)}', content=s)

    def mutate_held(self):
        """Edits a builtin container that was the argument of a constructor."""
        if not self.held: return
        h = self.rng.choice(self.held)
        self.case.op('edit the constructor argument')
        self.case.count['operations'] += 1
        if isinstance(h, list):
            h.append(self.env.elem()); h[0] = None; h.reverse()
        elif isinstance(h, dict):
            for k in list(h): h[k] = ABSENT
            h[self.env.key()] = None
        else:
            h.add(self.env.key()); h.discard(next(iter(h)))

    # ---- verification
    def verify(self, changed, lab, which='all', full=False):
        self._verify(changed, lab, which, full)
        ms = [m for m in self.members if m.pers or which == 'all'] if self.fam != 'seq' and not full else None
        if ms: self.lookups(self.rng.choice(ms), lab)
    def _verify(self, changed, lab, which='all', full=False):
        for m in self.members:
            if m is changed: continue
            if which == 'persistent' and not m.pers: continue
            self.case.count['evaluations'] += 1
            now = snap(m.fam, m.obj)
            if not snap_same(now, m.snap):
                raise Violation(f'{m.kind}:changed', f'{m.name} ({m.kind}) changed when {short(lab)} ran on '
                                f'{changed.name if changed else "another member"}', before=m.snap, after=now)
            n = outcome(len, m.obj)
            if not isinstance(m.snap, Exception) and n != len(m.snap):
                raise Violation(f'{m.kind}:len-changed', f'len of {m.name} ({m.kind}) is now {n}', before=m.snap)
            if full and m.full is not None: self.verify_full(m, lab)
        if changed is not None:
            if changed.pers:
                now = snap(changed.fam, changed.obj)
                self.case.count['evaluations'] += 1
                if not snap_same(now, changed.snap):
                    raise Violation(f'{changed.kind}:changed', f'{changed.name} ({changed.kind}) was changed by its own '
                                    f'{short(lab)}', before=changed.snap, after=now)
            elif changed in self.members:
                changed.snap = snap(changed.fam, changed.obj)

    def verify_full(self, m, lab):
        self.case.count['full_observations'] += 1
        for (a, x), (b, y) in zip(m.full, observe(m.fam, m.obj)):
            if a != b or not osame(x, y):
                raise Violation(f'{m.kind}:{a.split()[0] if not a.startswith("[") else "lookup"}-changed',
                                f'{a} of {m.name} ({m.kind}) changed (last operation {short(lab)})', before=x, after=y)


def _iadd(x, y):
    x += y
    return x

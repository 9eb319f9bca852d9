"""Differential monitor: a pcollections object and the builtin that should agree with it do the same things."""
import collections
from .core import Violation, short
from . import ops, values, selfref, busy
from .pools import touch
from .ops import NOTHING, POPPED, FOREIGN, SetContent, EqList, Items, Env, KINDS
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy


# --------------------------------------------------------------------------- comparing
def same(a, b):
    """Same value, elements by identity."""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (SetContent, EqList, Items, int, str)): return a == b
    return False


def content(fam, obj):
    """Content of a subject read by plain iteration (what the model comparison is about)."""
    if fam == 'seq': return list(iter(obj))
    if fam == 'set': return SetContent(obj)
    return Items((k, obj[k]) for k in iter(obj))


def mcontent(fam, model):
    if fam == 'seq': return list(model)
    if fam == 'set': return SetContent(model)
    return Items(model.items())


def attempt(f, *a):
    """(value, exception)"""
    try:
        return f(*a), None
    except Exception as e:
        return None, e


BASES = (IndexError, KeyError, ValueError, TypeError, RuntimeError, AttributeError)
def exc_ok(se, me):
    """The subject's exception is of the builtin's kind."""
    return isinstance(se, type(me))


def wrapper(rng, p_lazy=.75, log=None):
    """Wraps values in lazies, some of them already evaluated."""
    def wrap(x):
        q = rng.random()
        if q > p_lazy: return x
        def f():
            if log is not None: log.append(x)
            busy.poke()
            return x
        l = lazy(f) if rng.random() < .5 else lazy(lambda a, b=None: a, x, b=1)
        if q < .15: l()
        return l
    return wrap


def churned(p, fam, rng, k=None, el=None):
    """p with the same content in the same order after k elements came and went: at the back, the front or both ends."""
    if k is None:
        q = rng.random()
        k = rng.randrange(1, 6) if q < .6 else rng.choice((31, 33, 64, 100)) if q < .93 else rng.choice((257, 1025, 1100)) if q < .99 else 4100
    own = type(p); t = p.transient() if own.__name__[0] != 't' else p
    if el is None: el = object()
    if fam == 'seq':
        how = rng.randrange(4)
        for i in range(k):
            if how == 0: t.append(el); t.pop()
            elif how == 1: t.prepend(el); del t[0]
            elif how == 2 and len(t): t.append(getraw(t, 0)); del t[0]   # rotated
            elif how == 3 and len(t): t.prepend(getraw(t, -1)); del t[-1]
            else: t.append(el); del t[0]
        if how > 1 and len(t):
            n = len(t); r = k % n
            for i in range(r if how == 3 else n - r): t.append(getraw(t, 0)); del t[0]
    else:
        add, drop = (t.add, t.discard) if fam == 'set' else (lambda e: t.__setitem__(e, el), t.__delitem__)
        many = rng.random() < .3; es = [object() for _ in range(k if many else 1)]
        if many:
            for e in es: add(e)
            for e in es: drop(e)
        else:
            for i in range(k): add(es[0]); drop(es[0])
    return t.persistent() if t is not p else p
def getraw(t, i): return t.getlazy(i) if hasattr(t, 'getlazy') else t[i]


LIVE = collections.deque(maxlen=300)          # collections of earlier histories that are still around


class Differ:
    """One history of one kind of collection against its model."""
    def __init__(self, case, kind, lazies=False, universe=None):
        self.case, self.kind, self.lazies = case, kind, lazies
        self.rng = rng = case.rng
        (self.fam, self.pers, self.ctor, self.edits, self.ew, self.reads, self.rw) = KINDS[kind]
        hashable = self.fam != 'seq'
        table = values.HASHABLE if hashable else values.ANY
        self.uni = universe or rng.choice(list(table))
        u = values.HUGE if self.uni == 'huge' else table[self.uni]
        if self.uni == 'huge' and self.fam == 'seq' and rng.random() < .35: u = rng.sample(u, rng.choice((1, 2, 3, 20)))    # each very often
        self.busy = self.uni != 'huge' and (self.uni == 'busy' or rng.random() < .25)
        busy.RNG.seed(rng.random()); del busy.BAD[:]
        key = lambda: rng.choice(u)
        if self.fam == 'map':
            vname = rng.choice(list(values.ANY)); vu = values.ANY[vname]
            elem = lambda: rng.choice(vu)
        else: elem = key
        wrap = wrapper(rng) if lazies else None
        self.env = Env(rng, elem, wrap=wrap, key=key)
        self.env.lazies = lazies
        self.en, self.ewt = list(self.ew), list(self.ew.values())
        self.rn, self.rwt = list(self.rw), list(self.rw.values())

    # ---- starting points
    def start(self, size=None):
        rng, env = self.rng, self.env
        if size is None:
            q = rng.random()
            size = (0 if q < .1 else rng.randrange(1, 12) if q < .7 else rng.randrange(12, 40) if q < .93
                    else rng.randrange(40, 110))
        if self.fam == 'seq': obj, model, how = self._start_seq(size)
        elif self.fam == 'set': obj, model, how = self._start_set(size)
        else: obj, model, how = self._start_map(size)
        if rng.random() < .12: obj = churned(obj, self.fam, rng); how = f'{how} churned'; self.case.count['churned'] += 1
        self.case.op('start', self.kind, self.uni, how, short(model))
        self.check(obj, model, ('start', how))
        if self.pers and len(model) < 6: LIVE.append(obj)
        return obj, model

    def _start_seq(self, n):
        rng, env = self.rng, self.env
        xs = [env.elem() for _ in range(n)]
        ys = env.wraps(xs)
        pt = {'plist': plist, 'tlist': plist, 'llist': llist, 'tllist': llist}[self.kind]
        how = rng.randrange(7)
        if how == 0: p = pt(ys)
        elif how == 1:                                # appended one by one
            p = pt()
            for y in ys: p = p.append(y)
        elif how == 2:                                # prepended one by one
            p = pt()
            for y in reversed(ys): p = p.prepend(y)
        elif how == 3:                                # from the middle outwards
            k = rng.randrange(n + 1); p = pt(ys[k:])
            for y in reversed(ys[:k]): p = p.prepend(y)
        elif how == 4:                                # shifted to the right
            k = rng.randrange(1, 6); p = pt(env.wraps([env.elem() for _ in range(k)]) + ys)
            for _ in range(k): p = p.delete(0)
        elif how == 5:                                # through a transient
            t = pt().transient()
            k = rng.randrange(n + 1)
            for y in ys[k:]: t.append(y)
            for y in reversed(ys[:k]): t.prepend(y)
            p = t.persistent()
        else:
            p = pt(y for y in ys)
        if not self.pers:
            p = p.transient() if rng.random() < .5 else self.ctor(p) if rng.random() < .5 else self.ctor(ys)
        return p, xs, how

    def _start_set(self, n):
        rng, env = self.rng, self.env
        xs = [env.elem() for _ in range(n)]
        how = rng.randrange(4)
        if how == 0: p = pset(xs)
        elif how == 1:
            p = pset()
            for x in xs: p = p.add(x)
        elif how == 2:
            t = tset()
            for x in xs: t.add(x)
            p = t.persistent()
        else:
            p = pset(frozenset(xs))
        if not self.pers:
            p = p.transient() if rng.random() < .5 else tset(p) if rng.random() < .5 else tset(iter(xs))
        return p, set(xs), how

    def _start_map(self, n):
        rng, env = self.rng, self.env
        kv = [(env.key(), env.elem()) for _ in range(n)]
        sv = [(k, env.wrap(v)) for k, v in kv]
        pt = {'pdict': pdict, 'tdict': pdict, 'ldict': ldict, 'tldict': ldict}[self.kind]
        how = rng.randrange(5)
        if how == 0: p = pt(sv)
        elif how == 1:
            p = pt()
            for k, v in sv: p = p.set(k, v)
        elif how == 2:
            t = pt().transient()
            for k, v in sv: t[k] = v
            p = t.persistent()
        elif how == 3: p = pt(dict(sv))
        else: p = pt().update(sv)
        if not self.pers:
            p = p.transient() if rng.random() < .5 else self.ctor(p) if rng.random() < .5 else self.ctor(sv)
        return p, dict(kv), how

    # ---- checks
    def fail(self, key, msg, **d):
        raise Violation(f'{self.kind}.{key}', msg, **d)

    def check(self, obj, model, lab):
        got, e = attempt(content, self.fam, obj)
        if e is not None:
            self.fail(f'{lab[0]}:read-raises', f'after {short(lab)} reading the {self.kind} raises {e!r}', model=model)
        want = mcontent(self.fam, model)
        if not same(got, want):
            self.fail(f'{lab[0]}:content', f'after {short(lab)} the {self.kind} holds the wrong content',
                      got=got, want=want)
        n, e = attempt(len, obj)
        if e is not None or n != len(model):
            self.fail(f'{lab[0]}:len', f'after {short(lab)} len is {n} ({e!r}), not {len(model)}')
        self.case.count['content_checks'] += 1

    def act(self, f, obj, lab):
        """The observed operation; user code that it calls may use collections meanwhile (busy.poke)."""
        if not self.busy: return attempt(f, obj)
        n = busy.COUNT
        with busy.during(obj): r = attempt(f, obj)
        self.case.count['nested_uses'] += busy.COUNT - n
        if busy.BAD: self.fail(f'{lab[0]}:nested', f'collections used inside of user code called by {short(lab)} answered wrongly', found=busy.BAD[:3])
        return r

    def read(self, obj, model):
        name = self.rng.choices(self.rn, self.rwt)[0]
        env = self.env.at(obj, model)
        sf, mf, lab = self.reads[name](env)
        mv, me = attempt(mf, model if self.fam != 'seq' else list(model))
        self.case.op('read', *lab)
        sv, se = self.act(sf, obj, lab)
        self.compare(sv, se, mv, me, lab, model)
        self.case.count['read:' + name] += 1

    def compare(self, sv, se, mv, me, lab, model):
        c = self.case
        c.count['evaluations'] += 1
        c.sig(self.kind, self.uni, lab[0], len(model), me is not None, short(lab, 60))
        if me is not None:
            c.count['model_raised'] += 1
            if se is None:
                self.fail(f'{lab[0]}:no-error', f'{short(lab)} must raise {type(me).__name__} but returned {short(sv)}',
                          before=model)
            if not exc_ok(se, me):
                self.fail(f'{lab[0]}:error-kind', f'{short(lab)} must raise {type(me).__name__}, raised {se!r}',
                          before=model)
        elif se is not None:
            self.fail(f'{lab[0]}:raises', f'{short(lab)} raised {se!r}', before=model, expected=mv)
        elif not same(sv, mv):
            self.fail(f'{lab[0]}:value', f'{short(lab)} returned the wrong value', before=model, got=sv, want=mv)

    # ---- steps
    def popped(self, v, model, lab):
        """Removes a popped element from the model; checks that it was there."""
        if self.fam == 'set':
            if not any(v is x for x in model) and v not in model:
                self.fail('pop:value', f'pop returned {short(v)}, which is not an element', before=model)
            model.discard(v)
        else:
            if not (isinstance(v, tuple) and len(v) == 2 and v[0] in model and same(model[v[0]], v[1])):
                self.fail('popitem:value', f'popitem returned {short(v)}, which is not an item', before=model)
            del model[v[0]]

    def step_persistent(self, obj, model):
        """Applies one operation; returns the new (object, model)."""
        name = self.rng.choices(self.en, self.ewt)[0]
        sf, mf, lab = self.edits[name](self.env.at(obj, model))
        self.case.op(*lab)
        self.case.count['op:' + name] += 1
        m = type(model)(model)
        if self.touching: touch(obj, self.rng)
        r, me = attempt(mf, m)
        s, se = self.act(sf, obj, lab)
        if me is None: mv, m = r
        else: mv = None
        if se is None:
            if not isinstance(s, tuple) or len(s) != 2:
                self.fail(f'{lab[0]}:shape', f'{short(lab)} returned {short(s)}')
            sv, new = s
        else: sv, new = None, obj
        if mv is POPPED and se is None and me is None:
            self.popped(sv, m, lab)
            sv = mv = None
        self.compare(sv, se, mv, me, lab, model)
        if me is not None: m = model
        cont = True
        if isinstance(new, FOREIGN): new = new.obj; cont = False
        self.check(new, m, lab)
        if cont and new is not obj and type(new) is not type(obj):
            cont = False                    # the type of the result is another property's subject
        return (new, m) if cont else (obj, model)

    def step_transient(self, obj, model):
        name = self.rng.choices(self.en, self.ewt)[0]
        sf, mf, lab = self.edits[name](self.env.at(obj, model))
        self.case.op(*lab)
        self.case.count['op:' + name] += 1
        before = type(model)(model)
        if self.touching: touch(obj, self.rng, .15)
        mv, me = attempt(mf, model)
        sv, se = self.act(sf, obj, lab)
        if sv is NOTHING: sv = None
        if mv is NOTHING: mv = None
        if mv is POPPED and se is None:
            self.popped(sv, model, lab)
            sv = mv = None
        self.compare(sv, se, mv, me, lab, before)
        self.check(obj, model, lab)
        q = self.rng.random()
        if q < .04:
            how = self.rng.randrange(4)
            f = (lambda: obj.copy(), lambda: obj.persistent().transient(), lambda: type(obj)(obj.persistent()),
                 lambda: type(obj)(obj))[how]
            new, e = attempt(f)
            self.case.op('continue-with', how)
            if e is not None: self.fail('copy:raises', f'copy {how} raised {e!r}', before=model)
            self.check(new, model, ('copy', how))
            if type(new) is type(obj): obj = new
        return obj, model

    def run(self, steps, size=None, reads=2):
        obj, model = self.start(size)
        pool = [(obj, model)]
        for i in range(steps):
            if self.pers:
                k = -1 if self.rng.random() < .85 else self.rng.randrange(len(pool))
                obj, model = pool[k]
                obj, model = self.step_persistent(obj, model)
                pool.append((obj, model))
                if len(pool) > 5: pool.pop(self.rng.randrange(4))
            else:
                obj, model = self.step_transient(obj, model)
            for _ in range(reads): self.read(obj, model)
            if len(model) > self.case_cap:
                break
        if self.case.sample is None:
            self.case.sample = [short(e, 120) for e in self.case.log[:8]]
    case_cap = 1500
    touching = True
    busy = False


def differential(case, kinds, lazies=False):
    """One case: a history (sometimes a long one, sometimes one on a big collection) of one of the kinds."""
    rng = case.rng
    kind = kinds[case.index % len(kinds)]
    q = rng.random()
    d = Differ(case, kind, lazies)
    if q < .0008:                                    # huge: four levels of trie nodes
        d = Differ(case, kind, lazies, universe='huge'); d.env.cap = 1000; d.case_cap = 200000
        case.count['huge'] += 1
        d.run(rng.randrange(3, 7), size=rng.choice((32767, 32768, 32769, 33000, 33825, 40000)), reads=2)
        return
    if q < .006:
        d = Differ(case, kind, lazies, universe='huge'); d.env.cap = 1000; d.case_cap = 20000
        case.count['middle'] += 1
        d.run(rng.randrange(6, 16), size=rng.choice((1500, 2047, 2049, 3000, 4097, 5001, 8200)), reads=3)
        return
    if q < .06:                                      # big: trie-node boundaries
        if d.fam != 'seq' and d.uni != 'wide': d = Differ(case, kind, lazies, universe='wide')
        d.env.cap = 1100
        d.run(rng.randrange(6, 16), size=rng.choice((31, 32, 33, 63, 64, 65, 300, 1023, 1024, 1025, 1060)), reads=3)
    elif q < .25: d.run(rng.randrange(60, 160), reads=1)
    else: d.run(rng.randrange(8, 45))
    if d.fam != 'set' and case.index % 3 == 0: selfref.run(case, kind)


def min_counts(kind, each=5, total=20000):
    fam, pers, ctor, edits, ew, reads, rw = KINDS[kind]
    m = {'op:' + k: each for k in edits}
    m.update({'read:' + k: each for k in reads})
    m['evaluations'] = total
    m['nested_uses'] = 300
    m['huge'] = 3; m['churned'] = 200
    return m

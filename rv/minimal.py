"""Minimal implementations of the abstract classes: only the methods their documentation lists as abstract.

Two independent representations of each, with different habits: the second kind of sequence takes plain integer indices and
slices only through its own code path, iterates through generators, and returns fresh objects even when nothing changed.  Like the
concrete types all are constructed through __new__, which the default __reduce__ relies on.
"""
import operator
from pcollections.abc import (PersistentSequence, TransientSequence, PersistentSet, TransientSet, PersistentMapping, TransientMapping)
put = object.__setattr__


# ------------------------------------------------------------------ sequences over a tuple / a list
class MSeq(PersistentSequence):
    __slots__ = ('x',)
    def __new__(cls, it=()):
        self = object.__new__(cls); put(self, 'x', tuple(it)); return self
    def _with(self, f):
        l = list(self.x); f(l); return type(self)(l)
    def set(self, index, obj): return self._with(lambda l: l.__setitem__(index, obj))
    def delete(self, index=-1): return self._with(lambda l: l.__delitem__(index))
    def append(self, obj): return type(self)(self.x + (obj,))
    def prepend(self, obj): return type(self)((obj,) + self.x)
    def insert(self, index, obj): return self._with(lambda l: l.insert(index, obj))
    def clear(self): return type(self)()
    def transient(self): return MTSeq(self.x)
    def __iter__(self): return iter(self.x)
    def __len__(self): return len(self.x)
    def __getitem__(self, i): return type(self)(self.x[i]) if isinstance(i, slice) else self.x[i]
class MTSeq(TransientSequence):
    __hash__ = None
    def __new__(cls, it=()):
        self = object.__new__(cls); self.x = list(it); return self
    def clear(self): self.x = []
    def persistent(self): return MSeq(self.x)
    def __iter__(self): return iter(self.x)
    def __len__(self): return len(self.x)
    def __getitem__(self, i): return type(self)(self.x[i]) if isinstance(i, slice) else self.x[i]
    def __setitem__(self, i, v): self.x[i] = v
    def __delitem__(self, i): del self.x[i]
    def append(self, v): self.x.append(v)
    def prepend(self, v): self.x.insert(0, v)
    def insert(self, i, v): self.x.insert(i, v)


# ------------------------------------------------------------------ sequences as chunks
def chunks(it, k=3):
    l = list(it); return tuple(tuple(l[i:i + k]) for i in range(0, len(l), k))
class CSeq(PersistentSequence):
    __slots__ = ('c', 'n')
    def __new__(cls, it=()):
        self = object.__new__(cls); l = list(it); put(self, 'c', chunks(l)); put(self, 'n', len(l)); return self
    def _i(self, i):
        i = operator.index(i)
        if not -self.n <= i < self.n: raise IndexError(i)
        return i % self.n
    def __iter__(self):
        for c in self.c: yield from c
    def __len__(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, slice): return type(self)(self[j] for j in range(*i.indices(self.n)))
        i = self._i(i); return self.c[i // 3][i % 3]
    def set(self, index, obj): index = self._i(index); return type(self)(obj if j == index else x for j, x in enumerate(self))
    def delete(self, index=-1): index = self._i(index); return type(self)(x for j, x in enumerate(self) if j != index)
    def append(self, obj): return type(self)([*self, obj])
    def prepend(self, obj): return type(self)([obj, *self])
    def insert(self, index, obj):
        l = list(self); l.insert(index, obj); return type(self)(l)
    def clear(self): return type(self)()
    def transient(self): return CTSeq(self)
class CTSeq(TransientSequence):
    """Keeps its elements in a dict from position to element."""
    __hash__ = None
    def __new__(cls, it=()):
        self = object.__new__(cls); self.d = dict(enumerate(it)); return self
    def _set(self, l): self.d = dict(enumerate(l))
    def clear(self): self.d.clear()
    def persistent(self): return CSeq(self)
    def __iter__(self):
        i = 0
        while i < len(self.d):
            yield self.d[i]; i += 1
    def __len__(self): return len(self.d)
    def _i(self, i):
        i = operator.index(i); n = len(self.d)
        if not -n <= i < n: raise IndexError(i)
        return i % n
    def __getitem__(self, i):
        if isinstance(i, slice): return type(self)([self.d[j] for j in range(*i.indices(len(self.d)))])
        return self.d[self._i(i)]
    def __setitem__(self, i, v): self.d[self._i(i)] = v
    def __delitem__(self, i): i = self._i(i); self._set([x for j, x in self.d.items() if j != i])
    def append(self, v): self.d[len(self.d)] = v
    def prepend(self, v): self._set([v, *self.d.values()])
    def insert(self, i, v):
        l = list(self.d.values()); l.insert(i, v); self._set(l)


# ------------------------------------------------------------------ sets
class MSet(PersistentSet):
    __slots__ = ('s',)
    def __new__(cls, it=()):
        self = object.__new__(cls); put(self, 's', frozenset(it)); return self
    def __iter__(self): return iter(self.s)
    def __len__(self): return len(self.s)
    def __contains__(self, x): return x in self.s
    def transient(self): return MTSet(self.s)
    def add(self, x): return type(self)(self.s | {x})
    def discard(self, x): return type(self)(self.s - {x}) if x in self.s else self
    def clear(self): return type(self)()
class MTSet(TransientSet):
    def __new__(cls, it=()):
        self = object.__new__(cls); self.s = set(it); return self
    def __iter__(self): return iter(self.s)
    def __len__(self): return len(self.s)
    def __contains__(self, x): return x in self.s
    def add(self, x): self.s.add(x)
    def discard(self, x): self.s.discard(x)
    def persistent(self): return MSet(self.s)
    def clear(self): self.s.clear()
class OSet(PersistentSet):
    """Ordered, over dict keys; discard always returns a new object."""
    __slots__ = ('d',)
    def __new__(cls, it=()):
        self = object.__new__(cls); put(self, 'd', dict.fromkeys(it)); return self
    def __iter__(self):
        for x in list(self.d): yield x
    def __len__(self): return len(self.d)
    def __contains__(self, x): return x in self.d
    def transient(self): return OTSet(self.d)
    def add(self, x): return type(self)([*self.d, x])
    def discard(self, x):
        d = dict(self.d); d.pop(x, None); hash(x); return type(self)(d)
    def clear(self): return type(self)()
class OTSet(TransientSet):
    def __new__(cls, it=()):
        self = object.__new__(cls); self.d = dict.fromkeys(it); return self
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __contains__(self, x): return x in self.d
    def add(self, x): self.d[x] = None
    def discard(self, x): hash(x); self.d.pop(x, None)
    def persistent(self): return OSet(self.d)
    def clear(self): self.d = {}


# ------------------------------------------------------------------ mappings
class MMap(PersistentMapping):
    __slots__ = ('d',)
    def __new__(cls, *a, **kw):
        self = object.__new__(cls); put(self, 'd', dict(*a, **kw)); return self
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def __reversed__(self): return reversed(self.d)
    def transient(self): return MTMap(self.d)
    def set(self, k, v): d = dict(self.d); d[k] = v; return type(self)(d)
    def drop(self, k):
        if k not in self.d: return self
        d = dict(self.d); del d[k]; return type(self)(d)
    def clear(self): return type(self)()
class MTMap(TransientMapping):
    def __new__(cls, *a, **kw):
        self = object.__new__(cls); self.d = dict(*a, **kw); return self
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def __reversed__(self): return reversed(self.d)
    def persistent(self): return MMap(self.d)
    def clear(self): self.d.clear()
class AMap(PersistentMapping):
    """An association tuple, searched linearly; set and drop always return a new object."""
    __slots__ = ('a',)
    def __new__(cls, *a, **kw):
        self = object.__new__(cls); put(self, 'a', tuple(dict(*a, **kw).items())); return self
    def __len__(self): return len(self.a)
    def __iter__(self): return (k for k, _ in self.a)
    def __getitem__(self, k):
        hash(k)
        for a, v in self.a:
            if a is k or a == k: return v
        raise KeyError(k)
    def __reversed__(self): return (k for k, _ in reversed(self.a))
    def transient(self): return ATMap(self.a)
    def set(self, k, v): d = dict(self.a); d[k] = v; return type(self)(d)
    def drop(self, k): d = dict(self.a); hash(k); d.pop(k, None); return type(self)(d)
    def clear(self): return type(self)()
class ATMap(TransientMapping):
    def __new__(cls, *a, **kw):
        self = object.__new__(cls); self.ks = []; self.vs = []; [self.__setitem__(k, v) for k, v in dict(*a, **kw).items()]; return self
    def _i(self, k):
        hash(k)
        for i, a in enumerate(self.ks):
            if a is k or a == k: return i
        raise KeyError(k)
    def __len__(self): return len(self.ks)
    def __iter__(self): return iter(list(self.ks))
    def __reversed__(self): return reversed(list(self.ks))
    def __getitem__(self, k): return self.vs[self._i(k)]
    def __setitem__(self, k, v):
        try: self.vs[self._i(k)] = v
        except KeyError: self.ks.append(k); self.vs.append(v)
    def __delitem__(self, k): i = self._i(k); del self.ks[i]; del self.vs[i]
    def persistent(self): return AMap(zip(self.ks, self.vs))
    def clear(self): self.ks = []; self.vs = []


PAIRS = {MSeq: MTSeq, CSeq: CTSeq, MSet: MTSet, OSet: OTSet, MMap: MTMap, AMap: ATMap}

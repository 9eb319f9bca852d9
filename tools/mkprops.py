"""Writes /verif/properties.jsonl.  The property texts live here so that they can be edited readably."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe_at=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe_at), hook_needed=hook)))
L='pcollections/_list.py'; S='pcollections/_set.py'; D='pcollections/_dict.py'; Z='pcollections/_lazy.py'
AC='pcollections/abc/_core.py'; AL='pcollections/abc/_seq.py'; AS='pcollections/abc/_set.py'; AM='pcollections/abc/_map.py'
U='pcollections/util/_core.py'

prop('C01','Persistent collections never change',
 'Once a persistent collection (plist, pset, pdict, llist, ldict) exists, nothing done later - to it, to versions or slices derived from it, or to transients made from it or turned into it - changes its length, its elements or key-value pairs, their iteration order, its hash, or the outcome of any lookup in it. '
 'Assigning or deleting an item or an attribute of a persistent collection raises TypeError and has no effect. '
 'The only permitted change is that a lazy element, once evaluated, is reported as ready.',
 ['histories','inputs'],'every history of operations over a family of collections that share structure (versions, slices, transients, batch operations), and every version in it',
 'The unit tests look back at an old version after a handful of single edits on 10-element collections; aliasing bugs need a specific multi-step history (persist, keep editing the transient, look back at the old version).',
 [L,S,D,Z,AC],
 [('operations build a new object from an assoc/dissoc-ed trie','_list.py plist.set/delete/append/prepend/insert; _set.py pset.add/discard; _dict.py pdict.set/drop/pop'),
  ('transients copy-on-write a THAMT made from the persistent trie','plist/pset/pdict.transient, tlist/tset/tdict.persistent'),
  ('__setattr__/__setitem__/__delitem__ raise','abc/_core.py Persistent')],
 [('_phamt,_start / _els,_idx,_top','the shared tries','plist, pset, pdict'),('_hashcode','cached hash','plist, pset, pdict')],
 ['return value of every public operation; re-reading every older version after each later operation'])

prop('C02','plist behaves as an immutable list',
 'For every starting list and every sequence of plist operations (construction, set, append, prepend, insert, delete, drop, pop, remove, extend, +, *, sort, reverse, clear, indexing, slicing with any start/stop/step, index, count, in, iteration, reversed, len), each result has exactly the elements, in the same order, that the builtin list gives for the corresponding operation. '
 'Where the list operation raises IndexError or ValueError the plist operation raises the same kind of error, except that drop with an index out of range returns the plist unchanged; any object with __index__ serves as an index, and others raise TypeError.',
 ['histories','inputs'],'every operation history, element values of every kind (unorderable, unhashable, identity-equal, NaN), every in-range and out-of-range index and slice',
 'The tests use integers only, 100 random operations with one fixed seed, and never slice from 0, slice with a negative step, insert at negative indices, or combine front deletion with prepend over trie-node boundaries (32, 1024 elements).',
 [L,AL],
 [('front offset arithmetic over integer trie keys, including negative keys','plist.set/delete/insert/prepend/__iter__/__getitem__'),
  ('mixin operations through a transient','abc/_seq.py PersistentSequence.extend/sort/reverse/__add__/__mul__/index/count')],
 [('_start','trie key of element 0; negative after prepends','plist'),('_phamt','trie from integer key to element','plist')],
 ['result of every operation against a builtin list that did the same'])

prop('C03','pset behaves as an immutable set',
 'For every starting set and every sequence of pset operations (construction, add, addall, discard, discardall, remove, removeall, pop, clear, union, intersection, difference, symmetric_difference, the operators | & - ^ in both operand orders, in, len, iteration), each result contains exactly the elements that the builtin set operation on the same operands contains, each element once. '
 'remove of a missing element and pop of an empty pset raise KeyError; elements that have equal hashes but are not equal are kept apart.',
 ['histories','inputs'],'every operation history, hashable elements of every kind, including unequal elements with equal hashes and elements equal across types; operands of every set type, and any iterable where set accepts one',
 'The tests use small distinct integers only, so two elements never share a hash bucket, and the set algebra is tried on three fixed three-element sets.',
 [S,AS],
 [('elements in a trie by insertion number, hash buckets as linked chains through it','pset.add/discard/__contains__, tset.add/discard'),
  ('set algebra through a transient','abc/_set.py PersistentSet')],
 [('_els','insertion number -> (element, next in the same hash bucket)','pset'),('_idx','hash -> first insertion number','pset'),('_top','next insertion number','pset')],
 ['result of every operation against a builtin set'])

prop('C04','pdict behaves as an immutable insertion-ordered dict',
 'For every starting mapping and every sequence of pdict operations (construction, set, setall, setdefault, update, drop, dropall, delete, deleteall, pop, popitem, clear, indexing, get, in, len, iteration, keys, values, items, reversed), each result maps exactly the keys to exactly the values that a builtin dict given the same updates does, and iterates in the order in which its keys were inserted. '
 'A missing key raises KeyError where dict does (indexing, delete, deleteall, pop without default, popitem of an empty pdict); keys with equal hashes that are not equal are kept apart; popitem removes one arbitrary pair and returns it.',
 ['histories','inputs'],'every operation history, hashable keys of every kind including unequal keys with equal hashes, arbitrary values including None and unhashable ones',
 'The tests use small integer keys, so two keys never share a hash bucket (a collision in pdict.set is never executed), and dropall, deleteall, popitem, setdefault are never called.',
 [D,AM],
 [('pairs in a trie by insertion number, hash buckets as linked chains through it','pdict.set/drop/pop/get/__getitem__/__contains__'),
  ('batch operations through a tdict','abc/_map.py PersistentMapping')],
 [('_els','insertion number -> ((key, value), next in bucket)','pdict'),('_idx','hash -> first insertion number','pdict'),('_top','next insertion number','pdict')],
 ['result of every operation against a builtin dict'])

prop('C05','tlist behaves as a mutable list',
 'For every sequence of operations on a tlist (item assignment and deletion by an integer or any object with __index__, append, prepend, insert, extend, pop, remove, sort, reverse, clear, += and + with a list or pcollections sequence, *=, *, copy, indexing, slicing, index, count, in, iteration, reversed, len) the tlist holds, after every step, exactly the elements in the order that a builtin list given the same operations holds, and each operation returns or raises (IndexError, ValueError, TypeError) what the list operation does.',
 ['histories','inputs'],'every operation history starting from an empty tlist, any iterable, or any plist (including ones with a shifted front), any element values and any integer indices',
 'The tests drive tlist through append, prepend, insert, pop and item assignment in one seeded run; sort, reverse, count, index, *=, reflected + are never called on a tlist.',
 [L,AL],
 [('in-place element shifting and front offset','tlist.insert/__delitem__/prepend'),('mixin list operations','abc/_seq.py TransientSequence')],
 [('_start','trie key of element 0','tlist'),('_thamt','transient trie','tlist')],
 ['state and return value after every operation against a builtin list'])

prop('C06','tset behaves as a mutable set',
 'For every sequence of operations on a tset (add, addall, update, discard, discardall, remove, removeall, pop, clear, copy, |=, &=, -=, ^=, the *_update methods, and the non-mutating union, intersection, difference, symmetric_difference, | & - ^ in both operand orders) the tset holds, after every step, exactly the elements a builtin set given the same operations holds, including when the other operand is the tset itself. '
 'remove of a missing element and pop of an empty tset raise KeyError; unequal elements with equal hashes are kept apart.',
 ['histories','inputs'],'every operation history, hashable elements of every kind including hash-colliding ones, operands of every set type and the receiver itself',
 'The tests drive only add, discard and remove on integers 0..20; no *_update method, in-place operator or self-operand is ever used and no two elements collide.',
 [S,AS],
 [('hash-bucket chains edited in place','tset.add/discard'),('in-place set algebra','abc/_set.py TransientSet')],
 [('_els,_idx,_top','as in pset, but transient tries','tset')],
 ['state and return value after every operation against a builtin set'])

prop('C07','tdict behaves as a mutable insertion-ordered dict',
 'For every sequence of operations on a tdict (item assignment and deletion, update, setdefault, pop, popitem, clear, copy, indexing, get, in, len, iteration, keys, values, items, reversed) the tdict maps, after every step, exactly the keys to the values that a builtin dict given the same operations does, and iterates in key insertion order. '
 'KeyError is raised where dict raises it; unequal keys with equal hashes are kept apart; popitem removes one arbitrary pair and returns it.',
 ['histories','inputs'],'every operation history, hashable keys of every kind including hash-colliding ones, starting from empty, any mapping/iterable or any pdict',
 'The tests drive tdict through set, pop, del on integer keys; collisions, update, setdefault, popitem, clear and the views are not exercised on it.',
 [D,AM],
 [('hash-bucket chains edited in place','tdict.__setitem__/__delitem__/pop'),('mixin operations','abc/_map.py TransientMapping')],
 [('_els,_idx,_top,_version','tries, next insertion number, key-change counter','tdict')],
 ['state and return value after every operation against a builtin dict'])

prop('C08','Transients are isolated snapshots both ways',
 'A transient made from a persistent collection, by transient() or by the transient type\'s constructor, starts equal to it, and a persistent collection made from a transient, by persistent() or by the persistent type\'s constructor, is equal to the transient at that moment. '
 'From then on the two are independent: editing any one of several transients, copies or persistent snapshots that share a history changes no other one, and persistent() always reflects all edits made so far.',
 ['histories'],'every interleaving of transient(), persistent(), copy(), type-to-type construction and edits over a family of related collections',
 'The tests call persistent() and compare it at once; they never keep editing the transient afterwards and look at the snapshot again, never hold two transients of one original, and never re-edit after persistent().',
 [L,S,D,Z],
 [('transient tries copied on write from the persistent trie','plist/pset/pdict/llist/ldict.transient'),
  ('the original is remembered so an unedited transient returns it, and forgotten on every edit','_orig in tlist, tset, tdict'),
  ('copy() goes through persistent()','abc/_core.py Transient.copy')],
 [('_orig','persistent original while the transient is unedited','tlist, tset, tdict')],
 ['content of every member of the family after every operation'])

prop('C09','Equality and hash are coherent',
 'Two collections of the same kind (sequences: plist, llist, tlist, tllist, list; sets: any; mappings: any) are equal exactly when their corresponding builtin list, set or dict are, whatever history or type they come from and whatever (even unorderable) elements they hold; == with anything else is False and never raises. '
 'Equality is symmetric and != is its negation; equal persistent collections have equal hashes - also a pset and an equal frozenset, and an ldict or llist and its evaluated pdict or plist - the hash never changes, and persistent collections of hashable elements work as dict keys and set members (hashing one with unhashable elements raises TypeError).',
 ['inputs','histories'],'every pair of collections reached by any histories, all element kinds including unorderable, partially ordered, NaN, numbers equal across types',
 'The tests compare integer collections built the same way and only check that hash() returns an int.',
 [L,S,D,Z,AL,AS,AM,U],
 [('element-wise comparison','abc/_seq.py __eq__, util/_core.py seqcmp, setcmp'),('hash of the content, cached','plist/pset/pdict.__hash__, abc __hash__')],
 [('_hashcode','cached hash','plist, pset, pdict')],
 ['==, != and hash() over all pairs of a pool of collections, against the builtin models'])

prop('C10','Ordering and subset comparisons match the builtins',
 'For sequences (plist, llist, tlist, tllist against each other or a list) whose elements support all four orderings or none, consistently with ==, <, <=, > and >= give what comparing the corresponding lists gives, and raise TypeError where that does. '
 'For sets (pset, tset against any set) <, <=, >, >=, issubset, issuperset and isdisjoint give what the corresponding builtin sets give, including for empty operands.',
 ['inputs'],'all pairs of collections, elements totally or partially ordered, empty, equal, prefix, disjoint, overlapping operands',
 'The tests compare a few integer ranges; empty operands, equal-prefix and partially ordered elements are not tried.',
 [AL,AS,U],
 [('three-way comparison helpers','util/_core.py seqcmp, setcmp'),('rich comparison methods','abc/_seq.py, abc/_set.py')],
 (), ['results of every comparison over all pairs of a pool'])

prop('C11','A lazy value is computed once, also under threads',
 'However many threads request a lazy value at the same time, directly or through any collections that share it, its function runs to successful completion exactly once, no two threads run it at the same time, and every request returns that one result object. '
 'is_ready() is True only after that result exists, and a request made once it is True never runs the function; two lazy values that depend on each other in a chain, or different lazy values in different threads, never block one another forever.',
 ['schedules','histories'],'all thread interleavings of requests, is_ready queries and accesses through llist/ldict/tllist/tldict that share the lazy object',
 'The tests are single threaded; the lock and the double check in lazy.__call__ are never contended.',
 [Z],
 [('double-checked evaluation under a re-entrant lock','lazy.__call__'),('result published before the pending state is cleared','lazy.__call__')],
 [('partial','(function, lock, error) while pending, None when ready','lazy'),('value','the cached result','lazy')],
 ['start/end of every run of the function and call/return of every request, on one logical clock'])

prop('C12','Failed lazy evaluations are reported and retried',
 'When the function of a lazy value raises an exception, every request that ran it raises a LazyError (a RuntimeError) that is chained to the original exception, nothing is cached, is_ready() stays False, the lock is free again for every thread, and the next request runs the function again with the same arguments; the first success is cached for good. '
 'Exceptions that are not Exception subclasses (KeyboardInterrupt, SystemExit) pass through unchanged with the same guarantees.',
 ['fault_sequences','schedules'],'every sequence of failing and succeeding evaluations, exception kinds, nested lazies, and requesting threads',
 'No test evaluates a lazy whose function raises.',
 [Z],
 [('exception handling and lock release','lazy.__call__'),('error prepared at construction','lazy.__new__, LazyError')],
 [('partial','kept until a success','lazy')],
 ['exceptions seen by requesters, is_ready, count of runs and their arguments, requests from other threads after a failure'])

prop('C13','Nothing but a request evaluates a lazy element',
 'Building or structurally editing an llist, ldict, tllist or tldict (construction from non-lazy collections or from its own type or its transient counterpart, set, setall, setdefault, append, prepend, insert, delete, deleteall, drop, dropall, slicing, clear, transient(), persistent(), copy(), assignment and deletion of items, extending or updating with plain lists or dicts of lazies), asking for its length, its keys or whether it has a key, printing it with str or repr (except a tllist), and is_lazy, is_ready, getlazy, as_plist, as_pdict, as_tdict, holdlazy evaluate no lazy element. '
 'Reading one element (indexing, get, pop, or one step of iterating the elements, values or items) evaluates only that element, as_*/holdlazy/getlazy give back the very lazy objects that were stored, is_lazy and is_ready answer truthfully, and ready_all evaluates them all.',
 ['histories','inputs'],'every history of structural operations and single reads over lazy collections that share lazy elements',
 'The tests check evaluation counts only for construction, one index and one full iteration of a two-element collection.',
 [Z,L,D],
 [('raw storage, evaluation only on read','llist.__getitem__/__iter__, ldict.__getitem__/get/items/values, tllist, tldict'),('raw views','as_plist, as_pdict, as_tdict, getlazy, holdlazy')],
 (), ['the run log of every lazy function after every operation'])

prop('C14','Lazy collections read like their evaluated counterparts',
 'Every read of an llist, ldict, tllist or tldict that holds lazy values - indexing, slicing, iteration, reversed, get, pop, popitem, keys, values, items and membership in them, in, count, index, ==, ordering, hash, sort, reverse, +, *, conversion to list, dict, plist or pdict - gives exactly what the same read gives on the plist, pdict, tlist or tdict that holds the computed values in their place. '
 'In particular no such read ever hands out a lazy object stored as an element or value.',
 ['histories','inputs'],'every mixture of lazy (pending or ready) and ordinary elements, every read operation, collections reached by any history of edits',
 'The tests read a two-element collection by index and by iteration; pop, count, hash, views membership, delete at the front and conversions of lazies through them are not covered.',
 [Z,L,D,AL,AM],
 [('dereferencing read paths','llist, tllist, ldict, tldict, ldict_items, ldict_values, tldict_items, tldict_values')],
 (), ['every read on a lazy collection against the same read on the collection of computed values'])

prop('C15','Operations keep the type; no-ops return the receiver',
 'Every operation that derives a new version of a plist, pset, pdict, llist or ldict from it alone or from it and ordinary builtins returns an object of that same type; transient() and persistent() pair plist/tlist, pset/tset, pdict/tdict, llist/tllist and ldict/tldict, and copy() of a transient has its type. '
 'Constructing any persistent type with no arguments, clear(), and persistent() of an emptied transient give the one empty instance of that type. Operations without effect give back the very same object: copy(), set to the same object, setdefault of a present key, add/addall/union of elements that are present, discard/discardall/difference of elements that are absent, intersection that removes nothing, drop of a missing key or index, concatenation with an empty list on either side, * 1, and persistent() of a transient() of a non-empty collection that was only read.',
 ['histories','inputs'],'every operation of every type, from collections reached by any history',
 'The tests check types after three or four operations of plist and llist; the type after delete at either end, pop, insert, or batch operations on the lazy types is not checked.',
 [L,S,D,Z,AL,AS,AM],
 [('construction through self._new or type(self)','plist, pset, pdict, llist, ldict'),('class-level empty instances','plist.empty, pset.empty, pdict.empty, llist.empty, ldict.empty'),('_orig','tlist, tset, tdict persistent()')],
 (), ['type and identity of every result'])

prop('C16','Pickling and copying preserve collections',
 'For each of the ten collection types and every pickle protocol, a collection that is pickled and unpickled, copied with copy.copy, or deep-copied comes back as an equal collection of the same type (sequences and mappings in the same order), and it can be used and edited further like the original. '
 'A copied transient is independent of the original; a deep copy or unpickled collection shares no mutable element with the original.',
 ['inputs','histories'],'every collection type, content (nested collections, colliding hashes, lazy elements), history, and protocol 0-5',
 'No test pickles or copies (with the copy module) any collection.',
 [AL,AS,AM],
 [('__reduce__','abc/_seq.py, abc/_set.py, abc/_map.py')],
 (), ['result of the round trip and of operations on it'])

prop('C17','Iteration, views and lookups agree with each other',
 'For every collection in every reachable state, iteration, reversed iteration, len, membership, indexing or get, and the keys, values and items views (their length, iteration, reversed iteration, membership, set operations of keys and items) all describe the same content; every element that iteration yields is found, and iterating twice gives the same order. '
 'Views of a persistent dict are fixed; views of a transient dict follow its current content, and continuing an iterator over a tset or tdict that has elements left after its keys changed raises RuntimeError, while assigning new values to existing keys of a tdict during iteration is allowed.',
 ['histories','inputs'],'every reachable state of the ten types, every view kind, edits placed at every point of an iteration',
 'The tests iterate pdict keys and compare whole collections; views of tdict/tldict, their membership, reversal, and edits during iteration are not exercised.',
 [L,S,D,Z,AL],
 [('view classes','PDictView and subclasses, tdict_view and subclasses, ldict_items/values, tldict_items/values'),('key-change counter','tdict._version, tdict.__iter__'),('iteration over shifted integer keys','plist.__iter__, tlist.__iter__')],
 [('_version','incremented when the key set changes','tdict')],
 ['all read paths of one object at the same moment'])

prop('C18','A failing operation leaves collections intact',
 'When an operation raises - because of an invalid index, missing key or unhashable element, or because user code it calls (__eq__, __hash__, a comparison, a sort key, an iterator or mapping argument) raises - every persistent collection involved is unchanged, and a transient after a failed single-element operation, sort or reverse is unchanged; the exception raised by user code reaches the caller (wrapped in LazyError for lazy functions). '
 'A transient after a failed batch operation (extend, update, addall and the like) holds exactly the effect of the steps that succeeded before the failure, as the builtin would, and stays fully consistent and usable.',
 ['fault_sequences','histories'],'an exception injected at every call into user code (k-th __eq__, k-th __hash__, k-th item of an iterable) during every operation, and every invalid argument, on every reachable state',
 'The tests check that a few calls raise; they never look at the collection afterwards and no test has elements whose __eq__ or __hash__ raises.',
 [L,S,D,AL,AS,AM],
 [('lookups precede mutation','tset.add/discard, tdict.__setitem__/__delitem__/pop, tlist.__setitem__/__delitem__/insert'),('batch persistent operations work on a private transient','abc mixins')],
 (), ['full content of every collection before and after each failed operation'])

prop('C19','Printing is faithful, bounded and evaluates nothing',
 'repr of a collection shows repr of every element (or "key: value" pair), in iteration order, separated by ", ", between that type\'s brackets: [|...|] for plist and llist, [<...>] for tlist and tllist, {|...|} for pset, pdict, ldict, tdict and tldict, {<...>} for tset. '
 'str shows the same (with {<...>} for tdict, and with pending or ready lazy elements shown as <lazy> for llist, ldict and tldict) if it fits in 60 characters between the brackets, and otherwise as many whole leading elements as fit in 60 characters together with a final "..."; llist, ldict and tldict evaluate nothing when printed.',
 ['inputs'],'all collections of all ten types, element representations of any length',
 'No test looks at str or repr of anything.',
 [U,AL,AS,AM,Z],
 [('bounded joining','util/_core.py seqstr'),('bracket styles','__str__/__repr__ in abc and _lazy.py')],
 (), ['str() and repr() results against an independent formatter; evaluation log'])

prop('C20','Updates share structure instead of copying',
 'The work and memory needed to change one element of a persistent collection of n elements (plist set, append, prepend, pop/delete at either end; pset add, discard; pdict set, drop, pop), to look one up, to create a transient, to make one transient edit at either end or by key, and to make a transient persistent again do not grow in proportion to n. '
 'They stay within a small constant plus a logarithmic term, also when the transient has been made persistent many times.',
 ['inputs','histories'],'all sizes n and all the listed operations, from collections reached by any history',
 'The tests never use a collection larger than about 100 elements and measure nothing.',
 [L,S,D,Z],
 [('path copying in the trie','phamt assoc/dissoc through plist, pset, pdict'),('constant-time transient creation','transient() of each type, tlist/tset/tdict constructors from the persistent type'),('persistent() reuses the transient trie','tlist, tset, tdict persistent()')],
 (), ['executed interpreter events and allocated memory per operation, for sizes from 10^2 to 10^5'])

prop('C21','Collections keep alive only what they contain',
 'An object that was an element, key or value is freed once it has been removed or replaced and no version that still contains it is referenced; in particular a transient that has been edited does not keep its original alive, and dropping all references to a family of collections frees all their elements. '
 'A lazy value that has been computed no longer keeps its function or arguments alive.',
 ['histories'],'every history of edits, conversions, lookups, comparisons, hashing, iteration, lazy evaluation, and every order of dropping references',
 'No test looks at object lifetimes.',
 [L,S,D,Z],
 [('the remembered original is dropped on the first edit','_orig in tlist, tset, tdict'),('the pending state is dropped after success','lazy.__call__'),('tries reference only live entries','_els, _idx, _phamt')],
 [('_orig','remembered original of an unedited transient','tlist, tset, tdict')],
 ['weak references to every element, key, value, function and argument after garbage collection'])

prop('C22','Persistent collections can be shared between threads',
 'Any number of threads may at the same time read, hash, compare, iterate, print, and derive new versions or transients from the same persistent collection without locking; each thread obtains exactly the results it would obtain alone, and the shared collection is unchanged. '
 'Transients made by different threads from the same persistent collection are independent.',
 ['schedules','histories'],'all interleavings of operations of several threads on a shared persistent collection, each thread with its own derived versions and transients',
 'The tests are single threaded.',
 [L,S,D,Z],
 [('shared state is immutable; the only in-place write is the idempotent hash cache','plist/pset/pdict.__hash__, lazy.__call__')],
 [('_hashcode','cached hash, written once computed','plist, pset, pdict')],
 ['per-thread operation results against per-thread models'])

prop('C23','The comparison and formatting utilities meet their contracts',
 'setcmp(a, b) returns 0 for equal sets, -1 if a is a proper subset of b, 1 if a proper superset, None if both are non-empty and disjoint, and Ellipsis otherwise, for any mixture of set types, and raises TypeError for non-sets; seqcmp(a, b) returns -1, 0 or 1 according to lexicographic order for any sequences of comparable elements (None if the first elements that differ are not ordered). '
 'seqstr joins the representations of all items (mappings as "key: value"), and with maxlen the result is that text if it fits in maxlen characters, and else as many whole leading items as fit together with a final "...", never longer than maxlen.',
 ['inputs'],'all pairs of sets and sequences of any types, all iterables, separators, maxlen values and tostr functions',
 'No test calls these functions directly.',
 [U],
 [('setcmp, seqcmp, seqstr','util/_core.py')],
 (), ['results against independent definitions'])

prop('C24','Construction and conversion preserve content',
 'plist, tlist, llist and tllist accept any iterable, pset and tset any iterable of hashables, and pdict, tdict, ldict and tldict whatever dict accepts (nothing, a mapping, an object with keys() and item access, an iterable of pairs, keyword arguments, or both), and the result equals the list, set or dict built from the same arguments, later duplicates winning in mappings. '
 'Converting between persistent, transient and lazy types of the same kind by constructor preserves the content and order, where the non-lazy types receive computed values from a lazy collection; wrong argument counts or unsuitable arguments raise TypeError (or the error list, set or dict raises).',
 ['inputs'],'all argument shapes: builtin and user-defined iterables, generators, mappings, views, pair lists, keyword arguments, and every collection type as a source',
 'The tests construct from range, zip, dict and list only and convert only plist, pdict and ldict in one direction.',
 [L,S,D,Z],
 [('constructor special cases by argument type','plist/tlist/pset/tset/pdict/tdict __new__ and their inheritance by the lazy types')],
 (), ['constructed object against the builtin built from the same arguments'])

prop('C25','The abstract base classes supply working defaults',
 'A class that derives from PersistentSequence, TransientSequence, PersistentSet, TransientSet, PersistentMapping or TransientMapping and implements only the methods its documentation lists as abstract gets, for every other operation the documentation lists, the behaviour of the corresponding list, set or dict operation (persistent classes returning a new object of their own type and leaving the receiver unchanged). '
 'The ten concrete types are instances of the matching collections.abc classes.',
 ['inputs','histories'],'all minimal implementations (here several differently built ones), all default operations, all histories',
 'The tests only use the concrete types, which override part of the defaults.',
 [AC,AL,AS,AM],
 [('default methods','abc/_seq.py, abc/_set.py, abc/_map.py')],
 (), ['results of default operations on independent minimal implementations against the builtins'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

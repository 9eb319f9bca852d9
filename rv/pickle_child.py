"""Child with another hash seed: unpickles collections, uses them, and reports what it sees (as builtins)."""
import sys, os, pickle, struct
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from rv import core
sys.path.insert(0, core.REPO)
sys.dont_write_bytecode = True
import pcollections
from rv.values import HK


def facts(o):
    name = type(o).__name__
    f = dict(type=name, len=len(o))
    if name in ('pdict', 'tdict', 'ldict', 'tldict'):
        f['content'] = [(k, o[k]) for k in o]
        f['found'] = all(k in o for k in list(o))
        model = dict(f['content'])
    elif name in ('pset', 'tset'):
        f['content'] = set(o); f['found'] = all(x in o for x in list(o))
        model = f['content']
    else:
        f['content'] = list(o); f['found'] = True
        model = f['content']
    f['equal'] = (o == model)
    if hasattr(o, 'transient'):
        try: f['hash'] = hash(o) == hash(type(o)(list(o.items()) if isinstance(model, dict) else list(o)))
        except TypeError: f['hash'] = None
        t = o.transient()
    else: t = o.copy()
    # edits
    k = HK(9999, 3)
    if isinstance(model, dict):
        t[k] = 1; t['child'] = 2
        ok = t[k] == 1 and t['child'] == 2 and len(t) == len(model) + 2
        for x in list(model): del t[x]
        f['edits'] = ok and len(t) == 2 and len(o) == len(model)
    elif isinstance(model, set):
        t.add(k); ok = k in t and len(t) == len(model) + 1
        for x in list(model): t.remove(x)
        f['edits'] = ok and set(t) == {k} and set(o) == model
    else:
        t.append(k); t.prepend('x')
        f['edits'] = list(t) == ['x'] + model + [k] and list(o) == model
    return f


def main():
    i, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(4)
        if len(h) < 4: return
        data = i.read(struct.unpack('<I', h)[0])
        try: r = facts(pickle.loads(data))
        except Exception as e: r = dict(error=f'{type(e).__name__}: {e}')
        try: b = pickle.dumps(r)
        except Exception as e: b = pickle.dumps(dict(error=f'report: {e}'))
        out.write(struct.pack('<I', len(b)) + b); out.flush()
if __name__ == '__main__': main()

from ..core import Violation, short
from ..family import *
PROP = 'C08'
BUSY = 2
RULE = ('One case is a family of up to 11 persistent and transient collections derived from one another (transient(), '
        'persistent(), copy(), constructors, as_tdict and friends) driven by 25-90 random operations, most of them edits of '
        'transients; the content of every other member is compared by identity with its last own state after every '
        'operation, every conversion must start with the content of its source, and persistent() of every transient must '
        'reflect all edits.  An evaluation is one re-read of a member; distinct are different (kind, operation, size, member).')
def plan(tier): return dict(cases=18000 if tier == 'quick' else 300000, deadline=300 if tier == 'quick' else 600)


def run_case(case):
    rng = case.rng
    fm = Family(case, full=False, large=case.index % 200 == 7)
    if (case.index // 10) % BUSY == 1 and rng.random() < .2 and not fm.large: fm.interrupts = True; case.count['interrupted cases'] += 1
    fm.start()
    for step in range(rng.randrange(25, 90) if not fm.large else 12):
        ts = [m for m in fm.members if not m.pers]
        m = rng.choice(ts) if ts and rng.random() < .65 else rng.choice(fm.members)
        q = rng.random()
        if q < .58: lab = fm.edit(m)
        elif q < .86: lab = ('derive',); fm.derive(m)
        elif q < .92: lab = ('raw',); fm.raw(m)
        elif q < .96: lab = ('cross',); fm.cross(m, rng.choice(fm.members))
        elif q < .98: lab = ('derive',); fm.fill(m)
        else: lab = ('mutate argument',); fm.mutate_held()
        fm.verify(None if lab == ('derive',) else m, lab)
        if not m.pers and rng.random() < .3 and m in fm.members:
            p, e = attempt(m.obj.persistent)
            if e is None:
                case.count['persistent_reflects'] += 1
                s = snap(m.fam, p)
                if not snap_same(s, m.snap):
                    raise Violation(f'{m.kind}:persistent', f'persistent() of {m.name} ({m.kind}) after {short(lab)} does '
                                    'not reflect its edits', got=s, want=m.snap)
                if rng.random() < .4: fm.add(p, (m.name, 'persistent'), expect=m.snap)
    fm.verify(None, ('end',))
    if case.sample is None: case.sample = [short(e, 120) for e in case.log[:10]]
MIN = {'large': 50, 'evaluations': 200000, 'persistent_reflects': 5000, 'cross': 2000, 'derive:transient': 1500,
       'derive:persistent': 4000, 'derive:ctor-pair': 2000, 'derive:ctor-own': 2000, 'derive:copy': 2000, 'interrupted': 3000, 'filled': 3000, 'lookups': 50000}

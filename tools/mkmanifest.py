"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
    C01='family monitor: observation snapshots of every persistent version re-read after every later operation',
    C02='online differential monitor against builtin list', C03='online differential monitor against builtin set',
    C04='online differential monitor against builtin dict', C05='online differential monitor against builtin list',
    C06='online differential monitor against builtin set', C07='online differential monitor against builtin dict',
    C08='family monitor: every member of an aliasing family compared with its own edit log after every step',
    C09='online monitor of == and hash over all pairs of a pool, against builtins',
    C10='online monitor of comparisons over all pairs of a pool, against builtins',
    C11='event-log checker over seeded thread schedules and stress',
    C12='event-log checker with injected failures over seeded thread schedules',
    C13='evaluation-log monitor: which operation evaluated which lazy',
    C14='online differential monitor, lazily wrapped subject against evaluated builtin',
    C15='type and identity monitor on every result of random histories',
    C16='round-trip monitor with independence probes',
    C17='read-path consistency monitor after every step, iterator/edit interleavings',
    C18='fault injection at every user-code call with before/after observation',
    C19='output monitor against an independent formatter', C20='work and allocation counters across sizes',
    C21='weak-reference lifetime monitor', C22='seeded thread scheduler with per-thread differential monitors',
    C23='output monitor against independent definitions', C24='online differential monitor of constructors',
    C25='online differential monitor over minimal subclasses of the abstract classes')
NOTE = ('Oracle observes real executions of the code in /repo; assurance is limited to the histories, inputs and schedules '
        'generated (seeded, counted in the evidence). Trusts CPython 3.12, phamt 0.1.8 and the harness in rv/.')
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/rv/checks/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} --tier quick', thorough_cmd=f'./check.sh {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='not built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import pcollections, phamt"', checks=checks,
               not_applicable=na, notes='See DESIGN.md. No hooks in /repo are needed.'), open(f'{V}/MANIFEST.json', 'w'), indent=1)

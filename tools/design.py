"""DESIGN.md = doc/head.md + the properties with their harnesses + doc/tail.md"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
from sx import registry

registry.load_all()
out = [open(os.path.join(HERE, 'doc', 'head.md'), encoding='utf-8').read()]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf-8'))
notes = {c['property']: c['level_note'] for c in man['checks']}
TIMES = json.load(open(os.path.join(HERE, 'doc', 'times.json'))) if os.path.exists(os.path.join(HERE, 'doc', 'times.json')) else {}
for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    out.append('### %s %s\n\n%s\n\n*Anchors:* %s. *Why tests cannot settle it:* %s\n' %
               (p['id'], p['title'], p['statement'], ', '.join(p['anchors']['files']), p['why_tests_cant']))
    for n in registry.PROPS[p['id']]:
        h = registry.HARNESSES[n]
        doc = ' '.join((h['fn'].__doc__ or '').split())
        cases = list(h['cases']() if callable(h['cases']) else h['cases'])
        more = list(h['thorough']() if callable(h['thorough']) else h['thorough'])
        out.append('- `%s` (%d cases%s, mode %s)%s. Bounds: %s.%s' % (
            n.split('.')[1], len(cases), ', %d more thorough' % len(more) if more else '', h['mode'], ': ' + doc if doc else '',
            h['bounds'] or 'none beyond the sizes in the cases', ' Represented by contract: %s.' % '; '.join(h['stubs']) if h['stubs'] else ''))
    t = TIMES.get(p['id'])
    note = notes[p['id']].split('the solvers. ')[-1].strip()
    out.append('\n%s%s\n' % ('Cost: about %s s quick (8 cores). ' % t if t else '', note))
rows = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
CAUGHT = json.load(open(os.path.join(HERE, 'doc', 'caught.json'))) if os.path.exists(os.path.join(HERE, 'doc', 'caught.json')) else {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json'), encoding='utf-8'))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], CAUGHT.get(d, 'not run')))
out.append(open(os.path.join(HERE, 'doc', 'tail.md'), encoding='utf-8').read().replace('@SEEDS@', '\n'.join(rows)))
open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out))

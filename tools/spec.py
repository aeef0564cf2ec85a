"""The property list: writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = {}
K = 'intvalpy/kernel/'
L = 'intvalpy/linear/'


def P(id, title, statement, over, text, why, files, mechanism, observe=None, note='', na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                               'observe_at': observe or ['return values of the public functions'], 'hook_needed': None}))
    PROPS[-1]['_note'] = note
    if na:
        NOT_APPLICABLE[id] = na


exec(open(os.path.join(HERE, 'tools', 'spec_kernel.py'), encoding='utf-8').read())
for f in ('spec_linear.py', 'spec_models.py'):
    p = os.path.join(HERE, 'tools', f)
    if os.path.exists(p):
        exec(open(p, encoding='utf-8').read())

TECH = 'symbolic execution of the package source (all paths), obligations decided by Z3/cvc5, counterexamples replayed on the compiled package'
TRUST = ('Trusts the translator and the numpy stand-in of /verif/sx (kept faithful by replaying every counterexample and by the '
         'self test in setup), Python and numpy dispatch, and the solvers. ')

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'],
                   'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'other',
                   'level_note': 'Holds for all real/double input values within the stated sizes; no unbounded claim. ' + TRUST + p['_note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'One command per property; ./check.py --help. Known findings: known_findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks')

"""mkseed.py SPEC.py: the spec defines ID, PROPERTY, FILE, EDITS [(old, new)] (or FILES {file: edits}), DEMO, NEEDS, BREAKS.
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} without leaving a change in /repo."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1], encoding='utf-8').read(), ns)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in ns['SEEDS']:
    d = os.path.join(HERE, 'seeded', spec['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, edits in spec['edits'].items():
        p = os.path.join(w, 'r', f)
        raw = open(p, encoding='utf-8', newline='').read()
        for old, new in edits:
            if '\r\n' in raw:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert raw.count(old) == 1, (spec['id'], raw.count(old), old)
            raw = raw.replace(old, new)
        open(p, 'w', encoding='utf-8', newline='').write(raw)
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(spec['demo'])
    with open(os.path.join(d, 'demo.sh'), 'w') as fh:
        fh.write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
                 'exec /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(spec['id'], len(diff))

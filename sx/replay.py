"""Replays a counterexample against the real package, built from /repo's working tree in a scratch folder.
usage: replay.py FILE.json   (exit 1 and a description when the violation reproduces, 3 when it does not)"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def build_scratch():
    """copy of the package with the extension compiled from the current .pyx, as setup.py does it"""
    src = os.path.join(REPO, 'intvalpy')
    h = hashlib.sha256()
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, src).encode())
                h.update(open(p, 'rb').read())
    dest = os.path.join(tempfile.gettempdir(), 'verif_build_' + h.hexdigest()[:20])
    if os.path.exists(os.path.join(dest, 'ok')):
        return dest
    tmp = tempfile.mkdtemp(prefix='verif_bld_')
    shutil.copytree(src, os.path.join(tmp, 'intvalpy'), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.cpp', '*.c'))
    for f in ('setup.py', 'README.md', 'pyproject.toml', 'LICENSE.txt'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, tmp)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '--build-temp', os.path.join(tmp, 'b'),
                        '--build-lib', os.path.join(tmp, 'l')], cwd=tmp, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError('extension does not build:\n' + r.stderr[-2000:])
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


def main():
    path = sys.argv[1]
    data = json.load(open(path))
    scratch = os.environ.get('VERIF_SCRATCH') or build_scratch()
    if os.environ.get('VERIF_REPLAY_INNER') != '1':
        env = dict(os.environ, VERIF_REPLAY_INNER='1', VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1',
                   MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONPATH=scratch + ':' + HERE)
        r = subprocess.run([PY, os.path.abspath(__file__), path], env=env, cwd=tempfile.gettempdir())
        sys.exit(r.returncode)
    sys.path.insert(0, HERE)
    sys.path.insert(0, scratch)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import intvalpy as ip
    assert ip.__file__.startswith(scratch), ip.__file__
    from sx import registry
    from sx.env import ConcEnv, Skip, Violation
    registry.load_all()
    h = registry.HARNESSES[data['harness']]
    fn = h['fn']
    case = data['case']
    models = [{k: (v[0], Fraction(v[1]) if v[1] is not None else None) for k, v in m.items()} for m in data['models']]
    budget = float(os.environ.get('VERIF_REPLAY_S', data.get('budget', 60)))
    t0 = time.time()
    rng = random.Random(int(data.get('seed', 1)))
    tried = 0
    ran = 0
    k = 0
    import io
    import contextlib
    while True:
        for m in models:
            E = ConcEnv(ip, m, rng=rng, mode=data['mode'], jitter=0 if k == 0 else 1)
            tried += 1
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        fn(E, **case)
                    finally:
                        E.close()
                E.set_rounding(0)
                ran += 1
            except Skip:
                E.set_rounding(0)
                continue
            except Violation as e:
                E.set_rounding(0)
                vals = {n: (str(v) if isinstance(v, Fraction) else repr(v)) for n, v in E.values.items()}
                out = {'label': e.label, 'detail': e.detail, 'values': vals, 'attempts': tried}
                print(json.dumps(out))
                if not os.environ.get('VERIF_NO_WRITE'):
                    data['reproduced'] = out
                    data['models'] = [{n: [m.get(n, ('float',))[0], str(v) if isinstance(v, Fraction) else
                                          str(Fraction(v)) if isinstance(v, (int, float)) and v == v and abs(v) != float('inf') else None]
                                       for n, v in E.values.items()}] + data['models']
                    data['models'] = data['models'][:3]
                    json.dump(data, open(path, 'w'), indent=1)
                sys.exit(1)
            except Exception as e:
                import traceback
                print(json.dumps({'harness-error': traceback.format_exc(limit=-5)}))
                sys.exit(4)
        k += 1
        if time.time() - t0 > budget or tried > 200000:
            break
    print(json.dumps({'reproduced': False, 'tried': tried, 'ran': ran}))
    sys.exit(3)


if __name__ == '__main__':
    main()

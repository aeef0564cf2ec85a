"""Runs the harnesses of one property, replays counterexamples, writes evidence, sets the exit code."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import core, load, registry
from .env import SymEnv

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


# ---------------------------------------------------------------- functions executed (evidence)
class FuncTrace:
    def __init__(self, repo):
        self.repo = os.path.join(repo, 'intvalpy') + os.sep
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        self.tid = m.PROFILER_ID
        try:
            m.use_tool_id(self.tid, 'verif')
        except ValueError:
            self.tid = None
            return self

        def start(code, off):
            if code.co_filename.startswith(self.repo) and code.co_name != '<module>':
                self.seen.add(code.co_filename[len(self.repo):] + ':' + code.co_qualname.replace('<locals>.', ''))
            return m.DISABLE
        m.register_callback(self.tid, m.events.PY_START, start)
        m.set_events(self.tid, m.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.tid is not None:
            sys.monitoring.set_events(self.tid, 0)
            sys.monitoring.free_tool_id(self.tid)


def run_case(args):
    hname, case, tier, deadline = args[:4]
    work, slice_s = args[4:] if len(args) > 4 else (None, None)
    h = registry.HARNESSES[hname]
    t0 = time.time()
    out = {'harness': hname, 'case': case, 'error': None}
    try:
        cache = {}

        def make(prefix):
            return core.Ctx(h['mode'], prefix, proof_timeout=h['timeout'], opts=dict(h['opts']))

        def fn(c):
            L = load.load_package(overrides=h['overrides']() if h['overrides'] else None)
            if h['setup']:
                h['setup'](L)
            E = SymEnv(c, L, tier)
            out.setdefault('sources', L.sources)
            try:
                h['fn'](E, **case)
            except core.Control:
                raise
            except Exception:
                out['error'] = traceback.format_exc(limit=-6)
                # the failure matters only on a feasible path; keep the path model for a replay
                c.results.append({'label': 'harness-error', 'verdict': 'error', 'model': None, 'pc': list(c.pc),
                                  'goal': core.z3.BoolVal(False)})
                c.reached = True
        ft = FuncTrace(load.REPO)
        with ft:
            o = core.explore(fn, make, max_paths=h['max_paths'], deadline=deadline, work=work, slice_s=slice_s)
        out['functions'] = sorted(ft.seen)
        res = []
        npath = 0
        for r in o['results']:
            m = r['model']
            if m is None and r['verdict'] in ('unknown', 'error') and npath < 4:
                npath += 1
                m = path_model(r)
            res.append({'label': r['label'], 'verdict': r['verdict'], 'exc': r.get('exc'),
                        'model': {k: (v[0], None if v[1] is None else str(v[1])) for k, v in m.items()} if m else None})
        o['results'] = res
        out.update(o)
    except core.Unsupported as e:
        out['error'] = 'unsupported while loading: %s' % e
        out.setdefault('results', [])
    except Exception:
        out['error'] = traceback.format_exc(limit=-8)
        out.setdefault('results', [])
    out['wall_s'] = time.time() - t0
    out.setdefault('paths', 0)
    out.setdefault('stats', {})
    out.setdefault('unsupported', [])
    out.setdefault('incomplete', False)
    out.setdefault('reached', 0)
    out.setdefault('functions', [])
    return out


def path_model(r):
    """inputs that drive the execution down this path (no verdict on the property)"""
    z3 = core.z3
    try:
        from .env import quick_solve
        res, m = quick_solve(core, r['pc'], 4000)
        if res != 'sat':
            return None
        out = {}
        for d in m.decls():
            n = d.name()
            if '!' in n or '#' in n or d.arity():
                continue
            v = m[d]
            k = 'bool' if z3.is_bool(v) else 'float'
            out[n] = (k, core.val_fraction(v))
        return out
    except Exception:
        return None


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line.split()[1:4] if '=' in x)
                f['desc'] = line.split(' -- ', 1)[1] if ' -- ' in line else line
                out.append(f)
    return out


def write_replay(prop, hname, case, models, label, mode, seed, idx, budget):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s_%d.json' % (prop, hname.split('.', 1)[1], idx))
    json.dump({'property': prop, 'harness': hname, 'case': case, 'mode': mode, 'label': label, 'seed': seed,
               'budget': budget, 'models': models}, open(p, 'w'), indent=1)
    return p


def run_property(prop, tier='quick', seed=1, only=None, jobs=None, verbose=True):
    t0 = time.time()
    registry.load_all()
    names = registry.PROPS.get(prop)
    if not names:
        print('no harness for', prop)
        return 2
    total = 640 if tier == 'quick' else 3300
    patience = 60 if tier == 'quick' else 300        # exploring further once a counterexample is there
    first = None
    deadline = t0 + total
    tasks = []
    for n in names:
        if only and only not in n:
            continue
        h = registry.HARNESSES[n]
        cases = list(h['cases']() if callable(h['cases']) else h['cases'])
        if tier == 'thorough':
            cases += list(h['thorough']() if callable(h['thorough']) else h['thorough'])
        for c in cases:
            tasks.append((n, c, tier, deadline))
    jobs = jobs or min(8, os.cpu_count() or 4)
    # the expensive ones first when a cost hint is given
    tasks.sort(key=lambda t: -registry.HARNESSES[t[0]]['opts'].get('cost', 0))
    try:
        load.load_package()      # fills the compile cache before forking
        if prop[0] in 'LN':
            from . import member
            member._field()
    except BaseException:
        pass                     # reported by every task
    outs = []
    if jobs == 1:
        outs = [run_case(t) for t in tasks]
    else:
        cx = mp.get_context('fork')
        with cx.Pool(jobs, maxtasksperchild=1) as pool:
            outs = [None] * len(tasks)
            todo = [(i, pool.apply_async(run_case, (t + (None, 4.0),))) for i, t in enumerate(tasks)]
            while todo:
                if time.time() > deadline + 20 or (first and time.time() > max(first, t0 + 30) + patience):
                    break
                left = []
                for i, it in todo:
                    if not it.ready():
                        left.append((i, it))
                        continue
                    o = it.get()
                    t = tasks[i]
                    pend = o.pop('pending', None) or []
                    outs[i] = merge(outs[i], o)
                    if first is None and any(r['verdict'] == 'sat' for r in o['results']) and not excused(prop, o):
                        first = time.time()
                    if outs[i]['paths'] >= registry.HARNESSES[t[0]]['max_paths'] and pend:
                        outs[i]['incomplete'] = True
                        pend = []
                    # long explorations are cut into slices that run side by side
                    k = min(len(pend), 2 * jobs)
                    for s in range(k):
                        left.append((i, pool.apply_async(run_case, (t + (pend[s::k], 6.0),))))
                todo = left
                time.sleep(0.02)
            for i, it in todo:
                outs[i] = merge(outs[i], {'harness': tasks[i][0], 'case': tasks[i][1], 'error': 'time limit', 'results': [],
                                          'paths': 0, 'infeasible': 0, 'stats': {}, 'unsupported': [], 'incomplete': True,
                                          'reached': 0, 'functions': [], 'wall_s': total})
            pool.terminate()
    return conclude(prop, tier, seed, outs, t0, verbose)


def excused(prop, o):
    return any(k.get('property') == prop and k['harness'] == o['harness'] for k in known_findings())


def merge(a, b):
    if a is None:
        return b
    for k in ('paths', 'infeasible', 'reached'):
        a[k] = a.get(k, 0) + b.get(k, 0)
    a['wall_s'] += b['wall_s']
    a['error'] = a['error'] or b['error']
    a['incomplete'] = a['incomplete'] or b['incomplete']
    a['results'] = list(a['results']) + list(b['results'])
    a['unsupported'] = list(a['unsupported']) + list(b['unsupported'])
    a['functions'] = sorted(set(a['functions']) | set(b['functions']))
    a.setdefault('sources', {}).update(b.get('sources', {}))
    for k, v in b['stats'].items():
        a['stats'][k] = max(a['stats'].get(k, 0), v) if k == 'max_query_s' else a['stats'].get(k, 0) + v
    return a


def conclude(prop, tier, seed, outs, t0, verbose):
    known = [k for k in known_findings() if k.get('property') == prop]
    problems, cands, knownhits = [], [], []
    for o in outs:
        h = registry.HARNESSES[o['harness']]
        tag = '%s %s' % (o['harness'], json.dumps(o['case'], sort_keys=True))
        bad = [r for r in o['results']]
        iskn = False
        if bad:
            for k in known:
                if k['harness'] == o['harness'] and all(r['verdict'] == 'sat' and r['label'].startswith(k['label']) for r in bad):
                    knownhits.append((k, o))
                    iskn = True
        if iskn:
            continue
        if bad:
            cands.append((o, bad))
        if o['error']:
            problems.append('%s: %s' % (tag, o['error'].strip().splitlines()[-1]))
            if verbose:
                print(o['error'])
            if not bad:
                cands.append((o, []))
        if o['unsupported']:
            problems.append('%s: unsupported on a feasible path: %s' % (tag, '; '.join(sorted(set(o['unsupported']))[:3])))
            if not bad:
                cands.append((o, []))
        if o['incomplete']:
            problems.append('%s: exploration not finished (%d paths)' % (tag, o['paths']))
        for r in bad:
            if r['verdict'] != 'sat':
                problems.append('%s: %s: %s' % (tag, r['label'], r['verdict']))
        if not o['reached'] and not o['error']:
            problems.append('%s: vacuous, no obligation reached' % tag)
    if verbose:
        for o in sorted(outs, key=lambda o: -o['wall_s'])[:40]:
            st = o['stats']
            print('  %-34s %-44s %6.1fs paths=%d inf=%s obl=%d dis=%d solver=%.1fs maxq=%.1fs %s' % (
                o['harness'], json.dumps(o['case'])[:44], o['wall_s'], o['paths'], o.get('infeasible'),
                st.get('obligations', 0), st.get('discharged', 0), st.get('solver_s', 0), st.get('max_query_s', 0),
                sorted({(r['label'], r['verdict']) for r in o['results']})[:4] or ''))
    violations = []
    if cands:
        violations = replay_all(prop, cands, seed, problems, verbose, tier)
    seenk = set()
    for k, o in knownhits:
        if k['desc'] not in seenk:
            seenk.add(k['desc'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['desc']))
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (prop, v['path']))
        print('  ' + json.dumps(v['info'])[:1500])
    for p in problems:
        print('INCONCLUSIVE' if not violations else 'note:', p)
    evidence(prop, tier, seed, outs, t0, violations, problems, knownhits)
    if violations:
        return 1
    return 2 if problems else 0


def replay_all(prop, cands, seed, problems, verbose, tier):
    from . import replay as rp
    try:
        scratch = rp.build_scratch()
    except Exception as e:
        problems.append('replay build failed: %s' % e)
        return []
    jobs = []
    per = {}
    budget = 40
    for i, (o, bad) in enumerate(cands):
        h = registry.HARNESSES[o['harness']]
        bylabel = {}
        for r in sorted(bad, key=lambda r: r['verdict'] != 'sat'):
            bylabel.setdefault(r['label'], []).append(r['model'] or {})
        models = []
        for l, ms in bylabel.items():
            models += ms[:3]
        models = models[:12] or [{}]
        n = per.get(o['harness'], 0)
        per[o['harness']] = n + 1
        if n >= 6:
            continue
        label = bad[0]['label'] if bad else 'error'
        p = write_replay(prop, o['harness'], o['case'], models, label, h['mode'], seed, i, budget)
        jobs.append((p, o, label, any(r['verdict'] == 'sat' for r in bad)))
    env = dict(os.environ, VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1')
    running, found, missed = [], [], []
    queue = sorted(jobs, key=lambda j: not j[3])
    t0 = time.time()
    while queue or running:
        while queue and len(running) < 7:
            j = queue.pop(0)
            pr = subprocess.Popen([PY, os.path.join(HERE, 'sx', 'replay.py'), j[0]], env=env, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True)
            running.append((pr, j, time.time()))
        time.sleep(0.1)
        for it in list(running):
            pr, j, ts = it
            rc = pr.poll()
            if rc is None:
                if time.time() - ts > budget + 60:
                    pr.kill()
                continue
            running.remove(it)
            out, err = pr.communicate()
            if rc == 1:
                try:
                    info = json.loads(out.strip().splitlines()[-1])
                except Exception:
                    info = {'raw': out[-500:]}
                found.append({'path': j[0], 'info': info, 'label': j[2]})
            else:
                missed.append((j, rc, (out + err)[-800:]))
        if found and time.time() - t0 > 5 and (len(found) >= 2 or time.time() - t0 > 20):
            for pr, j, ts in running:
                pr.kill()
            queue, running = [], []
    try:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True) if not os.environ.get('VERIF_KEEP_BUILD') else None
    except Exception:
        pass
    if not found:
        for j, rc, txt in missed:
            problems.append('counterexample did not reproduce: %s (%s): %s' % (j[1]['harness'], j[2], txt.strip()[-300:]))
    return found


def evidence(prop, tier, seed, outs, t0, violations, problems, knownhits):
    agg = {}
    for o in outs:
        for k, v in o['stats'].items():
            if isinstance(v, (int, float)):
                agg[k] = max(agg.get(k, 0), v) if k == 'max_query_s' else agg.get(k, 0) + v
    funcs = sorted({f for o in outs for f in o['functions']})
    hs = sorted({o['harness'] for o in outs})
    cov = {
        'explanation': 'Bounded symbolic execution of the real sources (regenerated from /repo on this run); every obligation '
                       'is decided by an SMT solver (z3, cvc5 as fallback) for all values of the symbolic inputs on every '
                       'explored path. obligations/discharged, paths and solver time are measured on this run.',
        'functions_encoded': funcs,
        'sources': {os.path.relpath(k, load.REPO): v for o in outs for k, v in o.get('sources', {}).items()
                    if any(f.startswith(os.path.relpath(k, os.path.join(load.REPO, 'intvalpy'))) for f in funcs)},
        'harness_cases': len(outs),
        'paths_explored': sum(o['paths'] for o in outs),
        'infeasible_paths': sum(o.get('infeasible', 0) for o in outs),
        'paths_reaching_an_obligation': sum(o['reached'] for o in outs),
        'obligations': int(agg.get('obligations', 0)),
        'discharged': int(agg.get('discharged', 0)),
        'discharged_by_simplification': int(agg.get('trivial', 0)),
        'proof_queries': int(agg.get('proof_queries', 0)),
        'feasibility_queries': int(agg.get('feas_queries', 0)),
        'solver_s': round(agg.get('solver_s', 0.0), 3),
        'max_query_s': round(agg.get('max_query_s', 0.0), 3),
        'bounds': {n: registry.HARNESSES[n]['bounds'] for n in hs},
        'known_findings_seen': sorted({k['desc'] for k, o in knownhits}),
        'inconclusive': problems if not violations else [],
        'samples': [{'harness': o['harness'], 'case': o['case'], 'paths': o['paths'], 'obligations': o['stats'].get('obligations', 0),
                     'discharged': o['stats'].get('discharged', 0)} for o in outs[:12]],
    }
    stubs = sorted({s for n in hs for s in registry.HARNESSES[n]['stubs']})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': stubs, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run_property(a.prop, a.tier, seed, a.only, a.j)

import importlib
import os
import sys

HARNESSES = {}
PROPS = {}
_loaded = False


def harness(prop, mode='R', cases=None, thorough=None, name=None, opts=None, max_paths=3000, overrides=None,
            bounds='', timeout=15000, stubs=None, setup=None, allow_incomplete=False):
    """registers fn(E, **case) as a harness of property `prop`.  `cases`: list of dicts for the quick tier,
    `thorough`: extra cases for the thorough tier."""
    def deco(fn):
        n = '%s.%s' % (prop, name or fn.__name__)
        assert n not in HARNESSES, n
        HARNESSES[n] = dict(name=n, prop=prop, fn=fn, mode=mode, cases=cases or [{}], thorough=thorough or [],
                            opts=opts or {}, max_paths=max_paths, overrides=overrides, bounds=bounds,
                            timeout=timeout, stubs=stubs or [], setup=setup)
        PROPS.setdefault(prop, []).append(n)
        return fn
    return deco


def load_all():
    global _loaded
    if _loaded:
        return
    _loaded = True
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(here, 'checks')
    if here not in sys.path:
        sys.path.insert(0, here)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])

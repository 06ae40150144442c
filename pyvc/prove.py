"""Proof stage: generate and discharge the obligations of a property's units."""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback


def setup(repo):
    sys.dont_write_bytecode = True
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in (here, repo):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    sys.path.append('/opt/venv/lib/python3.12/site-packages')


def load_checks(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def run_unit(args):
    repo, prop, name, tier, limit = args
    from pyvc import engine, instr
    u = engine.UNITS[name]
    t = time.time()
    try:
        mods = instr.Modules()
        timeout = u.timeout_ms * (4 if tier == 'thorough' else 1)
        e = engine.Sym(u, mods, timeout_ms=timeout, max_paths=u.max_paths, deadline=t + limit)
        r = e.run().to_json()
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        r = engine.Result(name).to_json()
        r['unsupported'] = ["engine: %s: %s" % (type(ex).__name__, ex)]
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    r['wall_s'] = round(time.time() - t, 2)
    r['tier'] = u.tier
    r['functions'] = sorted(set(r['functions']) | set(u.functions))
    return r


def overrides_for(prop):
    return {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--unit', action='append')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--out')
    a = ap.parse_args()
    setup(a.repo)
    sys.setrecursionlimit(5000)
    from pyvc import engine, instr
    instr.load_instrumented(a.repo, overrides_for(a.prop))
    out = {'units': [], 'error': None}
    try:
        m = load_checks(a.prop)
        if hasattr(m, 'preload'):
            for n in m.preload:
                importlib.import_module(n)
    except BaseException as ex:
        out['error'] = "%s: %s" % (type(ex).__name__, ex)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    else:
        units = [u for u in engine.UNITS.values() if u.prop == a.prop and u.proof
                 and (a.tier == 'thorough' or u.tier == 'quick') and (not a.unit or u.name in a.unit)]
        limit = 240 if a.tier == 'quick' else 1500
        jobs = [(a.repo, a.prop, u.name, a.tier, limit) for u in units]
        if a.jobs == 1 or len(jobs) <= 1:
            out['units'] = [run_unit(j) for j in jobs]
        else:
            with multiprocessing.get_context('fork').Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
                out['units'] = list(pool.imap_unordered(run_unit, jobs, chunksize=1))
    out['units'].sort(key=lambda r: r['name'])
    text = json.dumps(out, indent=1, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(text)
    else:
        print(text)


if __name__ == '__main__':
    main()

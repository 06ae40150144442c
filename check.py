#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  |  check.py --replay FILE

Decides one property on the current tree of /repo: (1) the proof stage generates
the obligations from the source and discharges them; (2) counter-models of
failed obligations are replayed on the plain code; (3) the bounded stand-ins
run on the plain code.  Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import sys
import os
PY = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)

import hashlib
import json
import multiprocessing
import random
import re
import signal
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import prove as prover
prover.setup(REPO)
sys.setrecursionlimit(4000)
from pyvc import engine, bounded as bnd


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


class PlainModules:
    def get(self, name):
        import importlib
        return importlib.import_module(name)


def run_case(b, M, case):
    """Return (failure text or None, nontrivial)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, b.case_s)
    try:
        r = b.run(M, case)
        return None, bool(r)
    except bnd.Fail as e:
        return str(e), True
    except CaseTimeout:
        return "did not finish within %d s" % b.case_s, True
    except RecursionError:
        return "recursion without end", True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        q = [t for t in tb if t.filename.startswith(os.path.join(REPO, 'quickly'))]
        if q:
            return "%s: %s at %s:%d" % (type(e).__name__, e, os.path.relpath(q[-1].filename, REPO), q[-1].lineno), True
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_bounded(args):
    name, tier, seed = args
    b = bnd.BOUNDED[name]
    M = PlainModules()
    rng = random.Random("%s/%s" % (seed, name))
    t0 = time.time()
    limit = b.seconds if tier == 'quick' else b.seconds * 15
    n = b.quick if tier == 'quick' else b.thorough
    seen = set()
    res = dict(name=name, evaluations=0, nontrivial=0, failures=[], samples=[], error=None, functions=list(b.functions), rule=b.rule, exhausted=False)
    def cases():
        if b.enum:
            yield from b.enum(tier)
        if b.gen:
            for _ in range(n):
                yield b.gen(rng)
    try:
        for case in cases():
            if time.time() - t0 > limit:
                break
            key = json.dumps(case, sort_keys=True, default=str)
            h = hashlib.md5(key.encode()).digest()
            if h in seen:
                continue
            seen.add(h)
            fail, nontriv = run_case(b, M, case)
            if fail and fail.startswith("did not finish within"):
                fail, nontriv = run_case(b, M, case)    # a busy machine is no violation
            res['evaluations'] += 1
            res['nontrivial'] += bool(nontriv)
            if fail:
                res['failures'].append(dict(case=case, detail=fail))
                if len(res['failures']) >= 5:
                    break
            elif nontriv and len(res['samples']) < 3:
                res['samples'].append(case)
        else:
            res['exhausted'] = True
    except Exception as e:
        res['error'] = "%s: %s" % (type(e).__name__, e)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
        res['trace'] = traceback.format_exc()[-2000:]
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def run_random_unit(args):
    """A unit's contract on concrete random inputs (bounded complement)."""
    name, tier, seed, extra = args
    u = engine.UNITS[name]
    rng = random.Random("%s/unit/%s" % (seed, name))
    res = dict(name=name, evaluations=0, discards=0, failures=[], error=None)
    runs = u.random_runs * (20 if tier == 'thorough' else 1) * extra
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        for _ in range(runs):
            if time.time() - t0 > (15 * extra if tier == 'quick' else 200):
                break
            c = engine.Conc(PlainModules(), None, rng)
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                r = c.run(u)
            except CaseTimeout:
                r = engine.Violation("terminates", "did not finish within 20 s")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if r == 'discard':
                res['discards'] += 1
                continue
            res['evaluations'] += 1
            if r is not None:
                res['failures'].append(dict(unit=name, inputs={k: str(v) for k, v in c.inputs.items()},
                                            name=r.name, detail=r.detail))
                if len(res['failures']) >= 3:
                    break
    except Exception as e:
        res['error'] = "%s: %s" % (type(e).__name__, e)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    return res


def replay_model(u, inputs):
    """Replay a counter-model; return the violation or None."""
    from fractions import Fraction
    vals = {}
    for k, v in inputs.items():
        if v in ('True', 'False'):
            vals[k] = v == 'True'
        elif v == 'None':
            continue
        else:
            f = Fraction(v)
            vals[k] = int(f) if f.denominator == 1 else f
    signal.signal(signal.SIGALRM, _alarm)
    # inputs created after a failure on the symbolic path may be missing: complete them at random
    for i in range(30):
        c = engine.Conc(PlainModules(), vals, random.Random(i))
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            r = c.run(u)
        except CaseTimeout:
            r = engine.Violation("terminates", "did not finish within 20 s")
        except Exception:
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(r, engine.Violation):
            return dict(unit=u.name, inputs={k: str(v) for k, v in c.inputs.items()}, name=r.name, detail=r.detail)
        if set(c.inputs) <= set(vals):
            break
    return None


def load_findings():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    # 1. proof stage, in its own process (instrumented modules)
    tmp = tempfile.NamedTemporaryFile(suffix='.json', delete=False)
    tmp.close()
    cmd = [sys.executable, '-m', 'pyvc.prove', prop, '--repo', REPO, '--tier', tier, '--out', tmp.name]
    proc = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL,
                            stderr=None if os.environ.get('PYVC_DEBUG') else subprocess.DEVNULL,
                            env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))

    # 2. bounded stand-ins meanwhile
    import_error = None
    units, bounded_res, random_res = [], [], []
    mod = None
    try:
        mod = prover.load_checks(prop)
    except Exception as e:
        import_error = "%s: %s" % (type(e).__name__, e)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    if mod is not None:
        units = [u for u in engine.UNITS.values() if u.prop == prop and (tier == 'thorough' or u.tier == 'quick')]
        bs = [b for b in bnd.BOUNDED.values() if b.prop == prop]
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(6, maxtasksperchild=4) as pool:
            r1 = pool.map_async(run_bounded, [(b.name, tier, seed) for b in bs], chunksize=1)
            r2 = pool.map_async(run_random_unit, [(u.name, tier, seed, 1) for u in units], chunksize=1)
            bounded_res = r1.get()
            random_res = r2.get()
    limit = 420 if tier == 'quick' else 3000
    try:
        proc.wait(timeout=max(30, limit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        proc.kill()
    try:
        proof = json.load(open(tmp.name))
    except Exception as e:
        proof = {'units': [], 'error': 'proof stage gave no result'}
    os.unlink(tmp.name)

    # 3. decide
    violations = []     # (key, replay-dict, found_input)
    undecided = []
    if import_error:
        # the modules under test do not import the way they must: a failure of every unit
        violations.append(('import', dict(kind='import', detail=import_error), True))
    for b in bounded_res:
        for f in b['failures']:
            violations.append(('bounded:' + b['name'], dict(kind='bounded', name=b['name'], case=f['case'], detail=f['detail']), True))
        if b['error']:
            undecided.append("bounded %s: harness: %s" % (b['name'], b['error']))
    for r in random_res:
        for f in r['failures']:
            violations.append(('unit:' + r['name'], dict(kind='unit', **f), True))
        if r['error']:
            undecided.append("unit %s: harness: %s" % (r['name'], r['error']))
    nfif = []
    for r in proof['units']:
        if r['unsupported']:
            undecided.append("unit %s left the subset: %s" % (r['name'], r['unsupported'][0]))
        for n in r['unknown']:
            undecided.append("unit %s: %s: solver gave no answer" % (r['name'], n))
        u = engine.UNITS.get(r['name'])
        done = set()
        for f in r['failed']:
            if f['name'] in done or u is None:
                continue
            done.add(f['name'])
            rep = replay_model(u, f['inputs'])
            if rep is None:
                rr = run_random_unit((u.name, tier, seed + 17, 10))
                rep = rr['failures'][0] if rr['failures'] else None
            if rep is not None:
                violations.append(('unit:' + r['name'], dict(kind='unit', obligation=f['name'], model=f, **rep), True))
            elif f['kind'] == 'exception' or (not f['inexact'] and not r['unsupported']):
                # an exact path whose counter-model does not fail on the real code: the
                # abstraction of the verifier, not the code
                undecided.append("unit %s: %s: counter-model does not replay (%s)" % (r['name'], f['name'], f.get('note')))
            elif not r['unsupported']:
                nfif.append(('unit:' + r['name'], dict(kind='obligation', unit=r['name'], obligation=f['name'], model=f,
                             detail='obligation not provable; solver answered sat (counter-model above)'), False))
            else:
                undecided.append("unit %s: %s failed in a unit outside the subset" % (r['name'], f['name']))
    violations += nfif if not violations else []

    vcs = sum(r['vcs'] for r in proof['units'])
    disch = sum(r['discharged'] for r in proof['units'])
    decided = [r for r in proof['units'] if not r['unsupported'] and not r['unknown'] and not r['failed'] and r['vcs']]
    vac = [r['name'] for r in proof['units'] if not r['unsupported'] and r['vcs'] == 0]
    for n in vac:
        undecided.append("unit %s generated no obligation" % n)
    for r in proof['units']:
        for c, v in r['covers'].items():
            if v != 'sat':
                undecided.append("unit %s: state %s not shown reachable (%s)" % (r['name'], c, v))
    if proof['error']:
        undecided.append("proof stage: %s" % proof['error'])

    # known findings
    finds = load_findings()
    known_hit = {}
    fresh = []
    for key, rep, found in violations:
        text = json.dumps(rep, default=str, ensure_ascii=False)
        for fp, fk, what in finds:
            if fp == prop and mod is not None and getattr(mod, 'KNOWN', {}).get(fk) and mod.KNOWN[fk](rep):
                known_hit[fk] = what
                break
        else:
            fresh.append((key, rep, found))
    for fp, fk, what in finds:
        if fp == prop:
            # listed findings are printed on every run on which they still fail
            still = fk in known_hit
            probe = getattr(mod, 'PROBE', {}).get(fk) if mod is not None else None
            if not still and probe is not None:
                try:
                    still = bool(probe(PlainModules()))
                except Exception:
                    still = True
            if still:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))

    level = getattr(mod, 'LEVEL', 'proof') if mod is not None else 'proof'
    functions = sorted({f for r in decided for f in r['functions']})
    backends = {}
    for r in proof['units']:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    assumed = sorted({a for r in proof['units'] for a in r['assumed']} | set(getattr(mod, 'ASSUMPTIONS', []) if mod else []))
    base = ["CPython 3.12 executing the instrumented source (pyvc/instr.py) and the pyvc engine",
            "z3 %s" % __import__('z3').get_version_string(),
            "floating point and Fraction arithmetic treated as exact rational arithmetic",
            "parce (parser library) is not verified"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              violations=len(fresh), assumptions=assumed,
              coverage=dict(
                  obligations=vcs, discharged=disch, checker_cmd=' '.join(['python3', '-m', 'pyvc.prove', prop, '--tier', tier]),
                  trusted_base=base,
                  functions_under_contract=functions,
                  backends=backends,
                  solver_s=round(sum(r['solver_s'] for r in proof['units']), 2),
                  units=[dict(name=r['name'], paths=r['paths'], vcs=r['vcs'], discharged=r['discharged'],
                              obligations={k: v[0] for k, v in r['names'].items()},
                              contracts_assumed=r['used_contracts'], solver_s=round(r['solver_s'], 2), wall_s=r['wall_s'],
                              covers=r['covers'],
                              state='proved' if r in decided else 'undecided' if not r['failed'] else 'failed') for r in proof['units']],
                  evaluations=sum(b['evaluations'] for b in bounded_res) + sum(r['evaluations'] for r in random_res),
                  distinct_nontrivial=sum(b['nontrivial'] for b in bounded_res),
                  rule="bounded stand-ins (not proofs): " + "; ".join("%s [%s]" % (b['name'], b['rule']) for b in bounded_res),
                  samples=[dict(check=b['name'], case=s) for b in bounded_res for s in b['samples'][:2]][:12],
                  bounded=[dict(name=b['name'], evaluations=b['evaluations'], nontrivial=b['nontrivial'], functions=b['functions'],
                                wall_s=b['wall_s'], complete=b['exhausted']) for b in bounded_res],
                  undecided=undecided,
                  explanation=getattr(mod, 'EXPLANATION', '') if mod else ''))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=False)

    for u in undecided:
        print("undecided: %s" % u)
    print("%s %s: %d obligations, %d discharged, %d units proved of %d, %d bounded evaluations, %.1f s" % (
        prop, tier, vcs, disch, len(decided), len(proof['units']), ev['coverage']['evaluations'], time.time() - t0))
    if fresh:
        fresh.sort(key=lambda v: not v[2])
        key, rep, found = fresh[0]
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, violation=rep, others=[v[1] for v in fresh[1:6]]), f, indent=1, default=str, ensure_ascii=False)
        print("violation: %s" % json.dumps(rep, default=str, ensure_ascii=False)[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def replay_file(path):
    d = json.load(open(path))
    prop = d['property']
    mod = prover.load_checks(prop)
    v = d['violation']
    if v['kind'] == 'bounded':
        b = bnd.BOUNDED[v['name']]
        fail, _ = run_case(b, PlainModules(), v['case'])
        print("replay: %s" % (fail or "holds"))
        return 1 if fail else 0
    if v['kind'] == 'unit':
        r = replay_model(engine.UNITS[v['unit']], v['inputs'])
        print("replay: %s" % (json.dumps(r) if r else "holds"))
        return 1 if r else 0
    print("nothing to replay: %s" % v.get('detail'))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

#!/usr/bin/env python3
"""Self-test of the verifier on toy programs (correct ones must be proved,
broken ones must fail, with a counter-model); with --full also runs the tests
of /repo on the instrumented modules (they must pass as on the plain ones)."""
import sys
import os
PY = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import engine, instr, core
from pyvc.instr import LoopSpec

SRC = '''
import math
from fractions import Fraction

def clamp(x, lo, hi):
    if x < lo:
        return lo
    if x > hi:
        return hi
    return x

def clamp_bad(x, lo, hi):
    if x < lo:
        return lo
    if x >= hi + 3:
        return hi
    return x

def total(n):
    s = 0
    i = 0
    while i < n:
        i += 1
        s += i
    return s

def total_bad(n):
    s = 0
    i = 0
    while i <= n:
        i += 1
        s += i
    return s

def forever(n):
    while n > 0:
        n = n + 0
    return n

def digits(n):
    return '%d%s' % (n, '.' * n)

def back(t):
    return int(t.rstrip('.')), t.count('.')

def parity(n):
    return n % 2 == n & 1 if False else divmod(n, 2)[1]

class Box:
    def __init__(self): self.a = 1; self.b = 2
    def run(self, n):
        for i in range(n):
            self.a += 1
            self.b += 0
        return self.a

def partial(x):
    return 1 / (x - 7)

def table(i):
    return (3, 1, 4, 1, 5)[i]
'''


def module():
    ns = {'__name__': 'toy', '__builtins__': instr.make_builtins(), '__pv__': instr.PV}
    exec(compile(instr.instrument(SRC, 'toy.py', 'toy'), 'toy.py', 'exec'), ns)
    class T: pass
    t = T()
    vars(t).update(ns)
    return t


TESTS = []


def case(expect):
    def deco(fn):
        TESTS.append((fn.__name__, expect, fn))
        return fn
    return deco


def _clamp(E, f):
    x, lo, hi = E.int('x'), E.int('lo'), E.int('hi')
    E.assume(lo <= hi)
    r = f(x, lo, hi)
    E.prove('inside', E.And(r >= lo, r <= hi))


@case('proved')
def clamp(E): _clamp(E, M.clamp)
@case('failed')
def clamp_bad(E): _clamp(E, M.clamp_bad)


def _total(E, f):
    n = E.int('n', 0)
    E.loop(LoopSpec('sum', lambda s, l: True, lambda l: [('sum', 2 * l['s'] == l['i'] * (l['i'] + 1)), ('range', E.And(l['i'] >= 0, l['i'] <= n))],
                    variant=lambda l: n - l['i']))
    E.prove('gauss', 2 * f(n) == n * (n + 1))


@case('proved')
def total(E): _total(E, M.total)
@case('failed')
def total_bad(E): _total(E, M.total_bad)


@case('failed')
def forever(E):
    n = E.int('n')
    E.loop(LoopSpec('loop', lambda s, l: True, lambda l: [], variant=lambda l: l['n']))
    M.forever(n)


@case('proved')
def text(E):
    n = E.int('n', 0)
    a, b = M.back(M.digits(n))
    E.prove('back', E.And(a == n, b == n))


@case('proved')
def parity(E):
    n = E.int('n')
    E.prove('parity', E.Or(M.parity(n) == 0, M.parity(n) == 1))
    E.prove('parity of double', M.parity(2 * n) == 0)


@case('failed')
def exception(E): M.partial(E.int('x'))


@case('failed')
def bounds(E): E.prove('positive', M.table(E.int('i', 0, 5)) > 0)
@case('proved')
def bounds_ok(E): E.prove('positive', M.table(E.int('i', -5, 4)) > 0)


@case('undecided')
def frame(E):
    b = M.Box()
    E.loop(LoopSpec('loop', lambda s, l: True, lambda l: [('a', b.a >= 1)], modifies=lambda l: [(b, 'a')]))
    n = E.int('n', 0)
    b.run(n)
    E.prove('b kept', b.b == 2)


@case('undecided')
def unbounded(E): M.total(E.int('n', 0))


@case('proved')
def pow2(E):
    k = E.int('k')
    E.prove('law', E.pow2(k + 1) == 2 * E.pow2(k))
@case('failed')
def pow2_bad(E):
    k = E.int('k')
    E.prove('law', E.pow2(k + 1) == 3 * E.pow2(k))


instr.FractionShim.install()
M = module()
bad = 0
for name, expect, fn in TESTS:
    u = engine.Unit(fn, name, 'toy')
    r = engine.Sym(u, None, timeout_ms=5000).run()
    got = 'failed' if r.failed else 'undecided' if r.unsupported or r.unknown or not r.vcs else 'proved'
    if expect == 'undecided' and got == 'failed' and name == 'unbounded':
        pass
    if got != expect:
        bad += 1
        print("selftest %s: %s, expected %s %s" % (name, got, expect, r.to_json()))
print("selftest: %d toy programs, %d wrong verdicts" % (len(TESTS), bad))

if '--full' in sys.argv:
    import glob
    import runpy
    from pyvc import prove
    prove.setup('/repo')
    instr.load_instrumented('/repo')
    for f in sorted(glob.glob('/repo/tests/test_*.py')):
        try:
            runpy.run_path(f)['test_main']()
        except BaseException as e:
            bad += 1
            print("instrumented %s: %s: %s" % (f, type(e).__name__, e))
        else:
            print("instrumented %s passes" % os.path.basename(f))
sys.exit(1 if bad else 0)

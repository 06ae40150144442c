"""The symbolic (Sym) and the concrete (Conc) engine running units."""
import gc
import itertools
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from . import core
from .core import (Fraction, PathEnd, Unsupported, Discard, SNum, SBool, SegStr, Run, Dec,
                   as_bool, to_z3, mk, is_sym, is_num, concrete_value)

CVC5 = '/usr/bin/cvc5'


class Result:
    """Outcome of proving one unit."""
    def __init__(self, name):
        self.name = name
        self.vcs = 0                # verification conditions generated
        self.discharged = 0
        self.backends = {}
        self.solver_s = 0.0
        self.paths = 0
        self.names = {}             # obligation name -> [vcs, discharged]
        self.failed = []            # dicts
        self.unknown = []           # names
        self.unsupported = []       # reasons
        self.reached = set()        # labels of reached ends
        self.exact = True           # no loop cut, no contract assumed, no abstraction
        self.assumed = set()        # assumptions used
        self.used_contracts = set()
        self.functions = set()
        self.covers = {}

    def to_json(self):
        d = dict(vars(self))
        for k in ('reached', 'assumed', 'used_contracts', 'functions'):
            d[k] = sorted(d[k])
        return d


class Mode:
    symbolic = False


class Sym(Mode):
    """Explores all paths of a unit."""
    symbolic = True

    def __init__(self, unit, modules, timeout_ms=20000, max_paths=20000, deadline=None):
        self.unit = unit
        self.modules = modules
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.res = Result(unit.name)

    # ------------------------------------------------ exploration
    def run(self):
        core.CUR = self
        work = [[]]
        gcw = gc.isenabled()
        try:
            while work:
                if self.res.paths >= self.max_paths:
                    self.res.unsupported.append("path limit")
                    break
                if self.deadline and time.time() > self.deadline:
                    self.res.unsupported.append("time limit")
                    break
                prefix = work.pop()
                self._start(prefix)
                try:
                    self._call()
                finally:
                    self.dead = True
                    for u in reversed(self._undo):
                        u()
                    self._undo = []
                work.extend(self.pending)
                self.res.paths += 1
                if self.res.unsupported:
                    break       # the unit is not decided, no use to go on
                if len(self.res.failed) >= 8:
                    break
        finally:
            core.CUR = None
        return self.res

    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.inputs = {}            # name -> ('int'|'real'|'bool'|'choice', term or value)
        self.counter = itertools.count()
        self.pow_terms = {}
        self.dead = False
        self.loop_specs = []
        self.contracts = {}
        self.writelog = []
        self._undo = []
        self.inexact = False
        self.ghost = {}

    def _call(self):
        try:
            try:
                self.unit.fn(self)
            except Exception as e:
                if self.dead:
                    return
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
                if os.environ.get('PYVC_DEBUG'):
                    traceback.print_exc()
                self._obligation("no unexpected exception", z3.BoolVal(False),
                                 note="%s: %s at %s" % (type(e).__name__, e, where), kind='exception')
        except PathEnd:
            self.res.reached.add('cut')
        except Unsupported as e:
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
            self.res.unsupported.append(str(e) + self._where(e))
        except RecursionError as e:
            self.res.unsupported.append("recursion")
        else:
            self.res.reached.add('end')

    def _where(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        tb = [t for t in tb if '/pyvc/' not in t.filename]
        return " [%s:%s]" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.res.solver_s += time.time() - t
        return r

    def fork(self, cond):
        """Decide a condition; both outcomes are explored in the end."""
        if self.dead:
            raise PathEnd()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assume_z3(cond if d else z3.Not(cond))
            return d
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        if len(self.trace) > 4000:
            raise Unsupported("too many decisions on one path (unbounded loop?)")
        t = self.check(cond)
        f = self.check(z3.Not(cond))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd()
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:       # unknown is treated as feasible
            d = True
            self.pending.append(self.trace + [False])
        # a decided condition is recorded too, so that replayed prefixes stay aligned
        self.trace.append(d)
        self.pos += 1
        self.assume_z3(cond if d else z3.Not(cond))
        return d

    def assume_z3(self, t):
        self.solver.add(t)
        self.pc.append(t)

    def concretize(self, num, limit=300):
        t = z3.simplify(num.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return self._pynum(t, num.isint)
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Unsupported("value with an unbounded domain used as index, key or count")
            if self.pos < len(self.prefix):
                # replay: the decision stores the chosen value
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                val, yes = d
                z = to_z3(val)
                a, b = core._lift2(num, val)
                self.assume_z3(a == b if yes else a != b)
                if yes:
                    self._pin_pow(num, val)
                    return val
                continue
            if self.dead:
                raise PathEnd()
            if self.check() != z3.sat:
                raise PathEnd()
            v = self.solver.model().eval(t, model_completion=True)
            if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                raise Unsupported("irrational value")
            val = self._pynum(v, num.isint)
            a, b = core._lift2(num, val)
            if self.check(a != b) != z3.unsat:
                self.pending.append(self.trace + [(val, False)])
            self.trace.append((val, True))
            self.pos += 1
            self.assume_z3(a == b)
            self._pin_pow(num, val)
            return val

    def _pin_pow(self, num, val):
        """Powers of two with a known exponent get their value."""
        if not self.pow_terms or not num.isint or num.t.sort().kind() != z3.Z3_INT_SORT or abs(val) > 4096:
            return
        lin = self._linear(num.t)
        if lin[0] and all('pow2[%s]' % t.sexpr().replace('|', '') in self.ghost for t, c in lin[0].values()):
            self.assume_z3(self._pow_lin(lin) == to_z3(Fraction(2) ** int(val)))

    @staticmethod
    def _pynum(v, isint):
        if z3.is_int_value(v):
            return v.as_long()
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if isint and f.denominator == 1 else f

    def nonzero(self, t):
        if self.fork(t == 0):
            raise ZeroDivisionError("division by zero")

    # ------------------------------------------------ inputs
    def fresh_int(self, name='k'):
        return z3.Int("%s!%d" % (name, next(self.counter)))

    def fresh_real(self, name='x'):
        return z3.Real("%s!%d" % (name, next(self.counter)))

    def int(self, name, lo=None, hi=None, big=None):
        t = z3.Int(name)
        if lo is not None:
            self.assume_z3(t >= lo)
        if hi is not None:
            self.assume_z3(t <= hi)
        self.inputs[name] = ('int', t)
        return SNum(t, True)

    def real(self, name, lo=None, hi=None, den=None, pool=None):
        """A rational input; with den, a multiple of 1/den."""
        if den:
            k = z3.Int(name + '*%d' % den)
            t = z3.ToReal(k) / den
        else:
            t = z3.Real(name)
        if lo is not None:
            self.assume_z3(t >= to_z3(lo))
        if hi is not None:
            self.assume_z3(t <= to_z3(hi))
        self.inputs[name] = ('real', t)
        return SNum(t, False)

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ('bool', t)
        return SBool(t)

    def choice(self, name, options):
        """One of a finite list; all of them are explored."""
        options = list(options)
        k = z3.Int(name)
        self.assume_z3(z3.And(k >= 0, k < len(options)))
        self.inputs[name] = ('choice', k)
        if self.dead:
            raise PathEnd()
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos][1]
        else:
            i = 0
            self.pending.extend(self.trace + [('choice', j)] for j in range(len(options) - 1, 0, -1))
        self.pos += 1
        self.trace.append(('choice', i))
        self.assume_z3(k == i)
        return options[i]

    # ------------------------------------------------ assume / prove
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        self.assume_z3(as_bool(cond))

    def prove(self, name, cond, note=None):
        self._obligation(name, as_bool(cond), note)

    def cover(self, name):
        """Record that a state is reachable (vacuity check)."""
        if name not in self.res.covers or self.res.covers[name] != 'sat':
            r = self.check()
            self.res.covers[name] = str(r)

    def _obligation(self, name, cond, note=None, kind='post'):
        if self.dead:
            raise PathEnd()
        res = self.res
        cond = z3.simplify(cond)
        res.vcs += 1
        n = res.names.setdefault(name, [0, 0])
        n[0] += 1
        if z3.is_true(cond):
            res.discharged += 1
            n[1] += 1
            res.backends['simplifier'] = res.backends.get('simplifier', 0) + 1
            return
        r = self.check(z3.Not(cond))
        backend = 'z3'
        if r == z3.unknown:
            r, backend = self._second(cond)
        if r == z3.unsat:
            res.discharged += 1
            n[1] += 1
            res.backends[backend] = res.backends.get(backend, 0) + 1
            if backend == 'z3' and kind != 'exception' and z3.is_false(cond) is False:
                pass
            return
        if r == z3.sat and backend == 'z3':
            model = self.solver.model()
            vals = {}
            for k, (kd, t) in self.inputs.items():
                try:
                    v = concrete_value(model, t)
                except Unsupported:
                    v = None
                if kd == 'int' and isinstance(v, Fraction):
                    v = int(v)
                vals[k] = v
            res.failed.append(dict(name=name, kind=kind, note=note, inexact=self.inexact,
                                   inputs={k: str(v) for k, v in vals.items()},
                                   goal=str(cond)[:600]))
        elif r == z3.sat:
            res.failed.append(dict(name=name, kind=kind, note=note, inexact=True, inputs={}, goal=str(cond)[:600]))
        else:
            res.unknown.append(name)
        if kind == 'exception':
            raise PathEnd()
        # go on under the assumption that it holds, to find independent failures
        self.assume_z3(cond)
        if self.check() == z3.unsat:
            raise PathEnd()

    def _second(self, cond):
        """Second opinion: z3 with nlsat-style tactic, then cvc5."""
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        for c in self.pc:
            s.add(c)
        s.add(z3.Not(cond))
        t = time.time()
        try:
            t2 = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            t2.set('timeout', self.timeout_ms)
            for c in self.pc:
                t2.add(c)
            t2.add(z3.Not(cond))
            r = t2.check()
            self.res.solver_s += time.time() - t
            if r == z3.unsat:
                return r, 'z3-nlsat'
        except z3.Z3Exception:
            pass
        if os.path.exists(CVC5):
            t = time.time()
            smt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(smt)
            try:
                p = subprocess.run([CVC5, '--tlimit=%d' % self.timeout_ms, f.name], capture_output=True, text=True,
                                   timeout=self.timeout_ms / 1000 + 10)
                out = p.stdout.strip().splitlines()
                if out and out[0] == 'unsat':
                    return z3.unsat, 'cvc5'
            except subprocess.TimeoutExpired:
                pass
            finally:
                os.unlink(f.name)
                self.res.solver_s += time.time() - t
        return z3.unknown, None

    # ------------------------------------------------ logic helpers usable in both modes
    @staticmethod
    def And(*a): return SBool(z3.And(*[as_bool(x) for x in a]))
    @staticmethod
    def Or(*a): return SBool(z3.Or(*[as_bool(x) for x in a]))
    @staticmethod
    def Not(a): return SBool(z3.Not(as_bool(a)))
    @staticmethod
    def Implies(a, b): return SBool(z3.Implies(as_bool(a), as_bool(b)))
    @staticmethod
    def Iff(a, b): return SBool(as_bool(a) == as_bool(b))
    @staticmethod
    def If(c, a, b):
        if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
            x, y = core._lift2(a, b)
            return mk(z3.If(as_bool(c), x, y), core._isint(a) and core._isint(b))
        return SBool(z3.If(as_bool(c), as_bool(a), as_bool(b)))

    @staticmethod
    def eq(a, b):
        if is_sym(a) or is_sym(b) or isinstance(a, SegStr) or isinstance(b, SegStr):
            r = a == b
            return r if isinstance(r, SBool) else bool(r)
        return a == b

    @staticmethod
    def ite(c, a, b):
        if isinstance(c, bool):
            return a if c else b
        ta, tb = core._lift2(a, b)
        return mk(z3.If(as_bool(c), ta, tb), core._isint(a) and core._isint(b))

    @staticmethod
    def pick(seq, idx):
        """seq[idx] for a sequence of numbers (specification function: total)."""
        if not isinstance(idx, SNum):
            return seq[idx] if -len(seq) <= idx < len(seq) else seq[-1]
        r = seq[-1]
        for i in range(len(seq) - 2, -1, -1):
            a, b = core._lift2(seq[i], r)
            r = SNum(z3.If(idx.t == i, a, b), core._isint(seq[i]) and core._isint(r))
        return mk(r.t, r.isint) if isinstance(r, SNum) else r

    def assumed(self, text):
        self.res.assumed.add(text)

    def func(self, *names):
        self.res.functions.update(names)

    def mod(self, name):
        return self.modules.get(name)

    def patch(self, obj, name, value):
        """Replace an attribute on this path (contract stub)."""
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(name, missing)
            obj[name] = value
            def undo():
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
        else:
            old = vars(obj).get(name, missing)
            setattr(obj, name, value)
            def undo():
                if old is missing:
                    delattr(obj, name)
                else:
                    setattr(obj, name, old)
        self._undo.append(undo)

    def use_contract(self, obj, name, fn, proved_by):
        """Replace a callee by its contract; proved_by names the unit that proves it."""
        self.res.used_contracts.add("%s (proved by %s)" % (fn.__name__, proved_by))
        self.inexact = True
        self.res.exact = False
        self.patch(obj, name, fn)

    def loop(self, spec):
        self.loop_specs.append(spec)

    def contract(self, qualname, fn):
        """Contract for (recursive calls of) a nested function."""
        self.contracts[qualname] = fn

    # ------------------------------------------------ powers of two
    def pow2(self, k):
        """2 ** k for an integer k (also negative), as an exact real."""
        if isinstance(k, int) and not is_sym(k):
            return Fraction(2) ** k if k < 0 else 2 ** k
        lin = self._linear(self._split_ite(to_z3(k)))
        val = self._pow_lin(lin)
        return SNum(val, True)

    def _split_ite(self, t):
        """Decide the conditions of if-then-else summands (both cases are explored)."""
        t = z3.simplify(t, som=True)
        def first(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                return t
            if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t):
                for c in t.children():
                    r = first(c)
                    if r is not None:
                        return r
        while True:
            f = first(t)
            if f is None:
                return t
            r = f.arg(1) if self.fork(f.arg(0)) else f.arg(2)
            t = z3.simplify(z3.substitute(t, (f, r)), som=True)

    def _linear(self, t):
        """Decompose a linear Int term into ({atom: coef}, const)."""
        t = z3.simplify(t, som=True)
        atoms = {}
        const = 0
        def add(t, c):
            nonlocal const
            if z3.is_int_value(t):
                const += c * t.as_long()
            elif z3.is_add(t):
                for ch in t.children():
                    add(ch, c)
            elif z3.is_sub(t):
                ch = t.children()
                add(ch[0], c)
                for x in ch[1:]:
                    add(x, -c)
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                add(t.arg(1), c * t.arg(0).as_long())
            elif t.decl().kind() == z3.Z3_OP_UMINUS:
                add(t.arg(0), -c)
            else:
                key = t.get_id()
                old = atoms.get(key, (t, 0))
                atoms[key] = (t, old[1] + c)
        add(t, 1)
        return {k: v for k, v in atoms.items() if v[1]}, const

    def _pow_lin(self, lin):
        atoms, const = lin
        val = z3.RealVal(Fraction(2) ** const) if const < 0 else z3.RealVal(2 ** const)
        val = z3.Q(1, 2 ** -const) if const < 0 else z3.RealVal(2 ** const)
        for key, (t, c) in sorted(atoms.items()):
            p = self._pow_atom(t)
            for _ in range(abs(c)):
                val = val * p if c > 0 else val / p
        # relate this term to all other power terms (instances of the monotonicity lemma)
        lt = self._lin_term(lin)
        sig = (tuple(sorted((k, c) for k, (t, c) in atoms.items())), const)
        if sig not in self.pow_terms:
            for ot, ov in list(self.pow_terms.values()):
                self._pow_relate(lt, val, ot, ov)
            if not self.pow_terms:
                self._pow_relate(lt, val, z3.IntVal(0), z3.RealVal(1))
                self.pow_terms['zero'] = (z3.IntVal(0), z3.RealVal(1))
            self.pow_terms[sig] = (lt, val)
        return z3.simplify(val)

    def _lin_term(self, lin):
        atoms, const = lin
        t = z3.IntVal(const)
        for key, (a, c) in sorted(atoms.items()):
            t = t + c * a
        return z3.simplify(t)

    def _pow_atom(self, t):
        name = 'pow2[%s]' % t.sexpr().replace('|', '')
        p = z3.Real(name)
        if name not in self.ghost:
            self.ghost[name] = t
            self.assume_z3(p > 0)
        return p

    def _pow_relate(self, a, va, b, vb):
        A = self.assume_z3
        self.res.assumed.add("lemma schema: 2^a >= 2*2^b for a > b, 2^(a+b) = 2^a * 2^b (integers a, b)")
        A(z3.Implies(a == b, va == vb))
        A(z3.Implies(a >= b + 1, va >= 2 * vb))
        A(z3.Implies(b >= a + 1, vb >= 2 * va))

    def frexp(self, x):
        """Contract of math.frexp for positive finite x (assumed)."""
        self.res.assumed.add("contract of math.frexp: x = m * 2**e, 1/2 <= m < 1, e integer, exact for x > 0 (values that are doubles)")
        if not is_sym(x):
            import math
            return math.frexp(x)
        if self.fork(x.t == 0):
            return 0.0, 0
        if self.fork(x.t < 0):
            raise Unsupported("frexp of a negative value")
        m = self.fresh_real('m')
        e = self.fresh_int('e')
        pe = self._pow_lin(self._linear(e))
        self.assume_z3(z3.And(m >= z3.Q(1, 2), m < 1))
        self.assume_z3(core._real(x.t) == m * pe)
        return SNum(m, False), SNum(e, True)

    def bit_length(self, x):
        self.res.assumed.add("contract of int.bit_length: 2**(b-1) <= x < 2**b for x > 0, 0 for x == 0")
        if self.fork(x.t == 0):
            return 0
        if self.fork(x.t < 0):
            raise Unsupported("bit_length of a negative value")
        b = self.fresh_int('bits')
        self.assume_z3(b >= 1)
        pb = self._pow_lin(self._linear(b))
        xt = core._real(x.t)
        self.assume_z3(z3.And(xt < pb, pb <= 2 * xt))
        return SNum(b, True)

    def rational(self, x):
        """The numerator and denominator (contract of Fraction; that they have
        no common divisor is only used for whole numbers)."""
        memo = self.ghost.setdefault('rationals', {})
        k = x.t.get_id()
        if k not in memo:
            n, d = self.fresh_int('num'), self.fresh_int('den')
            self.assume_z3(z3.And(d >= 1, core._real(x.t) * z3.ToReal(d) == z3.ToReal(n), z3.IsInt(core._real(x.t)) == (d == 1)))
            memo[k] = SNum(n, True), SNum(d, True), x
        return memo[k][:2]


def getitem_num(seq, idx):
    """seq[idx] with numeric items and symbolic index: an if-then-else chain."""
    E = core.cur()
    n = len(seq)
    it = idx.t if idx.t.sort().kind() == z3.Z3_INT_SORT else z3.ToInt(idx.t)
    if not E.fork(z3.And(it >= -n, it < n)):
        raise IndexError("index out of range")
    feas = None
    r = None
    isint = all(core._isint(x) for x in seq)
    terms = [to_z3(x) for x in seq]
    if any(t.sort().kind() != z3.Z3_INT_SORT for t in terms):
        terms = [core._real(t) for t in terms]
    norm = z3.simplify(z3.If(it < 0, it + n, it))
    r = terms[-1]
    for i in range(n - 2, -1, -1):
        r = z3.If(norm == i, terms[i], r)
    return mk(r, isint)


# ---------------------------------------------------------------- concrete

class Violation(Exception):
    def __init__(self, name, detail):
        super().__init__(name, detail)
        self.name = name
        self.detail = detail


class Conc(Mode):
    """Runs a unit with concrete inputs on the plain code."""
    symbolic = False

    def __init__(self, modules, values=None, rng=None):
        self.modules = modules
        self.values = values
        self.rng = rng
        self.inputs = {}
        self.checked = []
        self._undo = []

    def run(self, unit):
        """Return None if the contract holds, 'discard', or a Violation."""
        try:
            unit.fn(self)
        except Discard:
            return 'discard'
        except Violation as v:
            return v
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any('/quickly/' in t.filename for t in tb):
                where = [t for t in tb if '/quickly/' in t.filename][-1]
                return Violation("no unexpected exception", "%s: %s at %s:%d" % (
                    type(e).__name__, e, os.path.basename(where.filename), where.lineno))
            raise
        finally:
            for u in reversed(self._undo):
                u()
            self._undo = []

    def _get(self, name, gen):
        if self.values is not None and self.values.get(name) is not None:
            v = self.values[name]
        elif self.rng is not None:
            v = gen()
        else:
            raise Discard()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, big=None):
        def gen():
            r = self.rng
            span = big or 40
            a = lo if lo is not None else (hi - span if hi is not None else -span)
            b = hi if hi is not None else a + span if lo is not None else span
            if b - a > 100 and r.random() < .3:
                b = a + 60
            return r.randint(a, b)
        v = self._get(name, gen)
        v = int(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def real(self, name, lo=None, hi=None, den=None, pool=None):
        def gen():
            r = self.rng
            if pool:
                return r.choice(list(pool))
            d = den or r.choice([1, 2, 2, 4, 8, 16])
            a = lo if lo is not None else -8
            b = hi if hi is not None else (a + 16)
            return Fraction(r.randint(int(a * d), int(b * d)), d)
        v = self._get(name, gen)
        v = Fraction(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        if v.denominator & (v.denominator - 1) or v.denominator > 4096:
            raise Discard()     # not a short binary fraction: floats would round
        return int(v) if v.denominator == 1 else float(v)

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5) in (True, 'True'))

    def choice(self, name, options):
        options = list(options)
        i = int(self._get(name, lambda: self.rng.randrange(len(options))))
        if not 0 <= i < len(options):
            raise Discard()
        return options[i]

    def assume(self, cond):
        if not cond:
            raise Discard()

    def prove(self, name, cond, note=None):
        self.checked.append(name)
        if not cond:
            raise Violation(name, str(note() if callable(note) else note) if note else '')

    def cover(self, name): pass
    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def If(self, c, a, b): return a if c else b
    def eq(self, a, b): return a == b
    def ite(self, c, a, b): return a if c else b
    def pick(self, seq, idx): return seq[idx] if -len(seq) <= idx < len(seq) else seq[-1]
    def pow2(self, k): return Fraction(2) ** k
    def assumed(self, text): pass
    def func(self, *names): pass
    def mod(self, name): return self.modules.get(name)
    def use_contract(self, obj, name, fn, proved_by): pass
    def patch(self, obj, name, value):
        missing = object()
        old = vars(obj).get(name, missing)
        setattr(obj, name, value)
        self._undo.append(lambda: delattr(obj, name) if old is missing else setattr(obj, name, old))
    def loop(self, spec): pass
    def contract(self, qualname, fn): pass


class Unit:
    def __init__(self, fn, name, prop, functions=(), random_runs=200, max_paths=20000, timeout_ms=20000, tier='quick', proof=True):
        self.fn = fn
        self.name = name
        self.prop = prop
        self.functions = functions
        self.random_runs = random_runs
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.tier = tier
        self.proof = proof


UNITS = {}


def unit(prop, name, functions=(), **kw):
    def deco(fn):
        u = Unit(fn, name, prop, functions, **kw)
        assert name not in UNITS, name
        UNITS[name] = u
        return fn
    return deco

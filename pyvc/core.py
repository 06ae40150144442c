"""Path exploration, proof obligations and the symbolic values of pyvc.

A *unit* is a contract: preconditions on inputs, a call of the real code, and
postconditions.  It is written against the small interface of :class:`Sym`
(symbolic mode: inputs are z3 terms, every path is explored, every
postcondition on every path becomes a verification condition) and
:class:`Conc` (concrete mode: the same unit on the plain code with concrete
inputs, used to replay counter-models and for the bounded stand-ins).
"""
import fractions
import itertools
import math
import os
import random
import sys
import time
import traceback

import z3

Fraction = fractions.Fraction


class PathEnd(BaseException):
    """This path is finished (a loop body was verified, or it is infeasible)."""


class Unsupported(BaseException):
    """The code left the subset the verifier can handle."""


class Discard(BaseException):
    """A concrete input does not satisfy a precondition."""


CUR = None          # the running Sym engine (symbolic mode) or None


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a proof")
    return CUR


# ---------------------------------------------------------------- values

def is_sym(x):
    return isinstance(x, (SNum, SBool))


def to_z3(x):
    """A z3 arithmetic term for a Python number or proxy."""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan/inf")
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    raise Unsupported("no number: %r" % (type(x),))


def is_num(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction))


def _isint(x):
    if isinstance(x, SNum):
        return x.isint
    return isinstance(x, (int, SBool))


def mk(t, isint=None):
    t = z3.simplify(t)
    if isint is None:
        isint = t.sort().kind() == z3.Z3_INT_SORT
    return SNum(t, isint)


def _real(t):
    return z3.ToReal(t) if t.sort().kind() == z3.Z3_INT_SORT else t


def _lift2(a, b):
    ta, tb = to_z3(a), to_z3(b)
    if ta.sort().kind() != tb.sort().kind():
        ta, tb = _real(ta), _real(tb)
    return ta, tb


class SBool:
    """A symbolic truth value."""
    __slots__ = ('t',)
    pytype = bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().fork(self.t)

    def __repr__(self):
        return "SBool(%s)" % self.t

    def __eq__(self, other):
        if isinstance(other, (SBool, bool)):
            o = other.t if isinstance(other, SBool) else z3.BoolVal(other)
            return SBool(z3.simplify(self.t == o))
        if is_num(other):
            a, b = _lift2(self, other)
            return SBool(z3.simplify(a == b))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else SBool(z3.simplify(z3.Not(r.t)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _n(self):
        return mk(to_z3(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __neg__(self): return -self._n()
    def __and__(self, o):
        return SBool(z3.And(self.t, as_bool(o)))
    def __or__(self, o):
        return SBool(z3.Or(self.t, as_bool(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o


def as_bool(x):
    """A z3 Bool for a truth value."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SNum):
        return x.t != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class SNum:
    """A symbolic number: an exact integer or an exact rational/real.

    ``isint`` says that the Python value is an int; the z3 term is of sort Int
    (or Real with an integer value, for powers of two).
    """
    __slots__ = ('t', 'isint')

    def __init__(self, t, isint):
        self.t = t
        self.isint = isint

    @property
    def pytype(self):
        return int if self.isint else Fraction

    def __repr__(self):
        return "SNum(%s)" % self.t

    # arithmetic
    def _bin(self, o, f, div=False):
        if not is_num(o):
            return NotImplemented
        a, b = _lift2(self, o)
        return mk(f(a, b), _isint(self) and _isint(o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, str):
            return repeat_str(o, self)
        if isinstance(o, (list, tuple)):
            return repeat_seq(o, self)
        if isinstance(o, SegStr):
            return o.repeat(self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return mk(-self.t, self.isint)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.t >= 0, self.t, -self.t), self.isint)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        a, b = _real(to_z3(self)), _real(to_z3(o))
        cur().nonzero(b)
        return mk(a / b, False)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        a, b = _real(to_z3(o)), _real(to_z3(self))
        cur().nonzero(b)
        return mk(a / b, False)

    def __divmod__(self, o): return s_divmod(self, o)
    def __rdivmod__(self, o): return s_divmod(o, self)
    def __floordiv__(self, o): return s_divmod(self, o)[0]
    def __rfloordiv__(self, o): return s_divmod(o, self)[0]
    def __mod__(self, o): return s_divmod(self, o)[1]
    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("str % symbolic")
        return s_divmod(o, self)[1]

    def __lshift__(self, k): return s_shift(self, k)
    def __rlshift__(self, o): return s_shift(o, self)

    def __rshift__(self, k):
        if isinstance(k, int):
            return self // (1 << k)
        raise Unsupported("symbolic >>")

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported("symbolic **")

    def __rpow__(self, b):
        if b == 2:
            return cur().pow2(self)
        raise Unsupported("symbolic **")

    # comparison
    def limit_denominator(self, *a):
        if self.isint:
            return self
        raise Unsupported("limit_denominator")

    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        if isinstance(o, float) and not math.isfinite(o):
            return f(0.0, o)        # every number compares like 0
        a, b = _lift2(self, o)
        return SBool(z3.simplify(f(a, b)))

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().fork(self.t != 0)

    def concrete(self):
        """Fork over all (finitely many) feasible values; return a Python number."""
        return cur().concretize(self)

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concrete()

    def __int__(self):
        # never called through int(), which is shadowed
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __trunc__(self):
        return s_int(self)

    def __floor__(self):
        return s_divmod(self, 1)[0]

    def bit_length(self):
        """Contract of int.bit_length for positive values."""
        return cur().bit_length(self)

    @property
    def numerator(self):
        if self.isint:
            return self
        return cur().rational(self)[0]

    @property
    def denominator(self):
        if self.isint:
            return 1
        return cur().rational(self)[1]

    def is_integer(self):
        if self.isint:
            return True
        return SBool(z3.simplify(z3.IsInt(_real(self.t))))

    def __str__(self):
        raise Unsupported("str() of a symbolic number")

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic number")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def s_int(x):
    """int(x) for a symbolic number: truncation towards zero."""
    if isinstance(x, SBool):
        return x._n()
    if x.isint:
        return x
    t = _real(x.t)
    return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), True)


def s_divmod(a, b):
    if not is_num(a) or not is_num(b):
        return NotImplemented
    E = cur()
    isint = _isint(a) and _isint(b)
    ta, tb = _lift2(a, b)
    E.nonzero(tb)
    if isint and ta.sort().kind() == z3.Z3_INT_SORT:
        if not is_sym(b):
            # z3: remainder is non-negative; Python: sign of the divisor
            if int(b) > 0:
                return mk(ta / tb), mk(ta % tb)
            q = -((-ta) / (-tb)) if False else None
        # fresh quotient and remainder (floor semantics)
        q, r = E.fresh_int('q'), E.fresh_int('r')
        E.assume_z3(ta == tb * q + r)
        E.assume_z3(z3.If(tb > 0, z3.And(r >= 0, r < tb), z3.And(r <= 0, r > tb)))
        return mk(q), mk(r)
    q = E.fresh_int('q')
    r = E.fresh_real('r')
    ta, tb = _real(ta), _real(tb)
    E.assume_z3(ta == tb * z3.ToReal(q) + r)
    E.assume_z3(z3.If(tb > 0, z3.And(r >= 0, r < tb), z3.And(r <= 0, r > tb)))
    # Python: // of floats is a float, of Fractions an int: an exact integer either way
    return mk(q, True), mk(r, isint)


def s_shift(a, k):
    if not is_num(a) or not _isint(k):
        return NotImplemented
    E = cur()
    tk = to_z3(k)
    if E.fork(tk < 0):
        raise ValueError("negative shift count")
    if isinstance(k, int):
        return a * (1 << k)
    p = E.pow2(k)
    r = a * p
    return SNum(z3.simplify(_real(to_z3(r))), True)


# ------------------------------------------------------------- strings

class Run:
    """``char`` repeated ``count`` times (count symbolic, >= 0 on this path)."""
    __slots__ = ('char', 'count')

    def __init__(self, char, count):
        self.char = char
        self.count = count

    def __repr__(self):
        return "%r*%s" % (self.char, self.count.t)


class Dec:
    """The notation of a symbolic integer in base 2, 8, 10 or 16."""
    __slots__ = ('n', 'base')

    def __init__(self, n, base=10):
        self.n = n
        self.base = base

    @property
    def chars(self):
        """The characters that may be in it."""
        return '-0123456789abcdef'[:self.base + 1]

    def __repr__(self):
        return "dec(%s)" % self.n.t


def repeat_str(s, n):
    if len(s) == 0:
        return s
    E = cur()
    if not E.fork(n.t > 0):
        return ''
    if len(s) != 1:
        return s * n.concrete()
    if z3.is_int_value(n.t):
        return s * n.t.as_long()
    return SegStr([Run(s, n)])


def repeat_seq(seq, n):
    raise Unsupported("symbolic repeat of a sequence")


class SegStr:
    """A string with literal, repeated and decimal segments."""
    pytype = str

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            out.append(s)
        self.segs = out

    @staticmethod
    def make(x):
        if isinstance(x, SegStr):
            return x
        if isinstance(x, str):
            return SegStr([x])
        raise Unsupported("not a string: %r" % type(x))

    def norm(self):
        """A plain str if there is nothing symbolic, else self."""
        if not self.segs:
            return ''
        if len(self.segs) == 1 and isinstance(self.segs[0], str):
            return self.segs[0]
        return self

    def __repr__(self):
        return "SegStr(%r)" % (self.segs,)

    def __add__(self, o):
        if isinstance(o, (str, SegStr)):
            return SegStr(self.segs + SegStr.make(o).segs).norm()
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SegStr([o] + self.segs).norm()
        return NotImplemented

    def repeat(self, n):
        raise Unsupported("repeat of symbolic string")

    def __mul__(self, n):
        raise Unsupported("repeat of symbolic string")

    def length(self):
        r = 0
        for s in self.segs:
            if isinstance(s, str):
                r = r + len(s)
            elif isinstance(s, Run):
                r = r + s.count * len(s.char)
            else:
                raise Unsupported("length of a decimal")
        return r

    def __bool__(self):
        for s in self.segs:
            if isinstance(s, Dec) or isinstance(s, str) and s:
                return True
            if isinstance(s, Run) and cur().fork(s.count.t > 0):
                return True
        return False

    def count(self, sub):
        if not isinstance(sub, str) or len(sub) != 1:
            raise Unsupported("count of a longer substring")
        r = 0
        for s in self.segs:
            if isinstance(s, str):
                r = r + s.count(sub)
            elif isinstance(s, Run):
                r = r + s.count * s.char.count(sub)
            elif sub in s.chars:
                raise Unsupported("count of a digit in a decimal")
        return r

    def _strip(self, chars, left, right):
        segs = list(self.segs)
        if chars is None:
            chars = ' \t\n\r\x0b\x0c'
        def edge(i):
            while segs:
                s = segs[i]
                if isinstance(s, str):
                    n = s.lstrip(chars) if i == 0 else s.rstrip(chars)
                    if n:
                        segs[i] = n
                        return
                    segs.pop(i)
                elif isinstance(s, Run):
                    if all(c in chars for c in s.char):
                        segs.pop(i)
                    elif any(c in chars for c in s.char):
                        raise Unsupported("strip inside a run")
                    elif cur().fork(s.count.t > 0):
                        return
                    else:
                        segs.pop(i)
                else:
                    if set(chars) & set(s.chars):
                        raise Unsupported("strip digits")
                    return
        if left:
            edge(0)
        if right and segs:
            edge(-1)
        return SegStr(segs).norm()

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def upper(self):
        return SegStr([s.upper() if isinstance(s, str) else
                       Run(s.char.upper(), s.count) if isinstance(s, Run) else s for s in self.segs]).norm()

    def lower(self):
        return SegStr([s.lower() if isinstance(s, str) else
                       Run(s.char.lower(), s.count) if isinstance(s, Run) else s for s in self.segs]).norm()

    def _canon(self):
        """Segments with empty runs removed and runs of one character merged
        with their neighbours (forks on emptiness)."""
        out = []
        for s in self.segs:
            if isinstance(s, Run):
                if not cur().fork(s.count.t > 0):
                    continue
                if len(s.char) == 1:
                    if out and out[-1][0] == s.char:
                        out[-1] = (s.char, out[-1][1] + s.count)
                    else:
                        out.append((s.char, s.count))
                    continue
                out.append(s)
            elif isinstance(s, str):
                for c in s:
                    if out and isinstance(out[-1], tuple) and out[-1][0] == c:
                        out[-1] = (c, out[-1][1] + 1)
                    else:
                        out.append((c, 1))
            else:
                out.append(s)
        return out

    def __eq__(self, o):
        if not isinstance(o, (str, SegStr)):
            return NotImplemented
        a, b = self._canon(), SegStr.make(o)._canon()
        conj = []
        if any(not isinstance(x, tuple) for x in a + b):
            # decimals: only the identical shape can be compared
            if len(a) == len(b):
                for x, y in zip(a, b):
                    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                        conj.append(as_bool(x[1] == y[1]))
                    elif isinstance(x, Dec) and isinstance(y, Dec) and x.base == y.base:
                        conj.append((x.n == y.n).t)
                    else:
                        raise Unsupported("string comparison")
                return SBool(z3.And(*conj))
            raise Unsupported("string comparison")
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return False
            conj.append(as_bool(x[1] == y[1]))
        return SBool(z3.simplify(z3.And(*conj))) if conj else True

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __contains__(self, sub):
        return bool(self.count(sub) > 0)

    def startswith(self, p):
        if not isinstance(p, str):
            raise Unsupported("startswith")
        if not p:
            return True
        a = self._canon()
        for c in p:
            if not a or not isinstance(a[0], tuple):
                if a and isinstance(a[0], Dec) and c not in a[0].chars:
                    return False
                raise Unsupported("startswith")  if a else None
            ch, n = a[0]
            if ch != c:
                return False
            m = n - 1
            if (m > 0):
                a[0] = (ch, m)
            else:
                a.pop(0)
        return True

    def format_map(self, *a): raise Unsupported("format")
    def format(self, *a, **k): raise Unsupported("format")
    def __iter__(self):
        return SegIter(self.segs)
    __pv_iter__ = __iter__
    def __pv_reversed__(self):
        return SegIter([Run(s.char[::-1], s.count) if isinstance(s, Run) else s[::-1] if isinstance(s, str) else s
                        for s in reversed(self.segs)])
    def __len__(self):
        n = self.length()
        return n.concrete() if isinstance(n, SNum) else n
    def __str__(self): raise Unsupported("str() of a symbolic string")

    def isspace(self):
        return all(all(c.isspace() for c in (s if isinstance(s, str) else s.char)) if not isinstance(s, Dec) else False
                   for s in self.segs) and bool(self)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or len(sep) != 1 or maxsplit != -1:
            raise Unsupported("split")
        out = [[]]
        for s in self.segs:
            if isinstance(s, str):
                first, *rest = s.split(sep)
                out[-1].append(first)
                out.extend([r] for r in rest)
            elif sep in (s.char if isinstance(s, Run) else s.chars):
                raise Unsupported("split inside a segment")
            else:
                out[-1].append(s)
        return [SegStr(x).norm() for x in out]

    def __getitem__(self, i):
        first = self.segs[0] if self.segs else None
        if isinstance(i, slice) and i.step is None and i.stop is None and isinstance(i.start, int) and isinstance(first, str) and 0 <= i.start <= len(first):
            return SegStr([first[i.start:]] + self.segs[1:]).norm()
        if isinstance(i, int) and isinstance(first, str) and 0 <= i < len(first):
            return first[i]
        raise Unsupported("part of a symbolic string")

    def to_int(self, base=10):
        """Contract of int(): decimals read back; anything else is a ValueError
        unless it is a plain literal."""
        n = self.norm()
        if isinstance(n, str):
            return int(n, base)
        segs = n.segs
        if len(segs) == 1 and isinstance(segs[0], Dec) and segs[0].base == base:
            return segs[0].n
        if base != 10 or any(isinstance(x, Dec) and x.base != 10 for x in segs):
            raise Unsupported("int() of a symbolic string in another base")
        for s in segs:
            chars = s if isinstance(s, str) else s.char if isinstance(s, Run) else ''
            if any(not (c.isdigit() or c in '+-_ \t\n') for c in chars):
                if isinstance(s, str) or cur().fork(s.count.t > 0):
                    raise ValueError("invalid literal for int()")
        raise Unsupported("int() of a symbolic string")


class SegIter:
    """The characters of a segmented string."""
    def __init__(self, segs):
        self.segs = [s.char * z3.simplify(s.count.t).as_long() if isinstance(s, Run) and z3.is_int_value(z3.simplify(s.count.t))
                     else s for s in segs]
        self.i = 0          # offset in the first segment, symbolic after a cut

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def at_run(self):
        while self.segs and isinstance(self.segs[0], str) and self.i >= len(self.segs[0]):
            self.segs.pop(0)
            self.i = 0
        return bool(self.segs) and isinstance(self.segs[0], Run) and len(self.segs[0].char) == 1 \
            and isinstance(self.i, int) and self.i == 0

    def havoc(self, E):
        i = E.fresh_int('i')
        E.assume_z3(z3.And(i >= 0, i <= self.segs[0].count.t))
        self.i = SNum(i, True)

    def leave_run(self):
        if cur().fork(to_z3(self.i) < self.segs[0].count.t):
            return False
        self.segs.pop(0)
        self.i = 0
        return True

    def __next__(self):
        while self.segs:
            s = self.segs[0]
            if isinstance(s, str):
                if self.i < len(s):
                    self.i += 1
                    return s[self.i - 1]
            elif isinstance(s, Run) and len(s.char) == 1:
                if cur().fork(to_z3(self.i) < s.count.t):
                    self.i = self.i + 1
                    return s.char
            elif isinstance(s, Run):
                s = self.segs[0] = s.char * s.count.concrete()
                continue
            else:
                raise Unsupported("iteration over decimals")
            self.segs.pop(0)
            self.i = 0
        raise StopIteration


def s_str(x):
    """str(x) for symbolic x."""
    if isinstance(x, SegStr):
        return x
    if isinstance(x, SNum) and x.isint:
        return SegStr([Dec(x)])
    if isinstance(x, SNum):
        # the text of a Fraction (floating point numbers are not symbolic)
        n, d = cur().rational(x)
        return SegStr([Dec(n)]) if d == 1 else SegStr([Dec(n), '/', Dec(d)])
    if isinstance(x, SBool):
        return 'True' if x else 'False'
    raise Unsupported("str() of %s" % type(x).__name__)


def concrete_value(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported("model value %s" % v)

"""C01: duration notation and value."""
from fractions import Fraction
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = 'Proved for all base lengths and any number of dots (unbounded integers, exact rationals): the value of a notation, splitting, truncation, writability, shifting, text round trip. math.frexp and int.bit_length enter as contracts; values are taken as exactly representable (a double holds about 50 dots). Bounded cross-check on the real floats.'
MAXDOTS = 50        # frexp works on doubles: more dots than this do not fit a double
NAMES = {-1: '\\breve', -2: '\\longa', -3: '\\maxima'}


def D(E, log, dots):
    """Specification: the length of a base length 2**-log with dots."""
    return (2 - E.pow2(-dots)) * E.pow2(-log)


def notatable(E, lo=-3):
    log = E.int('log', lo, None, big=12)
    dots = E.int('dots', 0, None if E.symbolic else MAXDOTS, big=6)
    if E.symbolic:
        E.assumed("values with more than %d dots do not fit a double; math.frexp is taken as exact" % MAXDOTS)
        hint(E, -log, 1 - log, -dots, 1 - dots, -dots - 1)
    return log, dots


def hint(E, *ks):
    """Instances of the monotonicity lemma of powers of two."""
    if E.symbolic:
        for k in ks:
            E.pow2(k)


@unit('C01', 'duration', functions=['duration.duration'], random_runs=500)
def u_duration(E):
    m = E.mod('quickly.duration')
    log, dots = notatable(E)
    E.cover("precondition")
    E.prove("length of the notation", m.duration(log, dots) == D(E, log, dots))
    E.prove("no dots by default", m.duration(log) == E.pow2(-log))


@unit('C01', 'split and join', functions=['duration.log_dotcount'], random_runs=500)
def u_split(E):
    m = E.mod('quickly.duration')
    log, dots = notatable(E)
    x = D(E, log, dots)
    E.cover("precondition")
    l, d = m.log_dotcount(x)
    E.prove("base length found", l == log)
    E.prove("dots found", d == dots)


def split_by_contract(E, m, log, dots, x):
    """The contract of log_dotcount (proved by unit 'split and join') at this value."""
    def log_dotcount(value):
        E.prove("log_dotcount is given the length", value == x)
        return log, dots
    E.use_contract(m, 'log_dotcount', log_dotcount, "unit 'split and join'")


@unit('C01', 'written text reads back', functions=['duration.to_string', 'duration.from_string', 'duration.log_dotcount', 'duration.duration'], random_runs=500)
def u_text(E):
    m = E.mod('quickly.duration')
    log, dots = notatable(E)
    x = D(E, log, dots)
    E.cover("precondition")
    split_by_contract(E, m, log, dots, x)
    s = m.to_string(x)
    E.prove("reads back to the same length", m.from_string(s) == x)
    E.prove("reads back, dots given separately", m.from_string(s.rstrip('.'), dots) == x)
    E.prove("one mark per dot", s.count('.') == dots)
    if log < 0:
        E.prove("named base length", E.eq(s.rstrip('.'), NAMES[int(log) if not E.symbolic else log.concrete()]))
        E.prove("reads back without the backslash", m.from_string(s.lstrip('\\')) == x)
    elif not E.symbolic:
        E.prove("numeric base length", s.rstrip('.') == str(2 ** log))


@unit('C01', 'too long lengths are refused', functions=['duration.to_string'], random_runs=200)
def u_toolong(E):
    m = E.mod('quickly.duration')
    log = E.int('log', None, -4, big=12)
    dots = E.int('dots', 0, None if E.symbolic else MAXDOTS, big=6)
    hint(E, -log, 1 - log, -dots, 1 - dots, -dots - 1)
    x = D(E, log, dots)
    E.cover("precondition")
    split_by_contract(E, m, log, dots, x)
    try:
        m.to_string(x)
    except IndexError:
        ok = True
    else:
        ok = False
    E.prove("IndexError", ok)


@unit('C01', 'truncation', functions=['duration.log_dotcount'], random_runs=2000)
def u_trunc(E):
    m = E.mod('quickly.duration')
    x = E.real('x', 0, None, den=None if E.symbolic else 256)
    E.assume(x > 0)
    E.cover("precondition")
    l, d = m.log_dotcount(x)
    hint(E, -l, 1 - l, -d, -d - 1)
    E.prove("dots not negative", d >= 0)
    E.prove("same base length", E.And(E.pow2(-l) <= x, x < 2 * E.pow2(-l)))
    E.prove("does not exceed the length", D(E, l, d) <= x)
    E.prove("one more dot would exceed it", D(E, l, d + 1) > x)


@unit('C01', 'exactly writable', functions=['duration.is_writable'], random_runs=2000)
def u_writable(E):
    m = E.mod('quickly.duration')
    x = E.real('x', 0, None, den=None if E.symbolic else 256)
    E.assume(x > 0)
    E.cover("precondition")
    w = m.is_writable(x)
    l, d = m.log_dotcount(x)        # contract proved in 'truncation': the largest notatable length
    hint(E, -l, 1 - l, -d, -d - 1)
    exact = D(E, l, d) == x
    E.prove("recognised exactly when notatable between 1/1024 and maxima",
            E.Iff(w, E.And(exact, l >= -3, l <= 10)))


@unit('C01', 'exactly writable (notatable)', functions=['duration.is_writable'], random_runs=500)
def u_writable2(E):
    m = E.mod('quickly.duration')
    log, dots = notatable(E, -8)
    x = D(E, log, dots)
    E.cover("precondition")
    E.prove("within LilyPond's range", E.Iff(m.is_writable(x), E.And(log >= -3, log <= 10)))


@unit('C01', 'shift', functions=['duration.shift_duration', 'duration.Transform.transform'], random_runs=1000)
def u_shift(E):
    m = E.mod('quickly.duration')
    log, dots = notatable(E)
    dl, dd = E.int('shift log', big=6), E.int('shift dots', big=4)
    E.assume(log + dl >= -3)
    nd = E.ite(dots + dd >= 0, dots + dd, 0)
    if not E.symbolic:
        E.assume(nd <= MAXDOTS)
    hint(E, -log - dl)
    x = D(E, log, dots)
    E.cover("precondition")
    split_by_contract(E, m, log, dots, x)
    r = m.shift_duration(x, dl, dd)
    E.prove("base length and dots shifted", r == D(E, log + dl, nd))
    if E.symbolic:
        E.assume(E.Or(dl != 0, dd != 0))
    sc = E.real('scale', 0, 4)
    sc2 = E.real('scaling', 0, 4)
    y, s = m.Transform(dl, dd, sc).transform(x, sc2)
    if E.symbolic or dl or dd:
        E.prove("transformation shifts the duration", y == D(E, log + dl, nd))
    E.prove("transformation multiplies the scaling", s == sc * sc2)


def enum(tier):
    for log in range(-3, 16):
        for d in range(0, MAXDOTS + 1 if tier == 'thorough' else 24):
            yield dict(kind='text', log=log, dots=d)
    for n in range(1, 700 if tier == 'quick' else 5000):
        for den in (1, 2, 4, 8, 16, 64, 1024):
            yield dict(kind='value', n=n, den=den)


@bounded('C01', 'notations and lengths', enum=enum, quick=0, thorough=0,
         functions=['duration.to_string', 'duration.from_string', 'duration.is_writable', 'duration.log_dotcount', 'duration.shift_duration'],
         rule='all notations with log -3..15 and up to 23 (thorough: 50) dots; fractions n/den for small n; every value is checked against exact integer arithmetic')
def b_duration(M, c):
    m = M.get('quickly.duration')
    if c['kind'] == 'text':
        log, d = c['log'], c['dots']
        x = Fraction(2 ** (d + 1) - 1, 2 ** d) / 2 * Fraction(2) ** (1 - log) / 1
        x = (2 - Fraction(1, 2 ** d)) * Fraction(2) ** -log
        want = (NAMES[log] if log < 0 else str(2 ** log)) + '.' * d
        check(m.to_string(x) == want, "to_string(%s) is %r, not %r", x, m.to_string(x), want)
        check(m.from_string(want) == x, "from_string(%r) is %s, not %s", want, m.from_string(want), x)
        check(m.from_string(want.strip('\\')) == x, "from_string without backslash")
        check(m.from_string(' ' + want + ' ') == x, "from_string with blanks")
        check(m.from_string(want.rstrip('.'), d) == x, "from_string with dotcount")
        check(m.duration(log, d) == x, "duration(%d, %d)", log, d)
        check(isinstance(m.from_string(want), Fraction), "no Fraction")
        check(m.log_dotcount(x) == (log, d), "log_dotcount(%s)", x)
        check(bool(m.is_writable(x)) == (-3 <= log <= 10), "is_writable(%s)", x)
        for dl in (-2, 0, 1, 3):
            for dd in (-2, -1, 0, 1):
                if log + dl >= -3 and d + dd <= MAXDOTS:
                    nd = max(0, d + dd)
                    check(m.shift_duration(x, dl, dd) == (2 - Fraction(1, 2 ** nd)) * Fraction(2) ** -(log + dl), "shift_duration(%s, %d, %d)", x, dl, dd)
        return d > 0
    x = Fraction(c['n'], c['den'])
    log, base = 0, Fraction(1)
    while base > x:
        base /= 2
        log += 1
    while base * 2 <= x:
        base *= 2
        log -= 1
    d = 0
    while (2 - Fraction(1, 2 ** (d + 1))) * base <= x:
        d += 1
        if d > 60:
            break
    got = m.log_dotcount(x)
    check(got == (log, d), "log_dotcount(%s) is %r, not %r", x, got, (log, d))
    exact = (2 - Fraction(1, 2 ** d)) * base == x
    check(bool(m.is_writable(x)) == (exact and -3 <= log <= 10), "is_writable(%s)", x)
    check(m.log_dotcount(float(x)) == got, "float value differs")
    return True

"""C20: combining properties and duration transformations."""
from fractions import Fraction
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = 'Transform: proved for all integers and rationals. Properties: proved for every membership pattern over three names (one of them None-valued on request) with arbitrary values; the code treats names uniformly (they only pass through dict operations). Larger sets at run time (bounded).'

NAMES = ('repeat_count', 'unfold', 'x')


def props(E, name):
    """An arbitrary set of properties over NAMES: {name: value}, value possibly None."""
    D = E.mod('quickly.datatypes')
    d = {}
    for n in NAMES:
        k = E.choice('%s.%s' % (name, n), ['absent', 'none', 'value'])
        if k == 'none':
            d[n] = None
        elif k == 'value':
            d[n] = E.int('%s.%s.value' % (name, n), big=3)
    return D.Properties(**d), d


def same(E, p, d):
    """p has exactly the properties of d."""
    if sorted(vars(p)) != sorted(d):
        return False
    return E.And(True, *[(vars(p)[n] is None) if d[n] is None else
                         (False if vars(p)[n] is None else E.eq(vars(p)[n], d[n])) for n in d])


def union(a, b):
    d = dict(a)
    for n in b:
        d[n] = b[n]
    return d


PF = ['datatypes.Properties.' + n for n in ('__init__', '__bool__', '__getattr__', '__delattr__', '__eq__', '__contains__', '__add__')]


@unit('C20', 'properties: sum', functions=PF, random_runs=500)
def u_sum(E):
    a, da = props(E, 'a')
    b, db = props(E, 'b')
    E.cover("precondition")
    s = a + b
    E.prove("every property of both sides, the right-hand side wins", same(E, s, union(da, db)))
    E.prove("left operand unchanged", same(E, a, da))
    E.prove("right operand unchanged", same(E, b, db))
    E.prove("a set of properties", type(s) is type(a))
    E.prove("not one of the operands", s is not a and s is not b)
    s.x = 77
    del s.unfold
    E.prove("changing the sum leaves the left operand unchanged", same(E, a, da))
    E.prove("changing the sum leaves the right operand unchanged", same(E, b, db))


@unit('C20', 'properties: associative, neutral', functions=PF, random_runs=500)
def u_assoc(E):
    a, da = props(E, 'a')
    b, db = props(E, 'b')
    c = E.mod('quickly.datatypes').Properties(x=E.int('c.x')) if E.choice('cx', [True, False]) \
        else E.mod('quickly.datatypes').Properties(unfold=None)
    empty = E.mod('quickly.datatypes').Properties()
    E.cover("precondition")
    E.prove("associative", same(E, (a + b) + c, vars(a + (b + c))))
    E.prove("empty is neutral on the right", same(E, a + empty, da))
    E.prove("empty is neutral on the left", same(E, empty + a, da))
    E.prove("empty is false", not empty)


@unit('C20', 'properties: reading and removing', functions=PF, random_runs=500)
def u_read(E):
    a, da = props(E, 'a')
    E.cover("precondition")
    E.prove("false exactly when empty", bool(a) == bool(da))
    for n in NAMES + ('never',):
        E.prove("membership", (n in a) == (n in da))
        v = getattr(a, n)
        want = da.get(n)
        E.prove("reads as its value, absent reads as None", v is None if want is None else v is not None and E.eq(v, want))
    E.prove("reading changes nothing", same(E, a, da))
    for n in NAMES[:2] + ('never',):
        delattr(a, n)
        da.pop(n, None)
        E.prove("removing removes just that property", same(E, a, da))
        E.prove("removed reads as None", getattr(a, n) is None and n not in a)
        delattr(a, n)
        E.prove("removing again is harmless", same(E, a, da))
    v = E.int('new')
    a.unfold = v
    da['unfold'] = v
    E.prove("setting sets just that property", same(E, a, da))


@unit('C20', 'properties: equality', functions=PF, random_runs=500)
def u_equal(E):
    a, da = props(E, 'a')
    b, db = props(E, 'b')
    E.cover("precondition")
    E.prove("equal exactly when the properties are", E.Iff(a == b, same(E, a, db)))
    E.prove("unequal to something else", (a == 3) is False and a != da)


def transform(E, name):
    T = E.mod('quickly.duration').Transform
    l, d = E.int(name + '.log', big=6), E.int(name + '.dots', big=4)
    s = E.real(name + '.scale', 0, 8)
    return T(l, d, s), (l, d, s)


def tsame(E, t, w):
    return E.And(t.log == w[0], t.dotcount == w[1], t.scale == w[2])


TF = ['duration.Transform.' + n for n in ('__init__', '__bool__', '__add__', 'length', 'transform')]


@unit('C20', 'transformations: sum', functions=TF, random_runs=500)
def u_tsum(E):
    T = E.mod('quickly.duration').Transform
    a, wa = transform(E, 'a')
    b, wb = transform(E, 'b')
    c, wc = transform(E, 'c')
    E.cover("precondition")
    s = a + b
    E.prove("shifts add, scalings multiply", tsame(E, s, (wa[0] + wb[0], wa[1] + wb[1], wa[2] * wb[2])))
    E.prove("left operand unchanged", tsame(E, a, wa))
    E.prove("right operand unchanged", tsame(E, b, wb))
    E.prove("a transformation, not an operand", type(s) is type(a) and s is not a and s is not b)
    x, y = (a + b) + c, a + (b + c)
    E.prove("associative", tsame(E, x, (y.log, y.dotcount, y.scale)))
    E.prove("neutral on the right", tsame(E, a + T(), wa))
    E.prove("neutral on the left", tsame(E, T() + a, wa))
    E.prove("defaults are neutral", tsame(E, T(), (0, 0, 1)))


@unit('C20', 'transformations: empty exactly when nothing changes', functions=TF, random_runs=500)
def u_tempty(E):
    a, (l, d, s) = transform(E, 'a')
    E.cover("precondition")
    nothing = E.And(l == 0, d == 0, s == 1)
    E.prove("empty exactly when neutral", E.Iff(bool(a), E.Not(nothing)))
    dur, sc = E.real('duration', 0, 8), E.real('scaling', 0, 4)
    if not a:
        r = a.transform(dur, sc)
        E.prove("an empty transformation changes nothing", E.And(r[0] == dur, r[1] == sc))
        E.prove("length is duration times scaling", a.length(dur, sc) == dur * sc)
        E.prove("length without scaling", a.length(dur) == dur)


@unit('C20', 'transformations: scaling', functions=TF, random_runs=500)
def u_tscale(E):
    """Only scaling: two in a row are the same as their sum."""
    T = E.mod('quickly.duration').Transform
    s1, s2 = E.real('s1', 0, 8), E.real('s2', 0, 8)
    dur, sc = E.real('duration', 0, 8), E.real('scaling', 0, 4)
    E.cover("precondition")
    a, b = T(scale=s1), T(scale=s2)
    r = b.transform(*a.transform(dur, sc))
    q = (a + b).transform(dur, sc)
    E.prove("applying both equals applying the sum", E.And(r[0] == q[0], r[1] == q[1]))
    E.prove("duration itself is not touched", q[0] == dur)
    E.prove("length is scaled", (a + b).length(dur, sc) == dur * sc * s1 * s2)


@unit('C20', 'transformations: shifting', functions=TF + ['duration.shift_duration'], random_runs=500)
def u_tshift(E):
    """transform() passes exactly its shifts to shift_duration (contract proved in C01)."""
    m = E.mod('quickly.duration')
    a, (l, d, s) = transform(E, 'a')
    dur, sc = E.real('duration', 0, 8, den=None if E.symbolic else 64), E.real('scaling', 0, 4)
    E.assume(dur > 0)
    if not E.symbolic:
        E.assume(m.log_dotcount(dur)[0] + l >= -3 and -8 < l)
    E.assume(E.Or(l != 0, d != 0))
    result = E.real('shifted', 0, 64)
    seen = []
    if E.symbolic:
        def shift_duration(value, log, dotcount=0):
            seen.append((value, log, dotcount))
            return result
        E.use_contract(m, 'shift_duration', shift_duration, "C01 unit 'shift'")
    E.cover("precondition")
    r = a.transform(dur, sc)
    if E.symbolic:
        E.prove("shifted once", len(seen) == 1)
        E.prove("shifted by log and dots", E.And(seen[0][0] == dur, seen[0][1] == l, seen[0][2] == d))
        E.prove("the shifted duration is returned", r[0] == result)
    else:
        E.prove("the shifted duration is returned", r[0] == m.shift_duration(dur, l, d))
    E.prove("scaling is multiplied", r[1] == sc * s)
    E.prove("length", a.length(dur, sc) == r[0] * r[1])


def gen(rng):
    def one():
        return {rng.choice(['', '', '', '_', '__']) + rng.choice('abcdefgh') * rng.randint(1, 2) + rng.choice(['', '', '1']): rng.choice([None, 0, 1, 'x', [1], False])
                for _ in range(rng.randint(0, 6))}
    return dict(sets=[one() for _ in range(rng.randint(2, 5))],
                ts=[[rng.randint(-3, 3), rng.randint(-2, 2), str(Fraction(rng.randint(1, 6), rng.choice([1, 2, 3, 4, 5, 6, 1021, 4096])))] for _ in range(rng.randint(1, 5))])


@bounded('C20', 'random sets and chains', gen=gen, quick=2000, thorough=40000, functions=['datatypes.Properties', 'duration.Transform'],
         rule='2..5 random sets of up to 6 names; chains of up to 5 transformations')
def b_sets(M, c):
    P = M.get('quickly.datatypes').Properties
    T = M.get('quickly.duration').Transform
    ps = [P(**d) for d in c['sets']]
    want = {}
    for d in c['sets']:
        want.update(d)
    tot = P()
    for p in ps:
        tot = tot + p
    check(vars(tot) == want, "sum %r, not %r", tot, want)
    r = ps[-1]
    for p in reversed(ps[:-1]):
        r = p + r
    check(r == tot, "not associative")
    for p, d in zip(ps, c['sets']):
        check(vars(p) == d, "operand changed: %r, was %r", p, d)
        repr(p)
    for n in list(want) + ['zz']:
        check(getattr(tot, n) == want.get(n), "reading %r", n)
        check((n in tot) == (n in want), "membership %r", n)
    ts = [T(l, d, Fraction(s)) for l, d, s in c['ts']]
    t = T()
    for x in ts:
        t = t + x
    s = Fraction(1)
    for x in c['ts']:
        s *= Fraction(x[2])
    check((t.log, t.dotcount, t.scale) == (sum(x[0] for x in c['ts']), sum(x[1] for x in c['ts']), s), "sum %r", t)
    check(bool(t) == bool(t.log or t.dotcount or t.scale != 1), "emptiness of %r", t)
    repr(t)
    return len(want) > 1

"""C04: relative and absolute octaves are mutually inverse and follow the fourth rule."""
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = 'Proved for all integer octaves and notes of both pitches.'
FUNCS = ['pitch.Pitch.make_absolute', 'pitch.Pitch.make_relative', 'pitch.Pitch.copy']


def setup(E):
    P = E.mod('quickly.pitch').Pitch
    o, n, a = E.int('octave'), E.int('note', 0, 6), E.real('alter', -3, 3)
    ro, rn, ra = E.int('ref.octave'), E.int('ref.note', 0, 6), E.real('ref.alter', -3, 3)
    d = E.int('default octave', -4, 3)
    return P(o, n, a), P(ro, rn, ra), d, (o, n, a), (ro, rn, ra)


def unchanged(E, ref, r):
    E.prove("reference pitch unchanged", E.And(ref.octave == r[0], ref.note == r[1], ref.alter == r[2]))


@unit('C04', 'relative then absolute', functions=FUNCS, random_runs=3000)
def u_ra(E):
    p, ref, d, v, r = setup(E)
    E.cover("precondition")
    p.make_relative(ref, d)
    p.make_absolute(ref, d)
    E.prove("original pitch restored", E.And(p.octave == v[0], p.note == v[1], p.alter == v[2]))
    unchanged(E, ref, r)


@unit('C04', 'absolute then relative', functions=FUNCS, random_runs=3000)
def u_ar(E):
    p, ref, d, v, r = setup(E)
    E.cover("precondition")
    p.make_absolute(ref, d)
    p.make_relative(ref, d)
    E.prove("original pitch restored", E.And(p.octave == v[0], p.note == v[1], p.alter == v[2]))
    unchanged(E, ref, r)


@unit('C04', 'fourth rule', functions=FUNCS, random_runs=3000)
def u_fourth(E):
    """Without octave marks: at most three staff steps from the reference; marks move by octaves."""
    p, ref, d, v, r = setup(E)
    marks = E.int('marks')
    # a name without marks carries the default octave; marks are added to it
    p.octave = d + marks
    E.cover("precondition")
    p.make_absolute(ref, d)
    steps = (p.octave * 7 + p.note) - (ref.octave * 7 + ref.note) - 7 * marks
    E.prove("at most three staff steps from the reference, plus the marks", E.And(steps >= -3, steps <= 3))
    E.prove("note and alteration untouched", E.And(p.note == v[1], p.alter == v[2]))
    unchanged(E, ref, r)


@unit('C04', 'default arguments', functions=FUNCS, random_runs=1000)
def u_defaults(E):
    """The octave of the pitch name is -1 unless given."""
    p, ref, d, v, r = setup(E)
    q = p.copy()
    E.prove("copy is a different object with the same value", E.And(p is not q, q.octave == v[0], q.note == v[1], q.alter == v[2]))
    E.cover("precondition")
    p.make_absolute(ref)
    q.make_absolute(ref, -1)
    E.prove("default octave is -1 (absolute)", p.octave == q.octave)
    p.make_relative(ref)
    q.make_relative(ref, -1)
    E.prove("default octave is -1 (relative)", p.octave == q.octave)
    E.prove("copy independent", E.And(p.octave == v[0], q.octave == v[0]))


@unit('C04', 'any scale length', functions=FUNCS, random_runs=0)
def u_scale(E):
    """With another scale: inverse too, and within one octave."""
    p, ref, d, v, r = setup(E)
    l = E.choice('length', [5, 6, 7, 8, 9])
    scale = list(range(l))
    E.assume(E.And(p.note < l, ref.note < l))
    E.cover("precondition")
    p.make_relative(ref, d, scale)
    p.make_absolute(ref, d, scale)
    E.prove("original pitch restored", E.And(p.octave == v[0], p.note == v[1], p.alter == v[2]))


def gen(rng):
    return [[rng.randint(-5, 5), rng.randint(0, 6)] for _ in range(rng.randint(2, 12))]


@bounded('C04', 'melodies', gen=gen, quick=3000, thorough=60000, functions=FUNCS,
         rule='random melodies of 2..12 notes made relative note by note and absolute again')
def b_melody(M, case):
    P = M.get('quickly.pitch').Pitch
    rel = []
    last = P(0, 0, 0)
    for o, n in case:
        p = P(o, n, 0)
        q = p.copy()
        q.make_relative(last)
        rel.append((q.octave, q.note))
        last = p
    last = P(0, 0, 0)
    for (o, n), (ro, rn) in zip(case, rel):
        p = P(ro, rn, 0)
        p.make_absolute(last)
        check((p.octave, p.note) == (o, n), "melody not restored: %r -> %r", (o, n), (p.octave, p.note))
        # independent reading: nearest octave
        base = min(range(-12, 13), key=lambda oo: abs(oo * 7 + rn - last.octave * 7 - last.note))
        check(o == base + ro + 1, "relative octave %d not the number of octaves beyond the nearest one", ro)
        last = p
    return True

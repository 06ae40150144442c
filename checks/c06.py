"""C06: transposition moves every pitch by exactly the requested interval."""
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = 'Proved for all pitches, intervals and (with real alterations) respellings; loops by invariant and variant; alterations are exact rationals. Chains of combined transpositions are additionally checked at run time (bounded).'

SCALE = (0, 1, 2, 2.5, 3.5, 4.5, 5.5)


def height(E, p, scale):
    """Sounding height in whole tones."""
    return p.octave * 6 + E.pick(scale, p.note) + p.alter


def pitch(E, name, alter=2):
    P = E.mod('quickly.pitch').Pitch
    return P(E.int(name + '.octave', big=6), E.int(name + '.note', 0, 6), E.real(name + '.alter', -alter, alter))


def loop_contracts(E, p, scale, total):
    """Contract of the respelling loops: the height stays, the alteration shrinks."""
    def inv(loc, entry):
        return [("note in 0..6", E.And(p.note >= 0, p.note <= 6)),
                ("sounding height kept", height(E, p, scale) == total),
                ("never passes the upper limit", E.Implies(entry <= 1, p.alter <= 1)),
                ("never passes the lower limit", E.Implies(entry >= -1, p.alter >= -1))]
    E.loop(LoopSpec("respelling loop", lambda site, loc: 'Transposer' in site, inv,
                    modifies=lambda loc: [(p, 'octave'), (p, 'note'), (p, 'alter')],
                    entry=lambda loc: p.alter,
                    variant=lambda loc: abs(p.alter) * 2, while_only=True))


def direct(E, a, b, p, scale):
    """(note, alter, octave) of the spelling the interval itself dictates."""
    n = p.note + b.note - a.note
    doct, note = n // 7, n % 7
    alter = height(E, p, scale) + height(E, b, scale) - height(E, a, scale) \
        - (p.octave + b.octave - a.octave + doct) * 6 - E.pick(scale, note)
    return note, alter, p.octave + b.octave - a.octave + doct


def post(E, p, want, scale):
    E.prove("height moved by exactly the interval", height(E, p, scale) == want)
    E.prove("note within 0..6", E.And(p.note >= 0, p.note <= 6))
    E.prove("alteration within a double sharp or flat", E.And(p.alter >= -1, p.alter <= 1))


def contract_transpose(E, scale, custom):
    T = E.mod('quickly.transpose').Transposer
    a, b, p = pitch(E, 'from'), pitch(E, 'to'), pitch(E, 'p')
    want = height(E, p, scale) + height(E, b, scale) - height(E, a, scale)
    dn, da, do = direct(E, a, b, p, scale)
    t = T(a, b, list(scale)) if custom else T(a, b)
    E.cover("precondition")
    loop_contracts(E, p, scale, want)
    t.transpose(p)
    post(E, p, want, scale)
    # respelling only happens when the direct spelling exceeds the limit: shown without the loop
    # contract (the loops are not entered at all), see unit 'direct spelling'


@unit('C06', 'transpose', functions=['transpose.Transposer.__init__', 'transpose.Transposer.transpose'], random_runs=2000)
def u_transpose(E):
    contract_transpose(E, SCALE, False)


def custom_scale(E):
    s = [0]
    for i in range(1, 7):
        x = E.real('scale%d' % i, 0, 6)
        E.assume(x - s[-1] >= 0.5)
        E.assume(x - s[-1] <= 1.5)
        s.append(x)
    E.assume(6 - s[-1] >= 0.5)
    E.assume(6 - s[-1] <= 1.5)
    return s


@unit('C06', 'transpose, any scale', functions=['transpose.Transposer.__init__', 'transpose.Transposer.transpose'], random_runs=0)
def u_transpose_scale(E):
    contract_transpose(E, custom_scale(E), True)


@unit('C06', 'direct spelling kept', functions=['transpose.Transposer.transpose'], random_runs=2000)
def u_direct(E):
    T = E.mod('quickly.transpose').Transposer
    a, b, p = pitch(E, 'from'), pitch(E, 'to'), pitch(E, 'p')
    dn, da, do = direct(E, a, b, p, SCALE)
    E.assume(E.And(da >= -1, da <= 1))
    t = T(a, b)
    E.cover("precondition")
    t.transpose(p)
    E.prove("spelled by the letter names of the interval", E.And(p.note == dn, p.alter == da, p.octave == do))


def compose(E, op):
    T = E.mod('quickly.transpose').Transposer
    a, b, c, d, p = [pitch(E, n, 1) for n in ('from1', 'to1', 'from2', 'to2', 'p')]
    h1 = height(E, b, SCALE) - height(E, a, SCALE)
    h2 = height(E, d, SCALE) - height(E, c, SCALE)
    t1, t2 = T(a, b), T(c, d)
    t = t1 + t2 if op == '+' else t1 - t2
    want = height(E, p, SCALE) + (h1 + h2 if op == '+' else h1 - h2)
    E.cover("precondition")
    loop_contracts(E, p, SCALE, want)
    t.transpose(p)
    post(E, p, want, SCALE)
    E.prove("operands unchanged", E.And(t1.octave == b.octave - a.octave, t1.steps == b.note - a.note, t1.alter == h1 - t1.octave * 6,
                                        t2.octave == d.octave - c.octave, t2.steps == d.note - c.note, t2.alter == h2 - t2.octave * 6))


@unit('C06', 'sum of transpositions', functions=['transpose.Transposer.__add__', 'transpose.Transposer.transpose'], random_runs=2000)
def u_add(E):
    compose(E, '+')


@unit('C06', 'difference of transpositions', functions=['transpose.Transposer.__sub__', 'transpose.Transposer.transpose'], random_runs=2000)
def u_sub(E):
    compose(E, '-')


@unit('C06', 'reverse restores the height', functions=['transpose.Transposer.__init__', 'transpose.Transposer.transpose'], random_runs=2000)
def u_reverse(E):
    """Lemma: the contract of transpose, applied twice."""
    T = E.mod('quickly.transpose').Transposer
    a, b, p = pitch(E, 'from'), pitch(E, 'to'), pitch(E, 'p')
    h = height(E, p, SCALE)
    mid = h + height(E, b, SCALE) - height(E, a, SCALE)
    t1, t2 = T(a, b), T(b, a)
    E.cover("precondition")

    def by_contract(t, goal):
        if E.symbolic:
            # contract of Transposer.transpose, proved by unit 'transpose'
            E.res.used_contracts.add("Transposer.transpose (proved by unit 'transpose')")
            E.inexact = True
            p.octave, p.note, p.alter = E.int('c%s.octave' % id(t)), E.int('c%s.note' % id(t), 0, 6), E.real('c%s.alter' % id(t), -1, 1)
            E.assume(height(E, p, SCALE) == goal)
        else:
            t.transpose(p)
    by_contract(t1, mid)
    by_contract(t2, height(E, p, SCALE) + height(E, a, SCALE) - height(E, b, SCALE))
    E.prove("height restored", height(E, p, SCALE) == h)


# --------------------------------------------------------------- bounded stand-in

def gen(rng):
    pt = lambda: [rng.randint(-3, 3), rng.randint(0, 6), rng.choice([-1, -.5, 0, .5, 1, -.75, .25])]
    return dict(ts=[[pt(), pt()] for _ in range(rng.randint(1, 4))], ops=[rng.choice('+-') for _ in range(3)], p=pt())


@bounded('C06', 'chains of transpositions', gen=gen, quick=3000, thorough=60000,
         functions=['transpose.Transposer'],
         rule='random chains of up to 4 transpositions combined with + and -; non-trivial when the chain has two or more')
def b_chain(M, case):
    P = M.get('quickly.pitch').Pitch
    T = M.get('quickly.transpose').Transposer
    H = lambda p: p.octave * 6 + SCALE[p.note] + p.alter
    ts = [T(P(*a), P(*b)) for a, b in case['ts']]
    hs = [H(P(*b)) - H(P(*a)) for a, b in case['ts']]
    t, h = ts[0], hs[0]
    for o, t2, h2 in zip(case['ops'], ts[1:], hs[1:]):
        t = t + t2 if o == '+' else t - t2
        h = h + h2 if o == '+' else h - h2
    p = P(*case['p'])
    before = H(p)
    t.transpose(p)
    check(H(p) - before == h, "moved by %s instead of %s: %r", H(p) - before, h, p)
    check(0 <= p.note <= 6 and -1 <= p.alter <= 1, "bad spelling %r", (p.note, p.alter))
    # applied one after another
    q = P(*case['p'])
    for o, (a, b) in zip(['+'] + case['ops'], case['ts']):
        (T(P(*a), P(*b)) if o == '+' else T(P(*b), P(*a))).transpose(q)
    check(H(q) == H(p), "one transposition after the other gives %r, the combination %r", q, p)
    return len(ts) > 1

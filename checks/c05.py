"""C05: MIDI keys and key signatures map to pitches that sound the same."""
from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = 'Proved for all MIDI keys, key signatures and modes in the tables; see the unit list in the evidence.'

SCALE = (0, 1, 2, 2.5, 3.5, 4.5, 5.5)
WHITE = {0: 0, 2: 1, 4: 2, 5: 3, 7: 4, 9: 5, 11: 6}     # semitone -> note
MODES = {'major': 0, 'ionian': 0, 'dorian': 1, 'phrygian': 2, 'lydian': 3, 'mixolydian': 4,
         'minor': 5, 'aeolian': 5, 'locrian': 6}
BLACK = (.5, 1.5, 3, 4, 5)


def semis(note, alter):
    return SCALE[note] * 2 + alter * 2


def mode_pattern(offset):
    """Semitones of the mode above its tonic."""
    s = [int(x * 2) for x in SCALE]
    return [(s[(offset + i) % 7] - s[offset]) % 12 for i in range(7)]


@unit('C05', 'MIDI round trip', functions=['pitch.Pitch.from_midi', 'pitch.Pitch.to_midi'], random_runs=2000)
def u_midi(E):
    P = E.mod('quickly.pitch').Pitch
    key = E.int('key', big=127)
    flats = tuple(b for b in BLACK if E.choice('flat%s' % b, [False, True]))
    given = E.choice('given', [True, False])
    E.cover("precondition")
    p = P.from_midi(key, flats=flats) if given else P.from_midi(key)
    if not given:
        flats = (1.5, 5)
    E.prove("same key number", p.to_midi() == key)
    E.prove("note within 0..6", E.And(p.note >= 0, p.note <= 6))
    step = key % 12
    white = E.Or(*[step == s for s in WHITE])
    flat = E.Or(*([step == int(f * 2) for f in flats] + [False]))
    E.prove("white keys unaltered, black keys a flat when chosen, else a sharp",
            E.And(E.Implies(white, p.alter == 0), E.Implies(E.And(E.Not(white), flat), p.alter == -.5),
                  E.Implies(E.And(E.Not(white), E.Not(flat)), p.alter == .5)))


@unit('C05', 'MIDI number of any pitch', functions=['pitch.Pitch.to_midi'], random_runs=2000)
def u_tomidi(E):
    P = E.mod('quickly.pitch').Pitch
    o, n, a2 = E.int('octave', big=8), E.int('note', 0, 6), E.int('2*alter', -6, 6)
    E.cover("precondition")
    p = P(o, n, a2 / 2)
    E.prove("key number is the sounding height in semitones, middle C = 60",
            p.to_midi() == (o - 1) * 12 + 72 + E.pick([0, 2, 4, 5, 7, 9, 11], n) + a2 - 0)
    E.prove("an octave is twelve keys", P(o + 1, n, a2 / 2).to_midi() == p.to_midi() + 12)


@unit('C05', 'chromatic scale', functions=['key.chromatic_scale', 'key._int'], random_runs=300)
def u_chromatic(E):
    K = E.mod('quickly.key')
    note = E.choice('note', range(7))
    alter = E.choice('alter', [-1.5, -1, -.5, 0, .5, 1, 1.5])
    flats = tuple(b for b in BLACK if E.choice('flat%s' % b, [False, True]))
    given = E.choice('given', [True, False])
    r = K.chromatic_scale(note, alter, flats=flats) if given else K.chromatic_scale(note, alter)
    E.prove("twelve pitches", len(r) == 12)
    for i, (n, a) in enumerate(r):
        E.prove("pitch sounds at its semitone", E.And(n >= 0, n <= 6, (semis(n, a) - i) % 12 == 0))


@unit('C05', 'key signature spells every key', functions=['key.KeySignature.__init__', 'key.KeySignature.pitch', 'key.KeySignature._midi_reader',
      'key.chromatic_scale', 'key.accidentals', 'key.alterations', 'pitch.Pitch.to_midi'], random_runs=1500, max_paths=60000)
def u_keysig(E):
    K = E.mod('quickly.key')
    note = E.choice('note', range(7))
    alter = E.choice('alter', [-1, -.5, 0, .5, 1])
    mode = E.choice('mode', ['major', 'dorian', 'phrygian', 'lydian', 'mixolydian', 'minor', 'locrian'])
    sig = K.KeySignature(note, alter, mode)
    key = E.int('key', big=127)
    step = E.choice('step', range(12))
    E.assume(key % 12 == step)
    p = sig.pitch(key)
    E.prove("same key number", p.to_midi() == key)
    E.prove("note within 0..6", E.And(p.note >= 0, p.note <= 6))
    tonic = int(semis(note, alter))
    pattern = mode_pattern(MODES[mode])
    for i, s in enumerate(pattern):
        if (tonic + s) % 12 == step:
            E.prove("notes of the key are spelled as in the key", E.eq(p.note, (note + i) % 7))


@unit('C05', 'accidentals of a key', functions=['key.alterations', 'key.accidentals', 'key._int'], random_runs=500)
def u_accidentals(E):
    """For every tonic alteration and every mode (a list of 7 alterations) the step sizes are those of the mode."""
    K = E.mod('quickly.key')
    note = E.choice('note', range(7))
    alter = E.real('alter', -3, 3, den=2)
    named = E.choice('named', [True, False])
    if named:
        mode = K.alterations(E.choice('offset', range(7)))
    else:
        mode = [E.real('m%d' % i, -1, 1, den=4) for i in range(7)]
    E.cover("precondition")
    r = K.accidentals(note, alter, mode)
    E.prove("seven alterations", len(r) == 7)
    for i in range(7):
        n = (note + i) % 7
        above = SCALE[n] + r[n] - SCALE[note] - alter + (6 if n < note else 0)
        E.prove("the scale on the tonic has the step sizes of the mode", above == SCALE[i] + mode[i])


@unit('C05', 'alterations of the modes', functions=['key.alterations'], random_runs=300)
def u_alterations(E):
    K = E.mod('quickly.key')
    off = E.choice('offset', range(-7, 14))
    r = K.alterations(off)
    pat = mode_pattern(off % 7)
    E.prove("seven alterations", len(r) == 7)
    for i in range(7):
        E.prove("mode has the steps of the scale from the offset", E.eq(r[i] * 2 + SCALE[i] * 2, pat[i]))
    for name, o in MODES.items():
        E.prove("standard modes", K.mode_offset[name] == o)


@unit('C05', 'tonic, step for one more accidental', functions=['key.tonic'], random_runs=500)
def u_tonic(E):
    """tonic(n) for |n| <= 21 (bounded by two full circles of fifths; labelled so in the evidence)."""
    K = E.mod('quickly.key')
    sf = E.choice('sf', range(-21, 22))
    n, a = K.tonic(sf)
    r = K.accidentals(n, a)
    E.prove("exactly that many sharps or flats", E.eq(sum(r) * 2, sf))
    E.prove("only sharps, or only flats", E.And(*[x >= 0 if sf >= 0 else x <= 0 for x in r]))


class Times:
    """Ghost: range(n), for any n; k items were handed out."""
    def __init__(self, E, n):
        self.E, self.n, self.k = E, n, 0

    def __pv_iter__(self):
        return self
    __iter__ = __pv_iter__

    def havoc(self):
        self.k = core.SNum(self.E.fresh_int('items'), True)
        self.E.assume(self.k >= 0)

    def __next__(self):
        if self.k < self.n:
            self.k = self.k + 1
            return self.k - 1
        raise StopIteration


@unit('C05', 'tonic, any number of accidentals', functions=['key.tonic'], random_runs=0)
def u_tonic_any(E):
    """After k steps the major key on the tonic has k sharps (or flats): the
    seven notes in the order of the fifths, and seven accidentals for each
    alteration of a half tone."""
    K = E.mod('quickly.key')
    if not E.symbolic:
        return
    from pyvc.instr import LoopSpec
    sign = E.choice('sign', [1, -1, 0])
    sf = E.int('sf')
    E.assume(E.And(sf * sign > 0) if sign else sf == 0)
    fifths = lambda n: sum([(n == i) * f for i, f in enumerate((0, 2, 4, -1, 1, 3, 5))]) if isinstance(n, int) else \
        E.ite(n == 0, 0, E.ite(n == 1, 2, E.ite(n == 2, 4, E.ite(n == 3, -1, E.ite(n == 4, 1, E.ite(n == 5, 3, 5))))))
    times = []

    def range_(*a):
        if len(a) != 1:
            raise core.Unsupported("another range")
        times.append(Times(E, a[0]))
        return times[-1]
    E.patch(K, 'range', range_)

    def good(note, alter, k):
        return E.And(note >= 0, note <= 6, fifths(note) + 14 * alter == sign * k)

    def inv(loc):
        if 'note' not in loc or 'alter' not in loc or len(times) != 1:
            raise core.Unsupported("another way of counting")
        t = times[0]
        return [("as many accidentals as steps", good(loc['note'], loc['alter'], t.k)), ("no more steps than asked for", E.Or(t.k <= t.n, t.k == 0))]

    def fresh(name, v):
        if name == 'note':
            return core.SNum(E.fresh_int(name), True)
        return core.SNum(E.fresh_real(name), False) if core.is_num(v) else NotImplemented
    E.loop(LoopSpec('fifths', lambda site, loc: 'tonic' in site, inv, fresh=fresh, on_havoc=lambda loc: times[0].havoc(), for_only=True))
    E.cover("precondition")
    n, a = K.tonic(sf)
    E.prove("the tonic has exactly that many sharps or flats", good(n, a, sf * sign))


@unit('C05', 'number of accidentals of a tonic', functions=['key.accidentals', 'key._int'], random_runs=0)
def u_count(E):
    """The major key on any note and alteration has as many sharps (or flats) as its place in the circle of fifths."""
    K = E.mod('quickly.key')
    if not E.symbolic:
        return
    note = E.choice('note', range(7))
    x = E.int('half tones')
    alter = x / 2
    E.prove("_int() gives the same number", K._int(alter) == alter)
    E.patch(K, '_int', lambda value: value)
    E.cover("precondition")
    r = K.accidentals(note, alter)
    sf = (0, 2, 4, -1, 1, 3, 5)[note] + 14 * alter
    E.prove("that many sharps or flats", sum(r) * 2 == sf)
    for x in r:
        E.prove("only sharps, or only flats", E.Or(E.And(sf >= 0, x >= 0), E.And(sf <= 0, x <= 0)))


@bounded('C05', 'custom modes and flats', functions=['key.KeySignature'], quick=1500, thorough=30000,
         gen=lambda rng: dict(note=rng.randint(0, 6), alter=rng.choice([-1, -.5, 0, .5, 1]),
                              mode=[0] + [rng.choice([-.5, 0, 0, .5]) for _ in range(6)],
                              flats=[f for f in BLACK if rng.random() < .5], key=rng.randint(-5, 130)),
         rule='random key signature with a custom mode and random flats; all seven notes of the key and one random key number')
def b_custom(M, c):
    K = M.get('quickly.key')
    sig = K.KeySignature(c['note'], c['alter'], c['mode'])
    h = lambda n, a: int(semis(n, a))
    repr(sig)
    p = sig.pitch(c['key'], tuple(c['flats']))
    check(p.to_midi() == c['key'], "key %r reads as %r which sounds as %r", c['key'], p, p.to_midi())
    sig.flats = tuple(c['flats'])
    q = sig.pitch(c['key'])
    check(q == p, "flats attribute gives %r, argument gives %r", q, p)
    scale = {}
    for i in range(7):
        n = (c['note'] + i) % 7
        scale.setdefault(int(2 * (SCALE[i] + c['mode'][i]) + h(c['note'], c['alter'])) % 12, set()).add(n)
    for k in range(12):
        if k in scale:
            p = sig.pitch(60 + k, tuple(c['flats']))
            check(p.note in scale[k], "note %r not spelled as in the key", p)
    return True


def enum_keys(tier):
    i = 0
    for lang in ('nederlands', 'english', 'deutsch', 'norsk', 'svenska', 'suomi', 'italiano', 'español', 'português', 'catalan', 'vlaams', 'français', 'arabic'):
        for note in range(7):
            for alter in (-1, -.5, 0, .5, 1):
                for mode in sorted(MODES):
                    i += 1
                    if tier != 'quick' or i % 7 == 0:
                        yield dict(lang=lang, note=note, alter=alter, mode=mode, how=i // 7 % 3)


@bounded('C05', 'keys in documents', functions=['dom.lily.Key.key_signature', 'key.KeySignature'], enum=enum_keys,
         rule='a \\key command in every language with every tonic and standard mode (quick: one in seven), the mode also given by a variable')
def b_keys(M, c):
    K, P, R, L = M.get('quickly.key'), M.get('quickly.pitch'), M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    proc = P.PitchProcessor(c['lang'])
    try:
        name = proc.name_octave(P.Pitch(-1, c['note'], c['alter']))[0]
    except (KeyError, AttributeError):
        return False
    text = ['\\key %s \\%s' % (name, c['mode']), '{ c\'4 \\key %s %%{ x %%} \\%s d }' % (name, c['mode']), 'themode = \\%s\n{ \\key %s \\themode }' % (c['mode'], name)][c['how']]
    d = R.lily_document(text)
    keys = list(d // L.Key)
    check(len(keys) == 1, "%r has %d keys", text, len(keys))
    sig = keys[0].key_signature(proc)
    check(sig is not None and (sig.note, sig.alter, sig.mode) == (c['note'], c['alter'], c['mode']), "%r: the key signature is %r", text, sig)
    acc = sig.accidentals
    total = sum(acc) * 2
    want = (0, 2, 4, -1, 1, 3, 5)[c['note']] + 14 * c['alter'] - {0: 0, 1: 2, 2: 4, 3: -1, 4: 1, 5: 3, 6: 5}[MODES[c['mode']]]
    check(total == want, "%r has accidentals %r, should be %r in total", text, acc, want)
    return True

"""C03: pitch names read back to exactly the pitch that was written."""
import itertools
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = 'Proved per language for every nameable pitch, all 64 preference combinations and every octave (unbounded integer): the written name and marks, reading and writing nodes. Octave marks proved for every integer. The name tables come from parce. Text parsed by parce is checked at run time (bounded).'

LANGS = ['nederlands', 'arabic', 'catalan', 'català', 'deutsch', 'english', 'espanol', 'español', 'français', 'italiano',
         'norsk', 'persian', 'portugues', 'português', 'suomi', 'svenska', 'vlaams', 'bagpipe']
PREFS = ['prefer_long', 'prefer_accented', 'prefer_x', 'prefer_double_s', 'prefer_classic', 'prefer_deprecated']

preload = ['quickly.dom.lily']


def spec_preferred(language, names, pref):
    """Specification of the documented preferences: the acceptable names.

    A preference selects among the names; when none complies it is ignored.
    """
    def sel(names, p, f):
        s = [n for n in names if bool(f(n)) == bool(pref[p])]
        return s or names
    x = lambda n: n.endswith('x')
    classic = lambda n: n[:2] in ('es', 'as')
    if language == 'nederlands':
        names = sel(names, 'prefer_classic', classic)
    elif language == 'norsk':
        names = sel(names, 'prefer_double_s', lambda n: 'ss' in n)
        names = sel(names, 'prefer_classic', classic)
    elif language == 'english':
        names = sel(names, 'prefer_long', lambda n: '-' in n)
        names = sel(names, 'prefer_x', x)
    elif language == 'français':
        names = sel(names, 'prefer_accented', lambda n: 'é' in n)
        names = sel(names, 'prefer_x', x)
    elif language in ('espanol', 'español'):
        names = sel(names, 'prefer_x', x)
    elif language in ('catalan', 'català'):
        names = sel(names, 'prefer_deprecated', lambda n: n.endswith('s'))
    elif language == 'deutsch':
        names = sel(names, 'prefer_deprecated', lambda n: n in ('eeh', 'ases', 'aseh', 'aeh'))
    elif language == 'suomi':
        names = sel(names, 'prefer_deprecated', lambda n: n in ('ases', 'bb', 'heses'))
    return names


def table(language):
    from parce.lang.lilypond_words import pitch_names
    return pitch_names[language]


def pitches(language):
    return sorted({(n, a) for o, n, a in table(language).values()}, key=lambda t: (t[0], float(t[1])))


def processor(E, language, pref=None):
    p = E.mod('quickly.pitch').PitchProcessor(language)
    for k, v in (pref or {}).items():
        setattr(p, k, v)
    return p


def language_unit(language):
    @unit('C03', 'written names: ' + language, functions=['pitch.PitchProcessor.' + n for n in ('name_octave', 'pitch', 'to_string', '_suitable')],
          random_runs=60)
    def u(E):
        P = E.mod('quickly.pitch')
        T = table(language)
        octave = E.int('octave', big=6)
        n, a = E.choice('pitch', pitches(language))
        E.cover("precondition")
        for values in itertools.product([False, True], repeat=6):
            pref = dict(zip(PREFS, values))
            pp = processor(E, language, pref)
            name, marks = pp.name_octave(P.Pitch(octave, n, a))
            E.prove("the name is known", name in T)
            o1, n1, a1 = T[name]
            E.prove("name and marks are exactly the pitch", E.And(n1 == n, a1 == a, o1 + marks == octave))
            back = pp.pitch(name)
            E.prove("reads back", E.And(back.octave + marks == octave, back.note == n, back.alter == a))
            same = [m for m, v in T.items() if v == (o1, n, a)]
            E.prove("preferred spelling", name in spec_preferred(language, same, pref),
                    note=lambda: "%s %s %s" % (language, name, pref))
            # among names in several octaves, the nearest one
            for m, v in T.items():
                if v[1:] == (n, a):
                    E.prove("nearest octave", abs(octave - o1) <= abs(octave - v[0]))

    @unit('C03', 'notes in the music: ' + language, functions=['pitch.PitchProcessor.read_node', 'pitch.PitchProcessor.write_node',
          'pitch.PitchProcessor.process', 'pitch.PitchProcessor.pitchable', 'dom.lily.Pitchable.octave'], random_runs=60)
    def v(E):
        P = E.mod('quickly.pitch')
        L = E.mod('quickly.dom.lily')
        T = table(language)
        octave, newoct = E.int('octave', big=6), E.int('new octave', big=6)
        name = E.choice('name', sorted(T))
        E.cover("precondition")
        pp = processor(E, language)
        node = L.Note(name, octave=octave)
        note = lambda: [node.head, len(node)]
        p = pp.read_node(node)
        o, n, a = T[name]
        E.prove("pitch of the node", E.And(p.octave == o + octave, p.note == n, p.alter == a))
        E.prove("reading changes nothing", E.And(node.head == name, node.octave == octave))
        pp.write_node(node, p)
        E.prove("writing the own pitch keeps the spelling", E.And(node.head == name, node.octave == octave))
        with pp.process(node) as q:
            pass
        E.prove("processing without change keeps the spelling", E.And(node.head == name, node.octave == octave))
        with pp.process(node, write=False) as q:
            q.octave = newoct
            q.note = 0
        E.prove("not written when not requested", E.And(node.head == name, node.octave == octave))
        for n2, a2 in pitches(language)[::5] + [(n, a)]:
            with pp.process(node) as q:
                q.octave, q.note, q.alter = newoct, n2, a2
            E.prove("still a name of the language", node.head in T)
            o3, n3, a3 = T[node.head]
            E.prove("pitch written into the node", E.And(o3 + node.octave == newoct, n3 == n2, a3 == a2))
            E.prove("the pitch in the processor is not changed", E.And(q.octave == newoct, q.note == n2, q.alter == a2))
            new = pp.pitchable(q)
            o4, n4, a4 = T[new.head]
            E.prove("new note", E.And(o4 + new.octave == newoct, n4 == n2, a4 == a2))
        # the accidental, octave check and articulations are left
        node = L.Note(name, octave=octave, accidental='forced', oct_check=newoct)
        pp.write_node(node, P.Pitch(newoct, n, a))
        E.prove("other attributes stay", E.And(node.accidental == 'forced', node.oct_check == newoct, node.octave == newoct - o))


for _l in LANGS:
    language_unit(_l)


@unit('C03', 'octave marks', functions=['pitch.octave_to_string', 'pitch.octave_from_string'], random_runs=300)
def u_marks(E):
    m = E.mod('quickly.pitch')
    n = E.int('n', big=12)
    E.cover("precondition")
    s = m.octave_to_string(n)
    E.prove("read back", m.octave_from_string(s) == n)
    E.prove("only one kind of marks, as many as octaves", E.eq(s, n * "'" if n >= 0 else (-n) * ","))


def enum(tier):
    for lang in LANGS:
        for name in sorted(table(lang)):
            yield dict(kind='text', lang=lang, name=name)
            yield dict(kind='unknown', lang=lang, name=name + 'qq')


def gen(rng):
    lang = rng.choice(LANGS)
    return dict(kind='edit', lang=lang, name=rng.choice(sorted(table(lang))), octave=rng.randint(-4, 4), target=rng.choice(pitches(lang))[:1] and None,
                i=rng.randrange(1000), new=rng.randint(-4, 4), prefs=[rng.random() < .5 for _ in PREFS], acc=rng.choice(['', '!', '?']),
                chk=rng.choice(['', "=''", '=,', '=']), cls=rng.choice(['Note', 'Pitch', 'PitchedRest']))


@bounded('C03', 'text and nodes', enum=enum, gen=gen, quick=1500, thorough=40000, functions=['pitch.PitchProcessor', 'lang.lilypond'],
         rule='every name of every language in a document text, parsed; random edits of parsed notes with random preferences')
def b_text(M, c):
    P = M.get('quickly.pitch')
    read = M.get('quickly.dom.read')
    T = table(c['lang'])
    pp = P.PitchProcessor(c['lang'])
    if c['kind'] == 'unknown':
        try:
            pp.pitch(c['name'])
        except KeyError:
            pass
        else:
            check(False, "unknown name %r is read", c['name'])
        try:
            pp.language = c['lang'] + 'x'
        except KeyError:
            check(pp.language == c['lang'], "language changed")
            return True
        check(False, "unknown language accepted")
    if c['kind'] == 'text':
        for octave in range(-4, 5):
            o, n, a = T[c['name']]
            p = P.Pitch(octave, n, a)
            s = pp.to_string(p)
            doc = read.lily_document("\\language %s\n{ %s }" % ('"%s"' % c['lang'], s))
            notes = list(doc // M.get('quickly.dom.lily').Note)
            check(len(notes) == 1, "%r is not one note: %r", s, notes)
            q = pp.read_node(notes[0])
            check(q == p, "%r in %s reads as %r, not %r", s, c['lang'], q, p)
            check(doc.write().endswith("{ %s }" % s), "written as %r", doc.write())
        return True
    L = M.get('quickly.dom.lily')
    for k, v in zip(PREFS, c['prefs']):
        setattr(pp, k, v)
    ps = pitches(c['lang'])
    n, a = ps[c['i'] % len(ps)]
    marks = P.octave_to_string(c['octave'])
    if c['cls'] == 'PitchedRest':
        text = "{ %s%s%s%s4\\rest }" % (c['name'], marks, c['acc'], c['chk'])
    elif c['cls'] == 'Note':
        text = "{ %s%s%s%s8.-> }" % (c['name'], marks, c['acc'], c['chk'])
    else:
        text = "\\relative %s%s { }" % (c['name'], marks)
    if c['cls'] == 'PitchedRest' and False:
        return False
    doc = read.lily_document('\\language "%s" ' % c['lang'] + text)
    nodes = list(doc // L.Pitchable)
    check(len(nodes) == 1, "%r is not one pitch", text)
    node = nodes[0]
    q = pp.read_node(node)
    check((q.octave, q.note, q.alter) == (T[c['name']][0] + c['octave'],) + tuple(T[c['name']][1:]), "%r reads as %r", text, q)
    before = doc.write()
    with pp.process(node):
        pass
    check(doc.write() == before, "unchanged pitch changed the text %r to %r", before, doc.write())
    with pp.process(node) as q:
        q.octave, q.note, q.alter = c['new'], n, a
    text2 = doc.write()
    doc2 = read.lily_document(text2)
    nodes2 = list(doc2 // L.Pitchable)
    check(len(nodes2) == 1, "edited text %r", text2)
    q2 = pp.read_node(nodes2[0])
    check(q2 == P.Pitch(c['new'], n, a), "edited text %r reads as %r, not %r", text2, q2, P.Pitch(c['new'], n, a))
    check(nodes2[0].accidental == node.accidental and nodes2[0].oct_check == node.oct_check, "accidental or octave check changed")
    if (n, a) != tuple(T[c['name']][1:]):
        same = [m for m, v in T.items() if v == T[node.head]]
        check(node.head in spec_preferred(c['lang'], same, dict(zip(PREFS, c['prefs']))), "spelling %r not preferred", node.head)
    else:
        check(node.head == c['name'], "spelling changed")
    return True

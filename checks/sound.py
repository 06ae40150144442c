"""An independent interpreter for the pitches of a music tree.

It knows nothing of quickly.pitch.Pitch; pitch names come from the language
tables (whose laws are C03). Works on the tree the library parsed, but only
reads types, head values and children.
"""
from fractions import Fraction
from pyvc.bounded import check

OWN = ('Key', 'Inversion', 'AddInversion', 'Transposition', 'StringTuning')


class Item:
    """One pitch in the tree.

    kind: 'note' (sounds), 'check' (octave check command), 'start' (start pitch of \\relative),
    'ref' (of \\fixed), 'arg' (of \\transpose), 'own' (key, inversion, ...).
    pitch: (octave, note, alter); sounding for notes.
    """
    def __init__(self, node, kind, pitch, mode, where=None):
        self.node, self.kind, self.pitch, self.mode, self.where = node, kind, pitch, mode, where

    def __repr__(self):
        return '%s %r %s' % (self.kind, self.node.head, self.pitch)


def octave(L, n):
    for k in n:
        if isinstance(k, L.Octave):
            return k.head
    return 0


def nearest(last, note):
    """The octave of ``note`` (a step) that is nearest to the pitch ``last``."""
    pos = last[0] * 7 + last[1]
    best = [o for o in range(last[0] - 2, last[0] + 3) if abs(o * 7 + note - pos) <= 3]
    assert len(best) == 1
    return best[0]


class Interp:
    def __init__(self, M, first_absolute, language='nederlands'):
        self.L = M.get('quickly.dom.lily')
        self.B = M.get('quickly.dom.base')
        self.names = M.get('quickly.pitch').pitch_names
        self.first = first_absolute
        self.lang = language
        self.items = []
        self.base = {}      # octave of the names

    def run(self, node):
        self.walk(node, ('abs', 0))
        return self.items

    def raw(self, n):
        """(octave, note, alter) of the written pitch, and the octave of the name."""
        check(n.head in self.names[self.lang], "%r is no pitch name in %s", n.head, self.lang)
        o, note, alter = self.names[self.lang][n.head]
        return (o + octave(self.L, n), note, alter), o

    def add(self, n, kind, pitch, mode, where=None):
        self.items.append(Item(n, kind, pitch, mode, where))

    def note(self, n, mode, last):
        """Interpret a note; return its sounding pitch."""
        p, base = self.raw(n)
        self.base[id(n)] = base
        if mode[0] == 'abs':
            p = (p[0] + mode[1], p[1], p[2])
        else:
            p = (nearest(last, p[1]) + p[0] - base, p[1], p[2])
        self.add(n, 'note', p, mode[0])
        for k in n:
            self.walk(k, ('abs', 0))    # inversions, scores in markup
        return p

    def own(self, n):
        """Pitches with their own conventions."""
        L = self.L
        for k in n:
            if isinstance(k, L.Pitchable):
                self.add(k, 'own', self.raw(k)[0], 'own', type(n).__name__)
            else:
                self.language(k)
                self.own_below(k, type(n).__name__)

    def own_below(self, n, where):
        for k in n:
            if isinstance(k, self.L.Pitchable):
                self.add(k, 'own', self.raw(k)[0], 'own', where)
            else:
                self.own_below(k, where)

    def language(self, n):
        L = self.L
        if isinstance(n, L.Language) or isinstance(n, L.Include):
            for s in n:
                if isinstance(s, self.B.String) or hasattr(s, 'head'):
                    name = s.head
                    if isinstance(n, L.Include) and isinstance(name, str) and name.endswith('.ly'):
                        name = name[:-3]
                    elif isinstance(n, L.Include):
                        name = None
                    if name in self.names:
                        self.lang = name
                    break

    def walk(self, n, mode, last=None):
        """Interpret node n; return the last pitch in relative mode."""
        L = self.L
        self.language(n)
        if isinstance(n, L.Pitchable):
            return self.note(n, mode, last)
        if isinstance(n, tuple(getattr(L, c) for c in OWN)):
            self.own(n)
            return last
        if isinstance(n, L.Relative):
            kids = [k for k in n if not isinstance(k, self.B.Comment)]
            if len(kids) > 1 and isinstance(kids[0], L.Pitchable):
                start, _ = self.raw(kids[0])
                self.add(kids[0], 'start', start, 'own')
                kids = kids[1:]
            else:
                start = (-1, 3, 0) if self.first else (0, 0, 0)
            for k in kids:
                start = self.walk(k, ('rel', 0), start)
            return last
        if isinstance(n, (L.Absolute, L.Markup)):
            for k in n:
                self.walk(k, ('abs', 0))
            return last
        if isinstance(n, L.Fixed):
            off, seen = 0, False
            for k in n:
                if isinstance(k, L.Pitchable) and not seen:
                    p, _ = self.raw(k)
                    self.add(k, 'ref', p, 'own')
                    off, seen = p[0] + 1, True
                else:
                    self.walk(k, ('abs', off))
            return last
        if isinstance(n, L.Transpose):
            args = 0
            for k in n:
                if isinstance(k, L.Pitchable) and args < 2:
                    args += 1
                    self.add(k, 'arg', self.raw(k)[0], 'own')
                else:
                    self.walk(k, mode if mode[0] == 'abs' else ('abs', 0))
            return last
        if isinstance(n, L.OctaveCheck):
            for k in n:
                if isinstance(k, L.Pitchable):
                    p, _ = self.raw(k)
                    if mode[0] == 'abs':
                        p = (p[0] + mode[1],) + p[1:]
                    self.add(k, 'check', p, mode[0])
                    last = p
            return last
        if isinstance(n, L.Chord):
            first, prev = None, last
            for b in n:
                if isinstance(b, L.ChordBody):
                    for k in b:
                        if isinstance(k, L.Pitchable):
                            prev = self.note(k, mode, prev)
                            if first is None:
                                first = prev
                        else:
                            self.walk(k, mode, prev)
                else:
                    self.walk(b, mode, last)
            return last if first is None else first
        for k in n:
            last = self.walk(k, mode, last)
        return last


def height(pitch):
    """In whole tones."""
    return pitch[0] * 6 + (0, 1, 2, Fraction(5, 2), Fraction(7, 2), Fraction(9, 2), Fraction(11, 2))[pitch[1]] + pitch[2]


def frame(M, n):
    """Everything but the pitches: types, heads and children of the tree, with pitch names and octaves left out."""
    L = M.get('quickly.dom.lily')
    E = M.get('quickly.dom.element')
    if isinstance(n, L.Pitchable):
        return (type(n), [frame(M, k) for k in n if not isinstance(k, (L.Octave, L.OctCheck))])
    return (type(n), n.head if isinstance(n, E.TextElement) else None, [frame(M, k) for k in n])


# ------------------------------------------------------------------ random music

STEPS = 'cdefgab'


class MusicGen:
    """Random music with pitches, as text."""
    def __init__(self, rng, languages=('nederlands',), max_depth=4, own=True, relative=True, checks=True):
        self.rng, self.own, self.relative, self.checks = rng, own, relative, checks
        self.max_depth = max_depth
        self.languages = languages
        self.lang = 'nederlands'
        self.names = None

    def pitch(self, plain=False):
        r = self.rng
        import quickly.pitch as P
        key = (r.randrange(7), r.choice([0, 0, 0, .5, -.5] if plain else [0, 0, 0, 0, .5, -.5, .5, -.5, 1, -1]))
        reverse = P.pitch_names_reversed[self.lang]
        names = reverse.get(key) or reverse.get((key[0], 0)) or reverse[r.choice(sorted(reverse))]
        o = r.choice(sorted(names))
        return r.choice(names[o]) + r.choice(['', '', '', "'", "'", "''", ',', ",,", "'''"])

    def dur(self):
        return self.rng.choice(['', '', '4', '8', '2.', '1*2/3'])

    def note(self, plain=False):
        r = self.rng
        s = self.pitch() + r.choice(['', '', '', '', '!', '?'])
        if not plain:
            s += self.dur() + r.choice(['', '', '', '\\rest', '-.', '(', ')', '~', '^"c d"', '\\f', '-1'])
            if r.random() < .03:
                s += '^\\markup { x \\score { %s } }' % self.music(self.max_depth - 1)
        return s

    def music_markup(self):
        return self.rng.choice(['r', '<>', 's1']) + '^\\markup \\score { %s }' % self.music(self.max_depth - 1)

    def item(self, d, mode):
        r = self.rng
        k = r.random()
        if d >= self.max_depth or k < .5:
            k = r.random()
            if k < .7:
                return self.note()
            if k < .85:
                return '<' + ' '.join(self.note(True) for _ in range(r.choice([0, 1, 2, 2, 3, 3]))) + '>' + self.dur() + r.choice(['', '', '-.', '(', '^"x"'])
            if k < .9:
                return self.music_markup() if r.random() < .1 else r.choice(['r4', 's', 'R1', 'q', '|', '\\break', '\\time 3/4', '% c d\n', '%{ x %}', '\\stemUp', '\\foo', '\\clef bass', '\\tempo 4 = 60'])
            if k < .94 and self.checks:
                return '\\octaveCheck ' + self.pitch()
            if k < .97:
                return '\\key %s \\major' % self.pitch(True).rstrip("',")
            if len(self.languages) > 1 and r.random() < .5:
                self.lang = r.choice(self.languages)
                return r.choice(['\\language "%s"', '\\include "%s.ly"']) % self.lang
            return self.note()
        if k < .75:
            return self.list(d, mode)
        o = [lambda: '\\tuplet 3/2 ' + self.list(d, mode), lambda: '\\grace ' + self.list(d, mode), lambda: '\\repeat volta 2 ' + self.list(d, mode) + (' \\alternative { %s %s }' % (self.list(d + 1, mode), self.list(d + 1, mode)) if r.random() < .5 else ''),
             lambda: '\\new Voice ' + self.list(d, mode), lambda: '\\afterGrace ' + self.note() + ' { ' + self.note() + ' }', lambda: '\\context Staff = "c" << ' + self.item(d + 1, mode) + ' >>',
             lambda: '\\times 2/3 ' + self.list(d, mode), lambda: '\\drummode { bd4 sn }', lambda: '\\lyricmode { c d e }']
        if self.own:
            o += [lambda: '\\transposition ' + self.pitch(), lambda: '\\stringTuning <' + ' '.join(self.pitch() for _ in range(r.choice([1, 2, 4]))) + '>', lambda: '\\transpose ' + self.pitch(True) + ' ' + self.pitch(True) + ' ' + self.list(d, 'fixed' if mode == 'fixed' else 'abs')]
            if mode != 'fixed':     # whether outer \fixed applies to these is not defined here
                o += [lambda: '\\absolute ' + self.list(d, 'abs'), lambda: '\\fixed ' + self.pitch(True) + ' ' + self.list(d, 'fixed')]
            o += [lambda: '\\chordmode { ' + self.pitch() + '1:m7/' + self.pitch(True).rstrip("',") + r.choice([' ', ' %s:7/+%s ' % (self.pitch(), self.pitch(True).rstrip("',"))]) + '}']
        if self.relative:
            o += [lambda: self.rel(d)] * 3
        return r.choice(o)()

    def rel(self, d):
        r = self.rng
        return '\\relative ' + r.choice(['', self.pitch(True) + ' ', self.pitch(True) + ' ']) + r.choice([lambda: self.list(d, 'rel'), lambda: self.list(d, 'rel'), lambda: '\\new Voice ' + self.list(d, 'rel')])()

    def list(self, d, mode):
        r = self.rng
        a, b = r.choice([('{ ', ' }'), ('{ ', ' }'), ('{ ', ' }'), ('<< ', ' >>')])
        if a == '<< ' and r.random() < .5:
            return '<< ' + self.list(d + 1, mode) + ' \\\\ ' + self.list(d + 1, mode) + ' >>'
        return a + ' '.join(self.item(d + 1, mode) for _ in range(r.randint(0, 5))) + b

    def music(self, d=0):
        return self.rng.choice([lambda: self.list(d, 'abs'), lambda: self.list(d, 'abs'), lambda: self.rel(d) if self.relative else self.list(d, 'abs')])()

    def document(self):
        r = self.rng
        out = []
        if r.random() < .25:
            out.append('\\version "%s"' % r.choice(['2.16.2', '2.18', '2.18.0', '2.22.1', '2.4.10', '3.0.0', '2.17.97']))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if len(self.languages) > 1 and r.random() < .5:
                self.lang = r.choice(self.languages)
                out.append('\\language "%s"' % self.lang)
            out.append(r.choice(['', '', 'foo = ', '\\score { %s }', '\\new Staff ']))
            m = self.music()
            if '%s' in out[-1]:
                out[-1] = out[-1] % m
            else:
                out[-1] += m
        return '\n'.join(out)


def selected(M, text, c):
    """A parce document, its tree, a cursor with a selection and the nodes that are surely inside and outside."""
    import contextlib
    import io
    import parce
    M.get('quickly')
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        d = parce.Document(parce.find('lilypond'), text, transformer=True)
        x = d.get_transform(True)
    p, q = sorted((c['p'] * len(text) // 100, c['q'] * len(text) // 100))
    if out.getvalue() or p == q:
        return None
    nodes = list(x.descendants())
    inside = {id(n) for n in nodes if n.pos is not None and p <= n.pos and n.end <= q}
    outside = {id(n) for n in nodes if n.pos is not None and (n.end <= p or n.pos >= q)}
    return d, x, parce.Cursor(d, p, q), inside, outside

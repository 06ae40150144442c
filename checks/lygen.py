"""Random LilyPond text, shared by the bounded checks of several properties."""

PITCHES = ['c', 'd', 'e', 'f', 'g', 'a', 'b', 'cis', 'es', 'fis', 'bes', 'as', 'gisis', 'eses', 'deh', 'bih']
DURS = ['1', '2', '4', '8', '16', '32', '64', '\\breve', '\\longa']
STR = ['"abc"', '"a b"', '"q\\"x"', '"back\\\\slash"', '"é ü"', '""', '"{ c }"', '"% no"']
SCHEME = ['#t', '##f', "#'sym", '#3', '#-2.5', '#"str"', "#'(1 2 . 3)", '#(list 1 "a" #t)', '#(cons -1 1/2)', "#'((a . 1) (b . \"x\"))", '#(lambda (x) (+ x 1))',
          '#`(a ,b)', '#\'()', '#(define x 2)', '##{ { c4 d } #}', '#1/2', '#UP', '#(x-y->z? 1)', '#\'(a #(1 2))', '#red']


class Gen:
    def __init__(self, rng, max_depth=4, comments=True):
        self.rng, self.max_depth = rng, max_depth
        self.comments = comments

    def one(self, *options):
        return self.rng.choice(options)

    def maybe(self, p, s):
        return s if self.rng.random() < p else ''

    def ws(self):
        r = self.rng.random()
        if r < .75 or not self.comments:
            return self.one(' ', ' ', ' ', '\n', '\n  ', '  ', '\n\n', '\t')
        if r < .9:
            return ' '
        return self.one('\n% a comment\n', ' %{ block #} %}\n', '\n%% x { y\n  ', ' % trailing  \n', ' %%% more\n', '\n%%% own line\n', '\n%{ two \n lines  %}\n')

    def join(self, items):
        out = ''
        for i, s in enumerate(items):
            out += (self.ws() if i else '') + s
        return out

    def dur(self):
        d = self.one(*DURS) + '.' * self.one(0, 0, 0, 1, 2)
        return d + self.one('', '', '', '', '*2', '*2/3', '*1/2*3')

    def pitch(self):
        return self.one(*PITCHES) + self.one('', '', "'", "''", ',', ',,') + self.one('', '', '', '', '!', '?', "='")

    def art(self):
        return self.one('-.', '->', '-^', '--', '\\staccato', '^\\trill', '_\\fermata', '\\f', '\\pp', '\\<', '\\!', '\\>', '(', ')', '~', '[', ']', '\\(', '\\)',
                        '-1', '^2', '^"text"', '_\\markup { \\bold x }', '-\\markup \\italic "y"', ':32', '\\sustainOn', '\\glissando', '-\\tweak color #red ->',
                        '\\startTrillSpan', '^-')

    def arts(self):
        return ''.join(self.one('', '', '', self.art()) for _ in '12')

    def note(self):
        r = self.rng.random()
        if r < .6:
            return self.pitch() + self.maybe(.5, self.dur()) + self.arts()
        if r < .7:
            return self.one('r', 's', 'R', '\\skip ') + self.maybe(.1, ' %{ before #} %}\n') + self.dur() + self.arts()
        if r < .85:
            return '<' + ' '.join(self.maybe(.04, self.one("\\tag #'x ", '\\tweak color #red ', '\\tweak #\'a ##t ')) + self.pitch() for _ in range(self.one(1, 2, 3))) + '>' + self.maybe(.5, self.dur()) + self.arts()
        if r < .9:
            return 'q' + self.maybe(.5, self.dur())
        if r < .95:
            return self.pitch() + self.maybe(.5, self.dur()) + '\\rest' + self.maybe(.3, self.arts()) + self.maybe(.2, ' ' + self.dur())
        if r < .97:
            # after music only: a duration is an unpitched note
            return self.pitch() + self.maybe(.3, self.ws()) + self.dur() + self.arts() + ' ' + self.maybe(.3, "\\tag #'x ") + self.dur() + self.arts()
        return self.one('|', '\\break', '\\bar "|."', '\\\\', '\\oneVoice', '\\voiceOne', '\\noBreak')

    def items(self, d, n=5):
        return self.join([self.music(d) for _ in range(self.rng.randint(0, n))])

    def mlist(self, d):
        o, c = self.one(('{', '}'), ('{', '}'), ('{', '}'), ('<<', '>>'))
        body = self.items(d + 1)
        return o + self.ws() + body + (self.ws() if body else '') + c

    def music(self, d=0):
        r = self.rng.random()
        if d >= self.max_depth or r < .55:
            return self.note()
        if r < .65:
            return self.mlist(d)
        k = self.rng.randint(0, 23)
        m = lambda: self.mlist(d + 1)
        return [
            lambda: '\\relative ' + self.maybe(.6, self.one(*PITCHES) + self.one('', "'", ',') + ' ') + m(),
            lambda: '\\absolute ' + m(),
            lambda: '\\fixed c\' ' + m(),
            lambda: '\\transpose c %s ' % self.pitch().rstrip("!?='") + m(),
            lambda: '\\tuplet 3/2 ' + self.maybe(.3, '4 ') + m(),
            lambda: '\\times 2/3 ' + m(),
            lambda: '\\repeat %s %d ' % (self.one('volta', 'unfold', 'percent'), self.one(2, 3)) + m() + self.maybe(.4, ' \\alternative { %s %s }' % (m(), m())),
            lambda: self.one('\\grace ', '\\acciaccatura ', '\\appoggiatura ', '\\slashedGrace ') + self.one(self.pitch() + '8', m()),
            lambda: '\\afterGrace ' + self.pitch() + '1 { c16 d }',
            lambda: '\\time ' + self.one('3/4', '4/4', '6/8', '2,2,3 7/8'),
            lambda: '\\key ' + self.one('c', 'fis', 'bes') + ' ' + self.one('\\major', '\\minor', '\\dorian'),
            lambda: '\\clef ' + self.one('treble', '"bass"', 'bass', '"treble_8"'),
            lambda: '\\tempo ' + self.one('4 = 120', '"Allegro"', '"Vivo" 8. = 60', '4 = 60 - 72', '\\markup { \\bold x }'),
            lambda: '\\new ' + self.one('Staff', 'Voice', 'PianoStaff') + self.maybe(.4, ' = ' + self.one('"one"', 'two')) +
                    self.maybe(.3, ' \\with { \\consists "Foo_engraver" instrumentName = "V" fontSize = #-3 }') + ' ' + m(),
            lambda: '\\context Voice = "one" ' + m(),
            lambda: '\\set ' + self.one('Staff.instrumentName = "x"', 'tupletSpannerDuration = #(ly:make-moment 1 4)', 'Score.tempoHideNote = ##t'),
            lambda: '\\override ' + self.one("NoteHead.color = #red", "Staff.TimeSignature.style = #'()", 'Beam.positions = #\'(1 . 2)', 'Stem #\'length = #3'),
            lambda: self.one('\\revert NoteHead.color', '\\unset Staff.x', '\\once \\override Stem.direction = #UP', '\\tweak font-size #-2 ' + self.pitch(), '\\omit Staff.Clef', '\\hide Stem'),
            lambda: '\\lyricmode { la -- li __ lo4 ' + self.one('', '"two words"', '\\markup { x }', '_') + ' }',
            lambda: m() + ' \\addlyrics { one -- two }',
            lambda: self.one("\\tag #'a ", "\\keepWithTag #'b ", '\\removeWithTag "c" ') + m(),
            lambda: self.one('\\drummode { bd4 sn hh8 hh }', '\\chordmode { c1:m7 d2:maj7/f e:7.9- c/e 8 }', '\\figuremode { <6 4+>2 <_>4 }', '\\notemode { c d }'),
            lambda: '\\' + self.one('myMusic', 'foo', 'theme'),
            lambda: '\\shiftDurations #1 #0 ' + m(),
        ][k]()

    def markup(self, d=0):
        r = self.rng.random()
        if d > 3 or r < .4:
            return self.one('word', '"two words"', 'a.b', 'é', '#"scheme"', '\\char #65')
        if r < .6:
            return '{ ' + ' '.join(self.markup(d + 1) for _ in range(self.rng.randint(0, 3))) + ' }'
        return self.one('\\bold ', '\\italic ', '\\huge ', '\\with-color #red ', '\\fontsize #2 ', '\\concat ', '\\column ', '\\hspace #2 ', '\\raise #1.5 ', '\\box ') + self.markup(d + 1)

    def value(self):
        return self.one(*STR, '5', '12.5', '10\\mm', '##t', '#f', '\\markup { ' + self.markup() + ' }', self.one(*SCHEME), '#10', '#-3')

    def assignments(self, names, n=3):
        return self.join(['%s = %s' % (self.one(*names), self.value()) for _ in range(self.rng.randint(0, n))])

    def block(self):
        return self.one(
            lambda: '\\header { ' + self.assignments(['title', 'composer', 'my-field', 'tagline']) + ' }',
            lambda: '\\paper { ' + self.assignments(['indent', 'ragged-right', 'top-margin', 'system-system-spacing.basic-distance']) + ' }',
            lambda: '\\layout { ' + self.assignments(['indent', 'ragged-last']) + self.maybe(.5, ' \\context { \\Staff \\remove "X_engraver" fontSize = #2 }') + ' }',
            lambda: '\\score { ' + self.mlist(1) + self.maybe(.4, ' \\layout { }') + self.maybe(.3, ' \\midi { }') + self.maybe(.3, ' \\header { piece = "x" }') + ' }',
            lambda: '\\book { ' + self.maybe(.5, '\\bookpart { ' + self.mlist(2) + ' }') + ' }',
            lambda: '\\markup ' + self.one('{ ' + self.markup() + ' }', '"x"', '\\bold y'),
            lambda: '\\version "2.22.1"',
            lambda: '\\include "foo.ily"',
            lambda: '\\language "english"',
            lambda: '#(set-global-staff-size 18)',
            lambda: self.one(*SCHEME[-8:]),
        )()

    def command_music(self):
        """Music starting with a command or a chord (a bare note name would be read as a symbol)."""
        while True:
            m = self.music(2).replace('\\rest', '')
            if m[:1] in '\\{<':
                return m

    def assignment(self):
        return self.one('myMusic', 'foo', 'theme', 'a-b', 'x.y') + self.one(' = ', '=', ' =\n  ') + self.one(
            self.mlist, lambda d: self.command_music(), lambda d: self.value(), lambda d: '\\relative ' + self.mlist(2))(1)

    def document(self, n=5):
        out = []
        for _ in range(self.rng.randint(1, n)):
            r = self.rng.random()
            out.append(self.assignment() if r < .3 else self.block() if r < .6 else self.music(0) if r < .8 else self.mlist(0))
        return self.maybe(.1, '\n ') + self.join(out) + self.maybe(.5, '\n')

"""C13: values written as text read back."""
import math
import re
from fractions import Fraction

from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from checks.lygen import Gen

LEVEL = 'proof'
NOTE = ("proved: octaves and octave checks, whole numbers, fractions, scalings (one and two), durations, Scheme numbers that are whole or a ratio in every radix, booleans, all values of all command tables, "
        "quoted strings (for every character, with the contracts of re.sub and of parce's lexer), conversion between Python values and elements. Bounded: floating point and complex numbers, nested Scheme values, "
        "whole documents (nearly every element type, new values put into random elements, written plainly and indented; no text lost), every command with every kind of argument it takes, attributes of notes and commands. Only LilyPond and Scheme: LaTeX and HTML are not read completely. "
        "Not tried: negative lily numbers (known finding), whole numbers like durations directly after a music command, values that are no possible text of the element (e.g. a newline in a single line comment)")


def negative(M):
    """The known finding: negative numbers that are not in Scheme."""
    import io, contextlib
    R, L = M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    x = L.Document(L.Assignment(L.Identifier(L.Symbol('x')), L.EqualSign(), L.Int(-5)))
    with contextlib.redirect_stdout(io.StringIO()):
        y = R.lily_document(x.write())
    return not any(type(n) is L.Int and n.head == -5 for n in y.descendants())


PROBE = {'negative-number': negative}


# ---------------------------------------------------------------- the text of single values (proved)

class Tok:
    """A parce token (contract: its text is a part of the written text)."""
    pos = end = 0
    group = None

    def __init__(self, text, action=None):
        self.text = text
        self.action = action

    def __eq__(self, other):
        if isinstance(self.text, str) or not isinstance(other, str):
            return self.text == other
        # a text that starts with a symbolic number is not a delimiter
        return False

    def __ne__(self, other):
        return not self == other

    __hash__ = None


@unit('C13', 'octaves are written and read', functions=['dom.lily.Octave.write_head', 'dom.lily.Octave.read_head', 'dom.lily.OctCheck.write_head', 'dom.lily.OctCheck.read_head', 'pitch.octave_to_string', 'pitch.octave_from_string'], random_runs=200)
def u_octaves(E):
    L = E.mod('quickly.dom.lily')
    n = E.int('n', big=12)
    E.cover("precondition")
    if n != 0:
        E.prove("octave", L.Octave.read_head((Tok(L.Octave(n).write_head()),)) == n)
    w = L.OctCheck(n).write_head()
    E.prove("octave check: the delimiter", w[0] == '=')
    E.prove("octave check", L.OctCheck.read_head((Tok(w),)) == n)


@unit('C13', 'whole numbers and fractions are written and read', functions=['dom.lily.Number.write_head', 'dom.lily.Int.read_head', 'dom.lily.Fraction.write_head', 'dom.lily.Fraction.read_head', 'dom.lily.Int.check_head', 'dom.lily.Fraction.check_head'], random_runs=200)
def u_ints(E):
    L = E.mod('quickly.dom.lily')
    n, d = E.int('n', big=10 ** 6), E.int('d', 1, None, big=10 ** 6)
    E.cover("precondition")
    E.prove("a whole number is a possible value", L.Int.check_head(n))
    E.prove("whole number", L.Int.read_head((Tok(L.Int(n).write_head()),)) == n)
    E.prove("a pair is a possible value", L.Fraction.check_head((n, d)))
    a, b = L.Fraction.read_head((Tok(L.Fraction((n, d)).write_head()),))
    E.prove("fraction", E.And(a == n, b == d))
    E.prove("value of the fraction", L.Fraction((n, d)).fraction() * d == n)


def lex_scaling(w):
    """The tokens of a duration scaling (contract of parce): the asterisk, the number."""
    return [Tok('*'), Tok(w[1:])] if w[0] == '*' else None


@unit('C13', 'scalings are written and read', functions=['dom.lily.DurationScaling.__init__', 'dom.lily.DurationScaling.write_head', 'dom.lily.DurationScaling.read_head'], random_runs=200)
def u_scaling(E):
    L = E.mod('quickly.dom.lily')
    x = E.real('x', 0, None, den=None if E.symbolic else 12)
    y = E.real('y', 0, None, den=None if E.symbolic else 12)
    E.assume(x >= 0)
    E.assume(y >= 0)
    E.cover("precondition")
    F = E.mod('quickly.duration').fractions.Fraction
    w = L.DurationScaling(F(x)).write_head()
    if x == 1:
        E.prove("nothing is written for 1", E.eq(w, ''))
        return
    t = lex_scaling(w)
    E.prove("starts with an asterisk", t is not None)
    E.prove("scaling", L.DurationScaling.read_head(t) == x)
    if y != 1:
        t += lex_scaling(L.DurationScaling(F(y)).write_head())
        E.prove("two scalings", L.DurationScaling.read_head(t) == x * y)


@unit('C13', 'durations are written and read', functions=['dom.lily.Duration.write_head', 'dom.lily.Duration.read_head', 'dom.lily.Duration.__init__'], random_runs=300)
def u_durations(E):
    from checks.c01 import notatable, D, split_by_contract
    L, m = E.mod('quickly.dom.lily'), E.mod('quickly.duration')
    log, dots = notatable(E)
    x = D(E, log, dots)
    E.cover("precondition")
    split_by_contract(E, m, log, dots, x)
    w = L.Duration(m.fractions.Fraction(x)).write_head()
    E.prove("one mark per dot", w.count('.') == dots)
    # the tokens: the base length, and as many dots as there are
    E.prove("duration", m.from_string(w.rstrip('.'), w.count('.')) == x)


@unit('C13', 'durations are read from the tokens', functions=['dom.lily.Duration.read_head'], random_runs=300)
def u_duration_tokens(E):
    from checks.c01 import notatable, D, split_by_contract
    L, m = E.mod('quickly.dom.lily'), E.mod('quickly.duration')
    log, _ = notatable(E)
    dots = E.choice('number of dots', range(8))
    E.cover("precondition")
    x = D(E, log, dots)
    split_by_contract(E, m, log, dots, x)
    w = m.to_string(x)
    E.prove("read from the tokens", L.Duration.read_head([Tok(w.rstrip('.'))] + [Tok('.')] * dots) == x)


@unit('C13', 'Scheme numbers are written in every radix', functions=['dom.scm.Number.write_head', 'dom.scm.Number._write_real'], random_runs=300)
def u_numbers(E):
    S = E.mod('quickly.dom.scm')
    cls = getattr(S, E.choice('class', ['Number', 'Bin', 'Oct', 'Hex']))
    radix = {'Number': 10, 'Bin': 2, 'Oct': 8, 'Hex': 16}[cls.__name__]
    prefix = {10: '', 2: '#b', 8: '#o', 16: '#x'}[radix]
    ratio = E.choice('kind', ['int', 'ratio']) == 'ratio'
    x = E.real('x', den=None if E.symbolic else 60) if ratio else E.int('n', big=10 ** 6)
    x = x if E.symbolic else Fraction(x) if ratio else int(x)
    E.cover("precondition")
    w = cls(x).write_head()
    if prefix:
        E.prove("the prefix of the radix", w[0] == '#' and w[1] == prefix[1])
        w = w[2:]
    # reading (contract of parce's scheme_number): [-]digits[/digits] in the radix
    conv = E.mod('quickly.duration').fractions.Fraction
    num, *den = w.split('/')
    n, *d = [p.to_int(radix) if hasattr(p, 'to_int') else int(p, radix) for p in [num] + den]
    E.prove("a numerator, and at most a denominator", len(d) <= 1)
    if d:
        E.prove("no sign in the denominator", d[0] > 0)
        E.prove("the same ratio", x * d[0] == n)
    else:
        E.prove("the same number", x == n)


def subclasses(cls):
    for c in cls.__subclasses__():
        yield c
        yield from subclasses(c)


@unit('C13', 'tables of commands are one to one', functions=['dom.element.MappingElement.read_head', 'dom.element.MappingElement.write_head', 'dom.element.MappingElement.from_mapping', 'dom.element.MappingElement.check_head', 'dom.element.MappingElement.__init_subclass__',
                                                            'dom.element.ToggleElement.__init_subclass__', 'dom.lily.Spanner.__init_subclass__', 'dom.lily.Toggle', 'dom.lily.GrobStyle', 'dom.lily.GrobDirection'], random_runs=0)
def u_tables(E):
    """All values of all classes: the sets are finite."""
    E.mod('quickly.dom.lily')
    C = E.mod('quickly.dom.element')
    for cls in sorted(set(subclasses(C.MappingElement)), key=lambda c: c.__module__ + '.' + c.__name__):
        for text, value in list(cls.mapping.items()):
            name = '%s %r: ' % (cls.__name__, value)
            if not text or text[0] == '<' and text[-1] == '>':
                continue            # an abstract base class
            E.prove(name + "is a possible value", cls.check_head(value))
            w = cls(value).write_head()
            E.prove(name + "reads back", cls.read_head((Tok(w),)) == value)
            E.prove(name + "the text gives the value", E.And(cls.from_mapping(text).head == value, cls.read_head((Tok(text),)) == value))
            E.prove(name + "has its own text", w == text)
    E.cover("all of them")


@unit('C13', 'Scheme booleans', functions=['dom.scm.Bool.read_head', 'dom.scm.Bool.write_head'], random_runs=20)
def u_bool(E):
    S = E.mod('quickly.dom.scm')
    b = E.bool('value')
    E.cover("precondition")
    w = S.Bool(b).write_head()
    E.prove("boolean", E.eq(S.Bool.read_head((Tok(w),)), b))
    E.prove("all spellings", S.Bool.read_head((Tok('#T'),)) is True and S.Bool.read_head((Tok('#F'),)) is False)


@unit('C13', 'values to elements and back', functions=['dom.lily.create_element_from_value', 'dom.lily.create_value_from_element', 'dom.lily.get_num_value', 'dom.lily.get_int_value', 'dom.scm.create_element_from_value'], random_runs=100)
def u_convert(E):
    L, S = E.mod('quickly.dom.lily'), E.mod('quickly.dom.scm')
    n = E.int('n', big=10 ** 9)
    E.cover("precondition")
    e = L.create_element_from_value(n)
    E.prove("whole number", E.And(type(e) is L.Int, e.head == n, L.create_value_from_element(e) == n, L.get_num_value(e) == n, L.get_int_value(e) == n))
    for u in ('mm', 'cm', 'in', 'pt'):
        e = L.create_element_from_value((n, u))
        v = L.create_value_from_element(e)
        E.prove("whole number with unit " + u, E.And(type(e) is L.Int, e.head == n, v[0] == n, v[1] == u))
    for b in (True, False):
        e = L.create_element_from_value(b)
        E.prove("boolean %s" % b, type(e) is L.Scheme and type(e[0]) is S.Bool and L.create_value_from_element(e) is b)
    t = E.choice('text', ['', 'x', 'a "b" \\c'])
    e = L.create_element_from_value(t)
    E.prove("text", type(e) is L.String and L.create_value_from_element(e) == t)
    d = E.int('d', 1, None, big=100)
    E.prove("fraction", L.create_value_from_element(L.Fraction((n, d))) * d == n)
    e = S.create_element_from_value(n)
    E.prove("Scheme number", E.And(type(e) is S.Number, e.head == n, L.create_value_from_element(L.Scheme('#', e)) == n, L.get_int_value(L.Scheme('#', S.create_element_from_value(n))) == n))
    # lists and pairs
    for k in range(4):
        items = [n + i for i in range(k)]
        e = S.create_element_from_value(items)
        E.prove("list of %d" % k, E.And(type(e) is S.List, len(e) == k, *[E.And(type(x) is S.Number, x.head == i) for x, i in zip(e, items)]))
        if k > 1:
            e = S.create_element_from_value(tuple(items))
            E.prove("pair of %d" % k, E.And(type(e) is S.List, len(e) == k + 1, type(e[-2]) is S.Dot, *[x.head == i for x, i in zip(e[:-2] + e[-1:], items)]))


@unit('C13', 'the text of strings', functions=['dom.base.String.write_head', 'dom.base.String.read_head'], random_runs=0)
def u_strings(E):
    """For every string: re.sub with a pattern for one character works on
    every character on its own (contract of re.sub), so does the lexer in a
    quoted string (contract of parce); so all characters are tried."""
    import re
    B = E.mod('quickly.dom.base')
    L, S = E.mod('quickly.dom.lily'), E.mod('quickly.dom.scm')
    import parce.action as a
    seen = []
    try:
        from re import _parser
    except ImportError:
        import sre_parse as _parser

    class Re:
        def __getattr__(self, name):
            return getattr(re, name)

        def sub(self, pattern, repl, string, *args, **kw):
            p = _parser.parse(pattern)
            if args or kw or p.getwidth() != (1, 1) or any(str(op) in ('AT', 'ASSERT', 'ASSERT_NOT') for op, _ in p):
                raise core.Unsupported("substitution of more than single characters")
            seen.append(pattern)
            return re.sub(pattern, repl, string)
    E.assumed("re.sub with a pattern that matches exactly one character works on every character independently; parce's lexer for quoted strings: a backslash and the next character are one escape token, other characters are text up to the next quote")
    E.patch(B, 're', Re())
    L.String('xy').write_head()
    if not seen:
        raise core.Unsupported("the escaping is not done by re.sub")
    wrong, bad = [], []
    for n in range(0x110000):
        c = chr(n)
        w = L.String(c).write_head()
        tokens, i, inner = [Tok('"')], 0, w[1:-1]
        ok = w[:1] == '"' and w[-1:] == '"'
        while i < len(inner):
            if inner[i] == '\\':
                tokens.append(Tok(inner[i:i + 2], a.String.Escape))
                ok = ok and i + 1 < len(inner)
                i += 2
            else:
                ok = ok and inner[i] != '"'
                tokens.append(Tok(inner[i], a.String))
                i += 1
        tokens.append(Tok('"'))
        if not ok:
            bad.append(n)
        elif L.String.read_head(tokens) != c:
            wrong.append(n)
    E.prove("no character ends the string or is left without its escape", not bad)
    E.prove("every character is read back", not wrong)
    E.prove("the texts of the characters one after the other", L.String('a"b\\c\nd').write_head() == '"%s"' % ''.join(L.String(c).write_head()[1:-1] for c in 'a"b\\c\nd'))
    E.prove("Scheme strings too", S.String.write_head is L.String.write_head and S.String.read_head.__func__ is L.String.read_head.__func__)
    E.cover("all characters")


# ---------------------------------------------------------------- documents (bounded)

MUSIC = ['\\transpose c d e4', 'c\\foo-. d\\foo ^"x"_\\markup q', "\\tag #'a \\foo", "\\tag #'a -> c", '<c-. \\foo -1 e>', '\\tweak color #red \\foo', "\\shape #'((0 . 0)) Slur \\foo", '\\foo\\=1( d\\=1)', "\\relative c' d4", '\\fixed c d8', '\\absolute d8', '\\times 2/3 d4', '\\grace d8', '\\tuplet 3/2 4 { c }', '\\repeat unfold 2 d4', '\\partial 4 \\[ c d \\]', '\\ottava 1 %{ x %} c', '\\new Staff d4', '\\transposition bes d', '\\addQuote "x" { c }', '\\after 4 \\f c', '\\applyContext #(foo)', '\\applyMusic #f { c }', '\\applyOutput Voice.NoteHead #f', 'c4\\arpeggio', '\\breathe', '\\change Staff = "x"',
         '\\mark \\default', "\\label #'a", '\\mark 5', '\\mark "A"', 'c4\\laissezVibrer', '\\[ c4 d \\]', 'c4\\melisma d\\melismaEnd', "\\octaveCheck c'", '\\ottava 1', '\\ottava #-1',
         '\\pageBreak', '\\noPageBreak', '\\pageTurn', '\\noPageTurn', '\\partcombine { c } { d }', '\\partial 4', '\\partial 8*3', 'c4 \\~ d', "\\pushToTag #'a { c } { d }",
         '\\quoteDuring "x" { s1 }', 'c4\\repeatTie', '\\scaleDurations 2/3 { c }', '\\sequential { c }', '\\simultaneous { c d }', "\\shape #'((0 . 0)) Slur", '\\slashedGrace c8', 'c4\\=1( d4\\=1)',
         "\\tagGroup #'(a b)", '\\temporary \\override Stem.length = #1', 'c4\\startTextSpan d\\stopTextSpan', '\\transposition bes', '\\undo \\override Stem.x = #1', '\\unfoldRepeats { c }',
         '\\unfolded { c }', '\\volta 1,2 { c }', '\\stemUp', '\\dotsNeutral', '\\tieDashed', '\\slurHalfSolid', '\\inStaffSegno', '\\time 2,2,3 7/8', '\\time 3/4', '\\tempo 4. = 100', '\\tempo "x" 2 = 60',
         'c4-\\tweak color #red ->', 'c4-1^2_3', '<c-1 e-3>4', '\\repeat volta 2 { c } \\alternative { { d } { e } }', '\\tuplet 3/2 { c }', '\\times 2/3 { c }', 'c=4', "c'=''?4", 'c!8..', 'd?2', 'c4:32', 'c:8 d:',
         "\\key d \\minor", '\\clef "treble_8"', 'r4 s2 R1*4', "c4*2/3 d4*3", '\\skip 4', '\\skip 2*2/3', '\\grace { c8 }', "c4^\\markup { x }", 'c4-"text"', 'c4_#"scheme"', '<c e>2.~ <c e>', 'q4',
         '\\set Staff.fontSize = 3', '\\set Staff.x = 1.5', '\\override Staff.Clef.x = 2', "\\override Stem.x = #'(1 . 2)", '\\tweak font-size 3 c4', '\\omit Clef', '\\bar "||"', '\\voices 1,2 << c d >>',
         '\\absolute { c }', '\\acciaccatura c8', '\\afterGrace c { d }', '\\afterGrace 3/4 c { d }', "\\appendToTag #'a { c } { d }", '\\appoggiatura c8', 'c8[ d]', '\\fixed c { c }', 'c4\\glissando d', '\\slurDashPattern 0.7 0.75', '\\hide Stem',
         "\\keepWithTag #'a { c }", '\\context Voice = "x" { c }', '\\new Staff \\with { \\consists "X" \\remove "Y" } { c }', '\\once \\override Stem.x = #1', 'c4\\( d\\)', 'c | d', "a'\\rest", "\\removeWithTag #'a { c }", '\\revert Stem.x',
         '\\shiftDurations #1 #0 { c }', '\\stringTuning <c e>', "\\tag #'a { c }", '\\autoBeamOff', '\\transpose c d { c }', 'c\\startTrillSpan d\\stopTrillSpan', '8. 4 2*3', '\\unset x', '\\vshape #\'((0 . 0)) Slur', '\\voiceTwo', '\\voiceFive', '<< c \\\\ d >>', '\\tieHalfSolid',
         '\\notemode { c }', '\\mark 8', '\\foo', '\\foo.bar', "\\key bes \\major"]
TOP = ['\\chordmode { c:7^3.5 c2/+f d:m7/g e:maj }', '\\chordmode { c:5+.7- d4:m5- e:7.9+^5 f:sus4.6 }', '{ c4 s1*0 }', '\\figuremode { <6\\+ [5 3!]>4 <6/ 5\\\\> <4\\!> <_ 3+> <2-- 1++> }', '\\layout { \\context { \\Staff \\name "X" \\alias Staff \\accepts "V" \\denies "L" \\defaultchild "V" } }',
       '\\markup { \\score { c } a }', 'foo = \\relative \\etc', '\\paper { a = 10\\mm b = 2.5\\cm c.d.e = 3 f = "s" }', '\\header { title = "a" }', '#(a #! foo !# b)', '#(a ; foo\n b)', '#(1 -2 3/4 -5/6 1.5 -2e10 1+2i #xff #b-101 #o17 +inf.0 #t #f)',
       "#(\"a\" #\\a #\\space '(b . c) `(d ,e ,@f) #(1 2))", 'x = 5', 'x = 1.5', 'x = 3/4', 'x = "s"', 'x = #"s"', '% comment\n', '%{ block %}', '\\lyricmode { a4 -- b __ "c"8. _ \\markup x }', '\\drummode { bd4 <sn hh>8 }',
       '\\markup { \\bold "x" #"y" \\fontsize #3 z }', '\\version "2.24.0"', '\\language "english"', '\\include "x.ily"', '##{ c4 #}', 'x = ##t', 'x = #-3', 'x.1.y = 7', '"a b".c = 3', '\\tweak font-size 3 c4', '\\book { \\bookpart { \\score { { c } \\layout { } \\midi { } } } }', '\\markup { \\score-lines { { c } } }', '\\markuplist { a "b" }', '\\layout { \\context { \\Staff \\consists "X" \\remove "Y" x = 3 } }']
BITS = ['a', 'b', 'Z', '"', '"', '\\', '\\', '\n', ' ', '  ', '\t', "'", '%', '%{', '%}', '{', '}', '#', ';', 'é', '\u266d', '\\"', '\\\\', '\\n', '(', ')', '0', '|', '<<', '>>', '\U0001d11e', '&', '~']


def text(rng, bits=BITS, n=8):
    return ''.join(rng.choice(bits) for _ in range(rng.randint(0, n)))


def number(rng, kinds):
    """A value: [kind, ...] for a number, of one of the kinds."""
    k = rng.choice(kinds)
    n = lambda: rng.choice([0, 1, 2, 3, 7, 8, 10, 15, 16, 255, 1000, rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 30)])
    sign = rng.choice([1, -1])
    if k == 'uint':
        return ['int', n()]
    if k == 'int':
        return ['int', sign * n()]
    if k in ('ratio', 'uratio'):
        return ['ratio', (sign if k == 'ratio' else 1) * n(), n() + 1]
    f = lambda: rng.choice([0.0, 0.5, 1.0, 1.5, 0.1, 1 / 3, 2.0 ** -30, 1e22, 1e-9, 5e-324, 1e308, 123456789.125, rng.random(), rng.random() * 10 ** rng.randint(-20, 20)])
    if k == 'ufloat':
        return ['float', f()]
    if k == 'float':
        return ['float', sign * f()]
    if k == 'special':
        return ['special', rng.choice(['inf', '-inf', 'nan'])]
    g = lambda: rng.choice(['inf', '-inf', 'nan', sign * f(), sign * f(), sign * float(n()), f()])
    return ['complex', g(), g()]


def value(v):
    if v[0] == 'int':
        return v[1]
    if v[0] == 'ratio':
        return Fraction(v[1], v[2])
    if v[0] in ('float', 'special'):
        return float(v[1])
    return complex(float(v[1]), float(v[2]))


def same(a, b):
    """The same value (NaN is the same as NaN)."""
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def alike(a, b):
    """The same types, values and children."""
    if type(a) is not type(b) or len(a) != len(b) or not same(getattr(a, 'head', None), getattr(b, 'head', None)):
        return False
    return all(map(alike, a, b))


def values(rng):
    """Material for new values: a seed for each kind."""
    return dict(text=text(rng), comment=text(rng, [b for b in BITS if '}' not in b and '{' not in b]), uint=number(rng, ['uint'])[1], uratio=number(rng, ['uratio'])[1:], ufloat=number(rng, ['ufloat'])[1],
                num=number(rng, ['int', 'int', 'ratio', 'float', 'special', 'complex']), octave=rng.choice([1, 2, 3, -1, -2, -5, 12]), log=rng.randint(-3, 10), dots=rng.choice([0, 0, 1, 2, 5]), pick=rng.randint(0, 10 ** 6),
                flag=rng.random() < .5)


def gen(rng):
    g = Gen(rng, max_depth=rng.choice([1, 2, 3]), comments=rng.random() < .4)
    r = rng.random()
    if r < .35:
        t = g.document(rng.choice([1, 2, 4]))
    elif r < .7:
        t = '{ ' + g.join([rng.choice([rng.choice(MUSIC), rng.choice(MUSIC), g.note()]) for _ in range(rng.randint(1, 5))]) + ' }'
    else:
        t = g.join([rng.choice([rng.choice(TOP), rng.choice(TOP), '{ %s }' % rng.choice(MUSIC)]) for _ in range(rng.randint(1, 3))])
    return dict(text=t, changes=[(rng.randint(0, 9999), values(rng)) for _ in range(rng.choice([0, 1, 1, 2, 5, 20]))])


CHARS = ['a', 'Z', '(', ')', '"', '\\', ';', '#', '%', 'space', 'newline', 'tab', 'nul', '0', "'"]


def change(L, S, B, n, v, comments):
    """Give the node another value of its type; False if there is none."""
    if isinstance(n, L.FigureStep):
        n.head = v['uint']
    elif isinstance(n, L.Step):
        n.head = 1 + v['pick'] % 20
        if not len(n) and v['flag']:
            n.append(L.Alteration('+-'[v['pick'] % 2]))
    elif isinstance(n, L.Int):
        if comments:
            return False            # where the comment goes depends on whether the number is like a duration
        n.head = v['uint'] * (1 if isinstance(n.parent, (L.Set, L.Override, L.Tweak)) else 3)      # elsewhere 1, 2, 4, 8 ... are durations in music
    elif isinstance(n, L.Fraction):
        n.head = tuple(v['uratio'])
    elif isinstance(n, L.Float):
        n.head = v['ufloat']
    elif isinstance(n, (L.Octave, L.OctCheck)):
        n.head = v['octave']
    elif isinstance(n, L.Duration):
        if any(isinstance(a, L.Tremolo) for a in n.ancestors()):
            n.head = Fraction(1, 2 ** (4 + v['log'] % 5))       # only durations like those are possible
            return True
        n.head = Fraction(2 ** (v['dots'] + 1) - 1, 2 ** v['dots']) / Fraction(2) ** v['log']
    elif isinstance(n, L.DurationScaling):
        f = Fraction(*v['uratio'])
        if f == 1:
            return False
        n.head = f
    elif isinstance(n, B.String):
        n.head = v['text']
    elif isinstance(n, B.Comment):
        single = isinstance(n, B.SinglelineComment)
        n.head = (' ' + v['comment'].replace('\n', ' ')) if single else ' %s ' % v['comment']
    elif isinstance(n, S.Char):
        n.head = CHARS[v['pick'] % len(CHARS)]
    elif isinstance(n, (S.Bool,)):
        n.head = v['flag']
    elif isinstance(n, S.NaN):
        return False
    elif isinstance(n, S.Number):
        n.head = value(v['num'])
    elif type(n) in (L.Accidental, L.Direction, L.Unit, L.Toggle, L.GrobDirection, L.GrobStyle, L.Slur, L.PhrasingSlur, L.Beam, L.TextSpanner, L.TrillSpanner, L.FigureAccidental, L.FigureAlteration, L.PageTurn, L.PageBreak, L.Break):
        heads = sorted(type(n).mapping.values(), key=repr)
        n.head = heads[v['pick'] % len(heads)]
    else:
        return False
    return True


@bounded('C13', 'values in documents', gen=gen, quick=6000, thorough=200000, seconds=60,
         functions=['dom.element.Element.write', 'dom.element.TextElement.from_origin', 'dom.lily.*.write_head', 'dom.lily.*.read_head', 'dom.scm.*.write_head', 'dom.scm.*.read_head', 'dom.base.String.write_head'],
         rule='random documents with (nearly) every element type, and new values given to random elements; the tree read from the written text is the same tree')
def b_docs(M, c):
    import io, contextlib
    R, L, S, B = (M.get('quickly.dom.' + n) for n in ('read', 'lily', 'scm', 'base'))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x = R.lily_document(c['text'])
    if out.getvalue():
        return False
    if '-2e10' not in c['text'] and not re.search("=[',]*[?!]", c['text']):
        # what is not written in another way, is kept
        a, b = (re.sub(r'\s+', '', t).replace('*1/2*3', '*3/2') for t in (c['text'], x.write()))
        check(a == b, "text is lost: %r was written as %r", c['text'], b)
    nodes = list(x.descendants())
    changed = 0
    for i, v in c['changes']:
        if nodes:
            changed += change(L, S, B, nodes[i % len(nodes)], v, '%' in c['text'])
    for how in ('write', 'write_indented'):
        w = getattr(x, how)()
        with contextlib.redirect_stdout(out):
            y = R.lily_document(w)
        check(alike(x, y), "%s: reads back differently: %r", how, w)
        check(x.equals(y) and y.equals(x), "%s: the trees differ: %r", how, w)
    return changed > 0 or not c['changes']


# ---------------------------------------------------------------- values built in code (bounded)

TEMPLATES = ['{ %s c4 }', '{ c4%s }', '{ c%s4 }', '\\paper { a = 3%s }', '\\figuremode { <3%s>4 }', '{ c4%s1 }', '{ c4%s"x" }', '{ c4-%s }']


def nested(rng, depth=3):
    r = rng.random()
    if depth and r < .35:
        return [rng.choice(['list', 'pair', 'list', 'quote', 'qq', 'uq', 'vector']), [nested(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]]
    if r < .55:
        return ['str', text(rng)]
    if r < .65:
        return ['bool', rng.random() < .5]
    if r < .75:
        return ['id', rng.choice(['a', 'foo-bar', 'list->vector', '+', 'x?', 'set!'])]
    if r < .8:
        return ['char', rng.choice(CHARS)]
    return [rng.choice(['Number', 'Number', 'Bin', 'Oct', 'Hex']), number(rng, ['int', 'int', 'ratio', 'float', 'special', 'complex'])]


def build(S, v):
    k, x = v
    if k == 'str':
        return S.s(x)
    if k == 'bool':
        return S.s(x)
    if k == 'id':
        return S.i(x)
    if k == 'char':
        return S.Char(x)
    if k in ('Number', 'Bin', 'Oct', 'Hex'):
        x = value(x)
        return S.s(x) if k == 'Number' and not isinstance(x, complex) else getattr(S, k)(x)
    items = [build(S, i) for i in x]
    if k in ('quote', 'qq', 'uq'):
        return getattr(S, {'quote': 'q'}.get(k, k))(items[0] if items else [])
    if k == 'vector':
        return S.Vector(*items)
    if k == 'pair' and len(items) > 1:
        return S.p(*items)
    return S.s(items)


def enum_values(tier):
    import itertools
    for n in range(4 if tier == 'quick' else 5):
        for t in itertools.product('"\\n\na%', repeat=n):
            yield dict(kind='str', text=''.join(t))
    for n in range(0, 0x110000, 4096):
        yield dict(kind='chars', start=n)
    yield dict(kind='commands')
    for q in (*range(1, 65), 96, 100, 128, 144, 192, 256, 500, 512, 768, 1000, 1024) if tier == 'quick' else range(1, 1025):
        yield dict(kind='scalings', den=q)


def gen_values(rng):
    if rng.random() < .7:
        return dict(kind='scheme', value=nested(rng), how=rng.choice(['lily', 'scheme']))
    return dict(kind='value', value=rng.choice([number(rng, ['uint', 'ufloat', 'uratio']), number(rng, ['uint', 'ufloat', 'uratio']), ['str', text(rng)], ['bool', rng.random() < .5]]), unit=rng.choice([None, None, 'mm', 'cm', 'in', 'pt']),
                where=rng.choice(['assignment', 'set', 'override', 'paper']))


@bounded('C13', 'values built in code', gen=gen_values, enum=enum_values, quick=3000, thorough=100000, seconds=60,
         functions=['dom.lily.create_element_from_value', 'dom.lily.create_value_from_element', 'dom.scm.create_element_from_value', 'dom.scm.Number.write_head', 'dom.base.String', 'dom.lily.Float.write_head', 'dom.element.Element.write'],
         rule='every command of every table in a document; all strings of up to 3 (thorough: 4) characters out of 6 and all code points; random numbers, strings and nested Scheme values; the text is read by the real reader')
def b_values(M, c):
    import io, contextlib
    R, L, S, C = (M.get('quickly.dom.' + n) for n in ('read', 'lily', 'scm', 'element'))

    def read(text, how='lily_document'):
        with contextlib.redirect_stdout(io.StringIO()):
            return getattr(R, how)(text)
    if c['kind'] == 'commands':
        for cls in sorted(set(subclasses(C.MappingElement)), key=lambda k: k.__name__):
            if cls.__module__ != 'quickly.dom.lily':
                continue
            for t, v in cls.mapping.items():
                if t and t[0] == '<' and t[-1] == '>':
                    continue
                w = cls(v).write()
                check(any(type(n) is cls and n.head == v for p in TEMPLATES for n in read(p.replace('%s', w)).descendants()), "%s %r is not read back from %r", cls.__name__, v, w)
        return True
    if c['kind'] == 'scalings':
        for n in range(1, 3 * c['den'], 1 + c['den'] // 20):
            f = Fraction(n, c['den'])
            for x in (f, n / c['den']) + ((int(f),) if f.denominator == 1 else ()):
                s = L.DurationScaling(x)
                check(s.head == f, "the scaling %r is taken as %r", x, s.head)
            if f != 1:
                y = read(L.Document(L.MusicList(L.Note('c', L.Duration(Fraction(1, 4), s)))).write())
                check([x.head for x in y.descendants() if type(x) is L.DurationScaling] == [f], "the scaling %r is not read back", f)
        return True
    if c['kind'] in ('str', 'chars'):
        texts = [c['text']] if c['kind'] == 'str' else [''.join(map(chr, range(c['start'], c['start'] + 4096)))]
        for t in texts:
            x = L.Document(L.Assignment(L.Identifier(L.Symbol('x')), L.EqualSign(), L.create_element_from_value(t)), L.Scheme('#', S.s(t)))
            y = read(x.write())
            check(alike(x, y) and y[0][2].head == t and y[1][0].head == t, "the string %r is not read back from %r", t[:100], x.write()[:300])
        return True
    if c['kind'] == 'scheme':
        e = build(S, c['value'])
        if c['how'] == 'lily':
            x = L.Document(L.Scheme('#', e))
            y = read(x.write())
        else:
            x = S.Document(e)
            y = read(x.write(), 'scm_document')
        check(alike(x, y), "reads back differently: %r", x.write())
        check(x.equals(y) and y.equals(x), "the trees differ: %r", x.write())
        return True
    k, v = c['value'][0], c['value'][1]
    if k in ('str', 'bool'):
        arg = v
    else:
        arg = value(c['value'])
    if k == 'ratio':
        e = L.Fraction(tuple(c['value'][1:]))
        want = arg
    else:
        if k == 'int' and c['where'] == 'assignment':
            arg *= 3
        want = arg
        if c['unit'] and k in ('int', 'float') and c['where'] == 'paper':
            want = (arg, c['unit'])
            arg = want
        e = L.create_element_from_value(arg)
    sym, eq = L.Symbol('abc'), L.EqualSign()
    if c['where'] == 'assignment':
        x = L.Document(L.Assignment(L.Identifier(sym), eq, e))
    elif c['where'] == 'set':
        x = L.Document(L.MusicList(L.Set(sym, eq, e), L.Note('c')))
    elif c['where'] == 'override':
        x = L.Document(L.MusicList(L.Override(L.List(L.Symbol('Stem'), L.Separator('.'), sym), eq, e), L.Note('c')))
    else:
        x = L.Document(L.Paper(L.Assignment(L.Identifier(sym), eq, e)))
    for w in (x.write(), x.write_indented()):
        y = read(w)
        check(alike(x, y), "reads back differently: %r", w)
        got = [L.create_value_from_element(n) for n in y.descendants() if type(n) is type(e)]
        check(got and same_value(got[0], want), "%r is not %r, from %r", got, want, w)
    return True


def same_value(a, b):
    return same(a[0], b[0]) and a[1] == b[1] if isinstance(a, tuple) and isinstance(b, tuple) else same(a, b)


# ---------------------------------------------------------------- attributes of elements (bounded)

NOTES = {
    "c": {}, "c'4": dict(octave=1, duration=Fraction(1, 4)), "c,,?=8..*2/3\\staccato": None, "c,,?8..*2/3\\staccato": dict(octave=-2, accidental='cautionary', duration=Fraction(7, 32), scaling=Fraction(2, 3)),
    "cis''!='\\breve -1": dict(octave=2, accidental='forced', oct_check=1, duration=Fraction(2)), "c%{ x %}8": dict(duration=Fraction(1, 8)), "c=4": dict(oct_check=0, duration=Fraction(1, 4)),
    "a'4*3\\rest": dict(octave=1, duration=Fraction(1, 4), scaling=3), "r": {}, "R1*4*1/2": dict(duration=1, scaling=2), "s16..": dict(duration=Fraction(7, 64)), "<c e'>2.": dict(duration=Fraction(3, 4)), "<c e>-.": {}, "q8*3": dict(duration=Fraction(1, 8), scaling=3),
}
del NOTES["c,,?=8..*2/3\\staccato"]
PITCHED = ('octave', 'accidental', 'oct_check')


def gen_attributes(rng):
    t = rng.choice(sorted(NOTES))
    ops = []
    names = ['duration', 'scaling', 'duration_scaling'] + (list(PITCHED) * 2 if t[0] in 'ca' else [])
    for _ in range(rng.randint(1, 8)):
        n = rng.choice(names)
        if rng.random() < .25:
            v = None
        elif n == 'octave' or n == 'oct_check':
            v = rng.choice([0, 0, 1, -1, 2, -3])
        elif n == 'accidental':
            v = rng.choice(['forced', 'cautionary'])
        else:
            d, s = rng.choice(['1/4', '1/8', '3/8', '7/16', '2', '1', '1/128', '4', '15/8', '8']), rng.choice(['1', '2', '2/3', '0', '5/4', '1/7', '22/7', '3/1000'])
            v = d if n == 'duration' else s if n == 'scaling' else [d, s]
        ops.append((n, v, rng.choice(['exact', 'exact', 'float', 'del'])))
    return dict(text=t, ops=ops)


@bounded('C13', 'attributes of notes', gen=gen_attributes, quick=3000, thorough=100000, seconds=60,
         functions=['dom.lily.Pitchable.octave', 'dom.lily.Pitchable.accidental', 'dom.lily.Pitchable.oct_check', 'dom.lily.HandleDuration.duration', 'dom.lily.HandleDuration.scaling', 'dom.lily.HandleDuration.duration_scaling'],
         rule='random sequences of up to 8 attributes set or deleted on notes, rests and chords, read from text; all attributes compared with a model after every step, and read back from the text')
def b_attributes(M, c):
    import io, contextlib
    R, L = M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    names = ('duration', 'scaling') + (PITCHED if c['text'][0] in 'ca' else ())
    model = dict(octave=0, accidental=None, oct_check=None, duration=None, scaling=None)
    model.update(NOTES[c['text']])
    x = R.lily_document('{ %s d4 }' % c['text'])

    def compare(n, when):
        for a in names:
            want = model[a]
            if a == 'scaling':
                want = None if model['duration'] is None else want if want is not None else 1
            got = getattr(n, a)
            check(got == want and (got is None) == (want is None), "%s: %s is %r, not %r", when, a, got, want)
        ds = n.duration_scaling
        check(ds == (None if model['duration'] is None else (model['duration'], 1 if model['scaling'] is None else model['scaling'])), "%s: duration and scaling %r", when, ds)
    n = x[0][0]
    compare(n, 'read')
    number = lambda v, how: float(Fraction(v)) if how == 'float' else Fraction(v)
    for name, v, how in c['ops']:
        if v is None:
            if how == 'del':
                delattr(n, name)
            else:
                setattr(n, name, None if name != 'octave' else 0)
            if name in ('duration', 'duration_scaling'):
                model['duration'] = model['scaling'] = None
            else:
                model[name] = 0 if name == 'octave' else None
        elif name == 'duration_scaling':
            n.duration_scaling = tuple(number(i, how) for i in v)
            model['duration'], model['scaling'] = map(Fraction, v)
        elif name == 'duration':
            n.duration = number(v, how)
            model['duration'] = Fraction(v)
        elif name == 'scaling':
            v = number(v, how)
            if model['duration'] is None and v != 1:
                try:
                    n.scaling = v
                except ValueError:
                    continue
                check(False, "a scaling without a duration")
            n.scaling = v
            if model['duration'] is not None:
                model['scaling'] = Fraction(v).limit_denominator()
        else:
            setattr(n, name, v)
            model[name] = v
        compare(n, 'after setting %s to %r' % (name, v))
    for w in (x.write(), x.write_indented()):
        with contextlib.redirect_stdout(io.StringIO()):
            y = R.lily_document(w)
        check(type(y[0][0]) is type(n) and ('%' in w or len(y[0]) == len(x[0])), "reads back differently: %r", w)
        compare(y[0][0], 'read back from %r' % w)
    return True


PAIRS = [('GrobDirection', 'grob', 'direction'), ('GrobStyle', 'grob', 'style'), ('Toggle', 'prop', 'value')]


def enum_settings(tier):
    for cls, *_ in PAIRS:
        yield dict(kind='pair', cls=cls)
    for t in ['', '{ c }', '\\version "2.18.2"', '% x\n\\version "2.24" { c }', '{ \\version "2.0.0" c }', '\\language "english" { c }', '\\include "english.ly" c', '\\include "a.ly"']:
        for op in [('version', [2, 24, 3]), ('version', [2, 25, 10]), ('version', [3]), ('language', 'deutsch'), ('language', 'français'), ('filename', 'a "b".ily'), ('filename', 'deutsch.ly'), ('filename', 'x.ly')]:
            yield dict(kind='command', text=t, op=op)


@bounded('C13', 'attributes of commands', enum=enum_settings,
         functions=['dom.lily.GrobDirection', 'dom.lily.GrobStyle', 'dom.lily.Toggle', 'dom.lily.Version.version', 'dom.lily.Document.version', 'dom.lily.Language.language', 'dom.lily.Include.filename', 'dom.lily.Include.language'],
         rule='all values of commands with two parts; version, language and file name set in some documents')
def b_settings(M, c):
    R, L = M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    if c['kind'] == 'pair':
        name, a, b = next(p for p in PAIRS if p[0] == c['cls'])
        cls = getattr(L, name)
        heads = list(cls.mapping.values())
        for h in heads:
            n = cls(h)
            check((getattr(n, a), getattr(n, b)) == h, "%s %r", name, h)
            for x, y in heads:
                if (h[0], y) in heads:
                    n = cls(h)
                    setattr(n, b, y)
                    check(n.head == (h[0], y), "%s %r: %s set to %r gives %r", name, h, b, y, n.head)
                if (x, h[1]) in heads:
                    n = cls(h)
                    setattr(n, a, x)
                    check(n.head == (x, h[1]), "%s %r: %s set to %r gives %r", name, h, a, x, n.head)
        return True
    name, v = c['op']
    x = R.lily_document(c['text'])
    old = [type(n) for n in x.descendants()]
    if name == 'version':
        x.version = tuple(v)
        y = R.lily_document(x.write())
        for d in (x, y):
            check(d.version == tuple(v) and [n.version for n in d // L.Version] == [tuple(v)], "the version is %r, not %r, in %r", d.version, v, x.write())
        check([type(n) for n in y.descendants() if not isinstance(n, (L.Version, L.String))] == [t for t in old if not issubclass(t, (L.Version, L.String))], "the rest of the document: %r", x.write())
        return True
    cls, done = (L.Language if name == 'language' else L.Include), False
    for n in list(x // (L.Language, L.Include)):
        if isinstance(n, cls) or name == 'language':
            setattr(n, name, v)
            done = True
            y = R.lily_document(x.write())
            for d in (x, y):
                m = next(iter(d // type(n)))
                check(getattr(m, name) == v, "%s is %r, not %r, in %r", name, getattr(m, name), v, x.write())
                if isinstance(m, L.Include):
                    lang = {'deutsch.ly': 'deutsch', 'deutsch': 'deutsch', 'français': 'français'}.get(v)
                    check(m.language == lang, "the language of the file %r is %r", m.filename, m.language)
    new = cls()
    setattr(new, name, v)
    y = R.lily_document(L.Document(new).write())
    check([getattr(n, name) for n in y // cls] == [v], "%s %r is not read back from %r", name, v, new.write())
    return True


# what can be given to the commands, see the documentation of LilyPond
KINDS = {
    'music': ['MusicList', 'Note', 'IdentifierRef', 'Sequence', 'Once'], 'block': ['MusicList'], 'word': ['String', 'Symbol'], 'name': ['String', 'Symbol', 'Scheme'], 'prop': ['List', 'Symbol'],
    'number': ['Int', 'Float', 'Scheme'], 'int': ['Int', 'Scheme', 'IdentifierRef'], 'value': ['Int', 'Float', 'Scheme', 'String', 'Markup', 'IdentifierRef'], 'text': ['String', 'Markup', 'IdentifierRef'],
    'scale': ['Int', 'Fraction', 'Scheme'], 'mode': ['Mode', 'IdentifierRef', 'Scheme'], 'which': ['Numbers', 'Scheme'],
}
COMMANDS = r'''
Absolute music
Accepts word
Acciaccatura music
AddQuote word music
AfterGrace music music
AfterGrace Fraction music music
Alias word
Alternative block
AppendToTag name music
ApplyContext Scheme
ApplyMusic Scheme music
ApplyOutput prop Scheme
Appoggiatura music
Bar String
Change Symbol EqualSign word
Clef word
Consists name
Context Symbol music
Context Symbol With music
Context Symbol EqualSign word music
Context Symbol EqualSign word With music
DefaultChild word
Denies word
Fixed Pitch music
Grace music
Hide prop
Include String
KeepWithTag name music
Key Pitch mode
Label Scheme
Language String
Mark value
Mark Default
Name word
New Symbol music
New Symbol With music
New Symbol EqualSign word music
New Symbol EqualSign word With music
NoteMode music
OctaveCheck Pitch
Omit prop
Once music
Ottava number
Override prop EqualSign value
Override prop Scheme EqualSign value
Override prop Scheme Scheme EqualSign value
PartCombine music music
Partial Duration
PushToTag name music
QuoteDuring word music
Relative block
Relative Pitch music
Remove name
RemoveWithTag name music
Repeat Symbol int music
Repeat Symbol int music Alternative
Revert prop
Revert prop Scheme
ScaleDurations scale music
Sequential block
Set prop EqualSign value
Shape Scheme Symbol
ShiftDurations number number music
Simultaneous block
SlashedGrace music
StringTuning music
Tag name music
TagGroup name
Tempo text
Tempo text Duration EqualSign Int
Tempo Duration EqualSign Int
Temporary music
Time Fraction
Time Numbers Fraction
Times Fraction music
Transpose Pitch Pitch music
Transposition Pitch
Tuplet Fraction music
Tuplet Fraction Duration music
Undo music
UnfoldRepeats music
Unfolded music
Unset prop
VShape Scheme Symbol
Version String
Volta which music
LyricMode Lyrics =lyrics =addlyrics =lyricmode
LyricMode word Lyrics =lyricsto
ChordMode block =chords =chordmode
DrumMode Drums =drums =drummode
FigureMode Figures =figures =figuremode
'''


def argument(L, S, kind):
    q = lambda t: L.Scheme('#', S.Quote("'", S.Identifier(t)))
    return {
        'Lyrics': lambda: L.MusicList(L.LyricText('la')), 'Drums': lambda: L.MusicList(L.Drum('bd')), 'Figures': lambda: L.MusicList(L.Figure(L.FigureBody(L.FigureStep(6)), L.Duration(Fraction(1, 4)))),
        'MusicList': lambda: L.MusicList(L.Note('d')), 'Note': lambda: L.Note('d', L.Duration(Fraction(1, 8))), 'IdentifierRef': lambda: L.IdentifierRef('abc'), 'Sequence': lambda: L.Simultaneous(L.MusicList(L.Note('e'))),
        'Once': lambda: L.Once(L.Omit(L.Symbol('Clef'))), 'String': lambda: L.String('a b'), 'Symbol': lambda: L.Symbol('Aa'), 'Scheme': lambda: q('foo'), 'List': lambda: L.List(L.Symbol('Staff'), L.Separator('.'), L.Symbol('Xyz')),
        'Numbers': lambda: L.List(L.Int(1), L.Separator(','), L.Int(2)), 'Int': lambda: L.Int(3), 'Float': lambda: L.Float(1.5), 'Fraction': lambda: L.Fraction((2, 3)), 'Markup': lambda: L.Markup('markup', L.MarkupList(L.MarkupWord('zz'))),
        'Mode': lambda: L.Mode('minor'), 'With': lambda: L.With(L.Consists(L.String('X'))), 'EqualSign': lambda: L.EqualSign(), 'Default': lambda: L.Default(), 'Pitch': lambda: L.Pitch('g', L.Octave(1)),
        'Duration': lambda: L.Duration(Fraction(1, 4)), 'Alternative': lambda: L.Alternative(L.MusicList(L.MusicList(L.Note('e')))),
    }[kind]()


def enum_commands(tier):
    import itertools
    for line in COMMANDS.strip().splitlines():
        words = line.split()
        heads = [w for w in words if w.startswith('=')]
        kinds = [KINDS.get(w, [w]) for w in words[1:len(words) - len(heads)]]
        for combo in itertools.product(*kinds):
            for head in heads or [None]:
                for after in ('Bar', 'Note', None):
                    yield dict(cls=words[0], head=head and head[1:], args=list(combo), after=after)


@bounded('C13', 'commands and their arguments', enum=enum_commands,
         functions=['dom.lily.*.signatures', 'dom.element.build_tree', 'dom.element.Element.write', 'lang.lilypond.MusicBuilder', 'dom.read.lily_document'],
         rule='every command with every kind of argument it has in the documentation of LilyPond, on its own in { } and followed by a note and by a command')
def b_commands(M, c):
    import io, contextlib
    R, L, S = (M.get('quickly.dom.' + n) for n in ('read', 'lily', 'scm'))
    args = [argument(L, S, k) for k in c['args']]
    n = getattr(L, c['cls'])(*([c['head']] if c['head'] else []), *args)
    x = L.Document(L.MusicList(n))
    if c['after'] == 'Bar':
        x[0].append(L.Bar(L.String('|')))
    elif c['after']:
        x[0].append(L.Note('f'))
    for how in ('write', 'write_indented'):
        w = getattr(x, how)()
        with contextlib.redirect_stdout(io.StringIO()):
            y = R.lily_document(w)
        check(alike(x, y) and x.equals(y) and y.equals(x), "%s: reads back differently: %r", how, w)
    return True


# ---------------------------------------------------------------- the helper functions for markup (bounded)

WORDS = ['a', 'abc', 'two words', '', 'say "hi"', 'back\\slash', '#5', '{', '}', 'x}y', '%', 'é', '4.', "it's", '-', '1', 'a#b', '\\bold', '->', '\n', ' x', '<', '~', '$a', 'a|b', 'q:', ';']
SYMBOLS = ['abc', 'header:title', 'font-size', 'x1', 'a.b', 'piccolo']


def gen_markup(rng):
    num = lambda: rng.choice([0, 1, -1, 3, 1.5, -0.25, 12, 1000])
    arg = lambda d: rng.choice(WORDS) if rng.random() < .6 or not d else num() if rng.random() < .5 else rng.choice([True, False]) if rng.random() < .3 else \
        ['bold', [arg(d - 1) for _ in range(rng.choice([1, 1, 2, 3]))]]
    return dict(f=rng.randrange(10 ** 6), words=[arg(2) for _ in range(8)], rest=[arg(2) for _ in range(rng.choice([1, 1, 2, 3]))],
                nums=[num() for _ in range(8)], symbols=[rng.choice(SYMBOLS) for _ in range(2)], texts=[rng.choice(WORDS) for _ in range(3)], flag=rng.choice([True, False]), outer=rng.choice(['markup', 'markuplist']))


def enum_markup(tier):
    for f in range(250):
        yield dict(f=f, words=['u', 'v', 'w', 'x', 'y', 'z'], rest=['a', 'b'], nums=[1, 2, 3, 4, 5, 6], symbols=['s', 't'], texts=['k', 'l', 'm'], flag=True, outer='markup', first=True)


@bounded('C13', 'markup helpers', gen=gen_markup, enum=enum_markup, quick=2500, thorough=60000, seconds=60,
         functions=['dom.markup.*', 'dom.scm.create_element_from_value', 'dom.element.Element.write'],
         rule='every function of quickly.dom.markup (but fill_with_pattern, which parce cannot read) with random arguments: the command is the one of that name, the arguments are in the text once, the text reads back to the same tree')
def b_markup(M, c):
    import io, contextlib, inspect
    K, L, S, R = (M.get('quickly.dom.' + n) for n in ('markup', 'lily', 'scm', 'read'))
    names = [n for n in sorted(dir(K)) if not n.startswith('_') and inspect.isfunction(getattr(K, n)) and getattr(K, n).__module__ == K.__name__
             and n not in ('is_markup', 'fill_with_pattern', 'markup', 'markuplist')]
    if c.get('first') and c['f'] >= len(names):
        return False
    name = names[c['f'] % len(names)]
    f = getattr(K, name)
    given = []          # what is to be found in the text
    src = {k: iter(c[k]) for k in ('words', 'nums', 'symbols', 'texts')}

    def take(kind):
        v = next(src[kind])
        given.append(v)
        return v

    def make(v):
        if isinstance(v, list):
            return K.bold(*[make(k) for k in v[1]])
        given.append(v)
        return v
    args = []
    for p in inspect.signature(f).parameters.values():
        if p.kind == p.VAR_POSITIONAL:
            if name in ('score', 'score_lines'):
                args.append(L.MusicList(L.Note('c', L.Duration(Fraction(1, 4)))))
            else:
                args += [make(v) for v in c['rest']]
        elif name in ('rest', 'note') and p.name == 'duration':
            args.append('4..')
            given.append('4..')
        elif p.name in ('label', 'name', 'prop', 'instrument') and name not in ('musicglyph',):
            args.append(take('symbols'))
        elif p.name in ('element', 'scheme_commands'):
            args.append(L.Scheme('#', S.Quote("'", S.List(S.Number(7), S.Identifier('i')))))
        elif p.name in ('x', 'y', 'x1', 'x2', 'y1', 'y2', 'direction', 'size', 'log', 'dotcount', 'blot', 'axis', 'gauge', 'space', 'sqlength', 'value'):
            args.append(take('nums'))
        elif p.name == 'n':
            args.append(abs(int(next(src['nums']))))
        elif p.name == 'eqend':
            args.append(c['flag'])
            given.append(c['flag'])
        elif p.name in ('arg', 'arg1', 'arg2', 'arg3'):
            args.append(make(next(src['words'])))
        else:
            args.append(take('texts'))
    e = f(*args)
    if name in ('score', 'score_lines'):
        check(isinstance(e, {'score': L.MarkupScore, 'score_lines': L.MarkupScoreLines}[name]), "%s() returns %r", name, e)
    else:
        check(type(e) is L.MarkupCommand and e.head == name.rstrip('_').replace('_', '-'), "%s() returns %r", name, e)
    x = L.Document(getattr(K, c['outer'])(e))
    have = []
    for n in e.descendants():
        if isinstance(n, (L.MarkupWord, L.String, S.String, S.Number, S.Bool, S.Identifier)) and type(n).__name__ != 'Hex' and n.head != 'i' and n.head != 7:
            have.append(n.head)
        elif isinstance(n, L.Number):
            have.append(n.head)
    order = lambda vs: sorted(((type(v).__name__ if isinstance(v, (bool, str)) else 'number', v) for v in vs), key=repr)
    if name not in ('score', 'score_lines'):
        check(order(have) == order(v for v in given if v not in ('i', 7)), "%s%r has the values %r", name, tuple(args), have)
    for how in ('write', 'write_indented'):
        w = getattr(x, how)()
        with contextlib.redirect_stdout(io.StringIO()):
            y = R.lily_document(w)
        check(alike(x, y) and x.equals(y) and y.equals(x), "%s: %s reads back differently: %r", name, how, w)
    return True

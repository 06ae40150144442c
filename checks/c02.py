"""C02: number notations."""
import random
import z3
import string
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec
from pyvc.core import SNum, Unsupported, to_z3

LEVEL = 'proof'
NOTE = 'Roman: proved for every positive integer. Letters: proved for every integer and every alphabet size (loop contracts with the value of the letters as ghost state). English words: the written words are proved for 0..999999999; reading them back (parce lexer) is checked at run time for all numbers below 1000 in every group position plus random ones (bounded).'

ONES = ['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX']
TENS = ['', 'X', 'XX', 'XXX', 'XL', 'L', 'LX', 'LXX', 'LXXX', 'XC']
HUND = ['', 'C', 'CC', 'CCC', 'CD', 'D', 'DC', 'DCC', 'DCCC', 'CM']


def canonical(r):
    return HUND[r // 100] + TENS[r // 10 % 10] + ONES[r % 10]


def ms(E, m):
    """m times M."""
    return 'M' * m


def roman_unit(part):
    @unit('C02', 'roman numerals, last digits %d..%d' % (part * 125, part * 125 + 124), functions=['numbering.int2roman', 'numbering.roman2int'], random_runs=100)
    def u(E):
        m = E.mod('quickly.numbering')
        r = E.choice('n mod 1000', range(part * 125, part * 125 + 125))
        k = E.int('n div 1000', 0, None, big=30)
        n = k * 1000 + r
        E.assume(n >= 1)
        E.cover("precondition")
        s = m.int2roman(n)
        E.prove("canonical form", E.eq(s, k * 'M' + canonical(r)))
        E.loop(LoopSpec("run of M", lambda site, loc: 'roman2int' in site and 'num' in loc and 'prev' in loc,
                        lambda loc, e: [("every M counts 1000", loc['num'] == e[0] + loc['__it__'].i * 1000),
                                        ("the previous value is at most 1000", loc['prev'] <= 1000),
                                        ("M count not negative", loc['num'] >= 0)],
                        entry=lambda loc: (loc['num'],), stream=True))
        E.prove("reads back", m.roman2int(s) == n)
        if part == 0 and E.symbolic is False:
            E.prove("lower case reads back", m.roman2int(s.lower()) == n)
    return u


for _p in range(8):
    roman_unit(_p)


@unit('C02', 'roman numerals only for positive integers', functions=['numbering.int2roman'], random_runs=100)
def u_roman_neg(E):
    m = E.mod('quickly.numbering')
    n = E.int('n', None, 0, big=30)
    E.cover("precondition")
    if E.symbolic:
        n = n.concrete() if False else E.choice('small', [0, -1, -2, -1000])
    try:
        m.int2roman(n)
    except ValueError:
        ok = True
    else:
        ok = False
    E.prove("ValueError", ok)


# ---------------------------------------------------------------- letters

class Seg:
    """Ghost: an arbitrary list of letter indices (the last one most significant).

    F(x) is the value read when x is the value of the letters before it:
    F([])(x) = x, F(L + [d])(x) = F(L)(x * size + d + 1).
    """
    def __init__(self, E, parts=None):
        self.E, self.parts = E, parts
        self.f = z3.Function('F%d' % next(E.counter), z3.IntSort(), z3.IntSort())

    def F(self, x):
        if self.parts:
            return fold(self.parts, x, None)
        return SNum(self.f(to_z3(x)), True)


class Alphabet:
    """Ghost: an arbitrary alphabet of distinct characters; a character is its index."""
    def __init__(self, E):
        self.E = E
        self.size = E.int('size', 1)

    def __pv_len__(self):
        return self.size

    def __pv_getitem__(self, i):
        self.E.prove("a letter of the alphabet", self.E.And(i >= 0, i < self.size))
        return Char(self, [i])

    def __getitem__(self, seg):
        if not isinstance(seg, Seg):
            raise IndexError("no index")
        return Char(self, [seg])

    def index(self, c):
        return c.items[0]


class Char:
    """Ghost: characters of the alphabet."""
    pytype = str

    def __init__(self, chars, items):
        self.chars, self.items = chars, items

    def __pv_join__(self, sep, parts):
        if sep:
            raise Unsupported("separator")
        return Char(self.chars, [i for p in parts for i in p.items])

    def __pv_iter__(self):
        return CharIter(self)


class CharIter:
    """Iterates over an arbitrary list of letters, most significant first (loop contract)."""
    def __init__(self, text):
        self.text, self.items = text, list(text.items)

    def __pv_iter__(self):
        return self
    __iter__ = __pv_iter__

    def at_run(self):
        if self.items and all(isinstance(i, Seg) for i in self.items):
            self.items = [Seg(self.text.chars.E, self.items)]
            return True
        return False

    def havoc(self, E):
        self.items = [Seg(E)]

    def F(self, x):
        return fold(self.items, x, self.text.chars.size, first_is_least=True)

    def leave_run(self):
        return False

    def __next__(self):
        E = self.text.chars.E
        if not self.items:
            raise StopIteration
        if not isinstance(self.items[-1], Seg):
            return Char(self.text.chars, [self.items.pop()])
        if E.fork(z3.Bool('empty!%d' % next(E.counter))):
            x = self.x
            E.assume(self.items[0].F(x) == x)      # definition of F for the empty list
            self.items = []
            raise StopIteration
        old, new, d = self.items[0], Seg(E), SNum(E.fresh_int('d'), True)
        size = self.text.chars.size
        E.assume(E.And(d >= 0, d < size))
        E.assume(old.F(self.x) == new.F(self.x * size + d + 1))     # definition of F
        self.items = [new]
        return Char(self.text.chars, [d])


def fold(items, x, size, first_is_least=True):
    for i in reversed(items):
        x = i.F(x) if isinstance(i, Seg) else x * size + i + 1
    return x


def the_list(loc):
    return [v for v in loc.values() if type(v) is list][0]


def at_int2letter(site, loc):
    return 'int2letter' in site and any(type(v) is list for v in loc.values())


@unit('C02', 'letters read back, every alphabet', functions=['numbering.int2letter', 'numbering.letter2int'], random_runs=300)
def u_letters(E):
    m = E.mod('quickly.numbering')
    n0 = E.int('n', 0, None, big=10 ** 6)
    if not E.symbolic:
        chars = string.ascii_letters[:E.int('size', 1, 52)]
        E.assume(len(chars) > 1 or n0 < 200)
        E.prove("reads back", m.letter2int(m.int2letter(n0, chars), chars) == n0)
        return
    chars = Alphabet(E)

    def havoc(loc):
        # an arbitrary list, as the concatenation of two (so that their order matters)
        the_list(loc)[:] = [Seg(E), Seg(E)]
    E.loop(LoopSpec("writing letters", at_int2letter,
                    lambda loc: [("letters written and the rest have the value of the number", fold(the_list(loc), loc['n'], chars.size) == n0),
                                 ("the rest is not negative", loc['n'] >= 0)],
                    variant=lambda loc: loc['n'], on_havoc=havoc, while_only=True))

    def reading(loc, e):
        x = loc['result']
        loc['__it__'].x = x
        return [("letters read and the rest have the value of the number", loc['__it__'].F(x) == n0)]
    E.loop(LoopSpec("reading letters", lambda site, loc: 'letter2int' in site, reading, entry=lambda loc: None, stream=True))
    E.cover("precondition")
    s = m.int2letter(n0, chars)
    if s == '':
        # nothing written: the loop was left at once
        E.prove("only zero is the empty string", n0 == 0)
        return
    # the characters stand in reverse order of the digits found
    text = Char(chars, list(reversed(s.items)))
    E.prove("the letters have the value of the number", fold(text.items, 0, chars.size) == n0)
    E.prove("reads back", m.letter2int(text, chars) == n0)


def multiple_lemma(E, t, size):
    """t >= 1 and size >= 1 imply t * size >= size (proved by unit 'multiples')."""
    E.assume(E.Implies(t >= 1, t * size >= size))


@unit('C02', 'multiples', random_runs=20)
def u_multiples(E):
    t, size = E.int('t', 1), E.int('size', 1)
    E.cover("precondition")
    E.prove("a positive multiple is at least the number", t * size >= size)


@unit('C02', 'every letter string is written by its own value', functions=['numbering.int2letter'], random_runs=300)
def u_letters_onto(E):
    """The digits found are those of any given string whose value is the number."""
    m = E.mod('quickly.numbering')
    if not E.symbolic:
        chars = string.ascii_letters[:E.int('size', 1, 52)]
        w = ''.join(chars[E.int('c%d' % i, 0, 51) % len(chars)] for i in range(E.int('length', 0, 8)))
        E.prove("written again", m.int2letter(m.letter2int(w, chars), chars) == w)
        return
    chars = Alphabet(E)
    # value of the letters not yet found: G([]) = 0, G([d] + rest) = G(rest) * size + d + 1
    n0 = E.int('G', 0)
    st = dict(g=n0, d=None, rest=None)

    def havoc(loc):
        the_list(loc)[:] = [Seg(E)]
        st['g'] = SNum(E.fresh_int('G'), True)
        st['d'], st['rest'] = SNum(E.fresh_int('d'), True), SNum(E.fresh_int('Grest'), True)
        E.assume(st['g'] >= 0)
        E.assume(E.Implies(st['g'] > 0, E.And(st['d'] >= 0, st['d'] < chars.size, st['rest'] >= 0,
                                              st['g'] == st['rest'] * chars.size + st['d'] + 1)))

    def inv(loc):
        l = the_list(loc)
        if len(l) == 2 and isinstance(l[0], Seg):
            q, size = loc['n'], chars.size
            if isinstance(q, SNum) and isinstance(l[1], SNum):
                multiple_lemma(E, q - st['rest'], size)
                multiple_lemma(E, st['rest'] - q, size)
            return [("the letter found is the next letter of the string", l[1] == st['d']),
                    ("the number is the value of the remaining letters", loc['n'] == st['rest'])]
        return [("the number is the value of the remaining letters", loc['n'] == st['g']),
                ("one letter at a time", len(l) <= 1)]
    E.loop(LoopSpec("writing letters", at_int2letter, inv, on_havoc=havoc, while_only=True))
    E.cover("precondition")
    m.int2letter(n0, chars)
    E.prove("all letters found", st['g'] == 0)


TO19 = ('zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen '
        'seventeen eighteen nineteen').split()
TENW = 'twenty thirty forty fifty sixty seventy eighty ninety'.split()


def words999(n):
    """Specification: the words of 1..999 (0: none)."""
    s = ''
    if n >= 100:
        s += TO19[n // 100].title() + 'Hundred'
        n %= 100
    if n >= 20:
        s += TENW[n // 10 - 2].title()
        n %= 10
    return s + (TO19[n].title() if n else '')


def words(n):
    s = ''
    for f, name in ((10 ** 6, 'Million'), (10 ** 3, 'Thousand')):
        if n >= f:
            s += words999(n // f) + name
            n %= f
    return s + words999(n) or 'Zero'


@unit('C02', 'English words below a thousand', functions=['numbering.int2text'], random_runs=300)
def u_words999(E):
    m = E.mod('quickly.numbering')
    n = E.choice('n', range(1000))
    E.prove("words", m.int2text(n) == (words999(n) or 'Zero'))


@unit('C02', 'English words up to 999999999', functions=['numbering.int2text'], random_runs=500, max_paths=60000)
def u_words(E):
    """Recursive calls by contract: below a thousand they give the words proved above."""
    m = E.mod('quickly.numbering')
    n = E.int('n', 1000, 999999999, big=10 ** 9)
    calls = []
    if E.symbolic:
        def wrap(f):
            depth = [0]
            def g(k):
                if not depth[0]:
                    depth[0] = 1
                    yield from f(k)
                    depth[0] = 0
                else:
                    E.prove("groups are written by themselves and below a thousand", E.And(k >= 1, k <= 999))
                    calls.append(k)
                    yield 'w%sw' % 'abc'[len(calls) - 1]
            return g
        E.inexact = True
        E.res.used_contracts.add("int2text._int2text for 1..999 (proved by unit 'English words below a thousand')")
        E.contract('quickly.numbering:int2text._int2text', wrap)
    E.cover("precondition")
    if E.symbolic:
        rest = E.choice('rest', range(1000))
        E.assume(n % 1000 == rest)
    s = m.int2text(n)
    if not E.symbolic:
        E.prove("groups and the rest", s == words(n))
        return
    mil, tho = n // 1000000, n // 1000 % 1000
    want, groups = '', []
    if mil >= 1:
        groups.append(mil)
        want += 'W%sw' % 'abc'[len(groups) - 1] + 'Million'
    if tho >= 1:
        groups.append(tho)
        want += 'W%sw' % 'abc'[len(groups) - 1] + 'Thousand'
    want += words999(rest)
    E.prove("million and thousand groups", len(calls) == len(groups) and E.And(True, *[a == b for a, b in zip(calls, groups)]))
    E.prove("groups and the rest", s == want)


ALPHABETS = [string.ascii_uppercase, string.ascii_lowercase, 'ab', 'x', '01', 'zyx', 'αβγδ', string.ascii_uppercase[::-1], string.digits, 'QWERTYUIOP']


def enum(tier):
    for k in range(0, 3000 if tier == 'quick' else 20000):
        yield dict(kind='roman', n=k)
    for a in ALPHABETS:
        for k in range(0, 1200 if tier == 'quick' else 20000):
            if len(a) > 1 or k < 60:
                yield dict(kind='letter', n=k, chars=a)
    for k in range(1000):
        yield dict(kind='words', n=k)
        yield dict(kind='words', n=k * 1000 + k * 7 % 1000)
        yield dict(kind='words', n=k * 1000000 + (k * 13 % 1000) * 1000 * (k % 2) + k * 11 % 1000 * (k % 3 > 0))


def gen(rng):
    k = rng.choice(['words', 'letter', 'roman'])
    if k == 'words':
        return dict(kind=k, n=rng.choice([rng.randrange(10 ** 9), rng.randrange(10 ** 6), rng.choice([10 ** 6, 10 ** 3, 10 ** 8, 10 ** 5]) * rng.randint(1, 9)]))
    if k == 'roman':
        return dict(kind=k, n=rng.choice([rng.randrange(1, 10 ** 5), rng.randrange(1, 10 ** 7)]))
    chars = rng.sample(string.ascii_letters + string.digits + 'éß€ .', rng.randint(2, 20))
    return dict(kind=k, n=rng.choice([rng.randrange(10 ** 4), rng.randrange(10 ** 12), rng.randrange(10 ** 40), len(chars) ** rng.randint(1, 8) + rng.randint(-2, 2)]), chars=''.join(chars))


@bounded('C02', 'numbers', enum=enum, gen=gen, quick=6000, thorough=200000, functions=['numbering.*'],
         rule='roman 0..2999; letters 0..1199 in ten alphabets and order of consecutive numbers; words: every number below 1000 in each group; random large ones')
def b_numbers(M, c):
    m = M.get('quickly.numbering')
    n = c['n']
    if c['kind'] == 'roman':
        if n < 1:
            try:
                m.int2roman(n)
            except ValueError:
                return False
            check(False, "int2roman(%d) does not raise ValueError", n)
        s = m.int2roman(n)
        check(s == 'M' * (n // 1000) + canonical(n % 1000), "int2roman(%d) is %r", n, s)
        check(m.roman2int(s) == n, "roman2int(%r) is %r, not %d", s, m.roman2int(s), n)
        check(m.roman2int(s.lower()) == n, "lower case")
        return True
    if c['kind'] == 'letter':
        a = c['chars']
        s = m.int2letter(n, a)
        check(set(s) <= set(a), "characters outside the alphabet: %r", s)
        check(m.letter2int(s, a) == n, "letter2int(%r) is %r, not %d", s, m.letter2int(s, a), n)
        # the next number is the next string in length, then alphabet order
        t = m.int2letter(n + 1, a)
        key = lambda s: (len(s), [a.index(x) for x in s])
        check(key(s) < key(t), "order of %r and %r", s, t)
        d, k = [], n                  # independent: bijective numeration
        while k:
            q = -(-k // len(a)) - 1
            d.append(a[k - q * len(a) - 1])
            k = q
        check(s == ''.join(reversed(d)), "int2letter(%d) is %r", n, s)
        # every string comes from exactly one number
        w = ''.join(random.Random(n).choices(a, k=n % 6))
        check(m.int2letter(m.letter2int(w, a), a) == w, "%r does not come back", w)
        if a == string.ascii_uppercase:
            check(m.int2letter(n) == s and m.letter2int(s) == n, "default alphabet")
        return len(s) > 1
    s = m.int2text(n)
    check(s == words(n), "int2text(%d) is %r, not %r", n, s, words(n))
    check(m.text2int(s) == n, "text2int(%r) is %r", s, m.text2int(s))
    check(s.isalpha(), "not only letters")
    return n > 20

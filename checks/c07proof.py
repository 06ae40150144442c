"""C07: the proof of Transpose.edit_range on ghost music (see musicghost)."""
import inspect
import z3
from pyvc import core
from pyvc.core import SNum, Unsupported, to_z3
from pyvc.engine import unit
from pyvc.instr import LoopSpec
from checks.musicghost import Music, GNode, GNote, Stream

F = z3.Function('octaves moved', z3.IntSort(), z3.RealSort(), z3.IntSort())
G = z3.Function('note', z3.IntSort(), z3.RealSort(), z3.IntSort())
H = z3.Function('alteration', z3.IntSort(), z3.RealSort(), z3.RealSort())


class Mode:
    """How the notes of a list of children sound."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Ghost(Music):
    def __init__(self, E, kinds, depth, selection, forms):
        super().__init__(E)
        self.kinds, self.depth, self.forms = kinds, depth, forms
        self.selection = selection
        self.pool = {w: [GNote(self, '%s%d' % ('in' if w else 'out', i)) for i in range(7)] for w in (True, False)}
        for w in self.pool:
            for n in self.pool[w]:
                n.writable = w
        self.root = GNode(self, self.L.Document, Stream(self, Mode('abs'), 0))
        self.last = self.root
        self.pairs = []
        self.transposer = Transposer(self)
        self.protected.add(id(self.transposer))

    # -- specification
    def T(self, p):
        """The transposed pitch."""
        n, a = to_z3(p[1]), core._real(to_z3(p[2]))
        g = G(n, a)
        self.E.assume_z3(z3.And(g >= 0, g <= 6))
        return p[0] + SNum(F(n, a), True), SNum(g, True), SNum(H(n, a), False)

    def heard(self, note, mode):
        """Set what the note has to become, given the convention it is read in."""
        k = mode.kind
        if k in ('rel', 'chord', 'check'):
            rel = mode.rel
            if k == 'check':
                sounds = note.pitch
            else:
                ref, ref2 = (mode if k == 'chord' else rel).ref
                sounds = (self.nearest(note.label, note.note, ref) + note.marks, note.note, note.alter)
            new = sounds
            if note.writable:
                new = self.T(sounds)
                if k == 'check':
                    octave, check = new[0], note.check
                else:
                    octave = note.name_octave + new[0] - self.nearest(note.label, new[1], ref2)
                    check = None if note.check is None else new[0] - note.name_octave
                note.expected = (octave, new[1], new[2], check)
            if k == 'chord':
                mode.ref = sounds, new
                if mode.empty:
                    rel.ref = sounds, new
                    mode.empty = False
            else:
                rel.ref = sounds, new
            return
        if not note.writable or k == 'own':
            return
        o, n, a = self.T(note.pitch)
        if k == 'key':
            o = note.written
        elif k == 'fixed':
            o = o - mode.shift
        elif k == 'arg':
            o = None
        note.expected = (o, n, a, note.check)

    def verify(self, what="transposed"):
        super().verify(what)
        for a, b in self.pairs:
            if a.writable and b.writable:
                self.E.prove("the two pitches of \\transpose move by the same number of octaves",
                             a.written - self.T((a.original[2] + a.name_octave,) + a.original[:2])[0] ==
                             b.written - self.T((b.original[2] + b.name_octave,) + b.original[:2])[0])

    # -- the music
    def new_note(self, mode, depth, cls=None, inner=True):
        E = self.E
        w = True if self.selection == 'full' else E.choice(self.fresh_name('selected'), [True, False])
        if not self.pool[w]:
            raise Unsupported("too many notes")
        note = self.pool[w].pop(0)
        kids = Stream(self, Mode('own' if mode.kind == 'own' else 'abs', inner=True), depth + 1) if inner and depth < self.depth else []
        note.use(cls or self.L.Note, kids, check=mode.kind in ('rel', 'chord'))
        self.heard(note, mode)
        return note

    def element(self, stream):
        E, L, mode, depth = self.E, self.L, stream.mode, stream.depth
        own = mode.kind == 'own'
        if depth and depth >= self.depth:
            kinds = ['note']
        elif getattr(mode, 'inner', False):
            kinds = ['note', 'container']
        elif mode.kind == 'chord':
            kinds = ['note', 'container', 'markup']
        else:
            kinds = [k for k in (self.kinds if depth else self.top) if k != 'check' or mode.kind == 'rel']
        k = E.choice(self.fresh_name('element'), kinds)
        deeper = lambda m: Stream(self, Mode('own') if own else m, depth + 1)
        if k == 'note':
            node = self.new_note(mode, depth)
        elif k == 'rest':
            node = self.new_note(mode, depth, L.PitchedRest, False)
        elif k == 'container':
            node = GNode(self, E.choice(self.fresh_name('class'), [L.MusicList, L.SimultaneousMusicList, L.Score, L.Assignment]), deeper(mode))
        elif k == 'markup':
            node = GNode(self, L.Markup, deeper(Mode('abs')))
        elif k == 'key':
            node = GNode(self, E.choice(self.fresh_name('class'), [L.Key, L.Inversion, L.AddInversion]), deeper(Mode('key')))
        elif k == 'absolute':
            node = GNode(self, L.Absolute, deeper(Mode('abs')))
        elif k == 'own':
            node = GNode(self, E.choice(self.fresh_name('class'), [L.Transposition, L.StringTuning]), Stream(self, Mode('own'), depth + 1))
        elif k == 'chord':
            m = mode
            if mode.kind == 'rel':
                m = Mode('chord', rel=mode, ref=mode.ref, empty=True)
            node = GNode(self, L.Chord, deeper(m))
            node.mode = m
        elif k == 'check':
            node = GNode(self, L.OctaveCheck, [self.new_note(Mode('check', rel=mode), depth, L.Pitch, False)] if E.choice(self.fresh_name('pitch'), [True, False]) else [])
        elif k == 'transpose':
            m = Mode('own' if own else 'arg')
            a, b = self.new_note(m, depth, L.Pitch, False), self.new_note(m, depth, L.Pitch, False)
            if not own:
                self.pairs.append((a, b))
            rest = GNode(self, L.MusicList, deeper(Mode('abs') if mode.kind == 'rel' else mode))
            node = GNode(self, L.Transpose, [a, b, rest])
        elif k == 'fixed':
            m = Mode('own' if own else 'arg')
            p = self.new_note(Mode('own' if own else 'abs'), depth, L.Pitch, False)
            shift = 0
            if p.writable:
                shift = self.T(p.pitch)[0] - p.written
            body = GNode(self, L.MusicList, deeper(Mode('fixed', shift=shift)))
            c = self.comments()
            node = GNode(self, L.Fixed, c[:1] + [p] + c[1:] + [body])
        elif k == 'relative':
            node = self.relative(mode, depth, own)
        self.last = node
        return node

    def comments(self):
        """Where comments stand in a command."""
        n = self.E.choice(self.fresh_name('comments'), [0, 1, 2]) if self.forms == 'all' else 0
        c = [GNode(self, self.L.MultilineComment) for i in range(2)]
        return [[], c[:1], c][n]

    def relative(self, mode, depth, own):
        E, L = self.E, self.L
        m = Mode('rel', ref=None)
        m.rel = m
        start = E.choice(self.fresh_name('start pitch'), [True, False])
        kids = []
        if start:
            p = self.new_note(Mode('own' if own else 'abs'), depth, L.Pitch, False)
            m.ref = p.pitch, (self.T(p.pitch) if p.writable and not own else p.pitch)
            kids.append(p)
        else:
            first = (-1, 3, 0) if self.first_absolute else (0, 0, 0)
            m.ref = first, first
        body = GNode(self, L.MusicList, Stream(self, Mode('own') if own else m, depth + 1))
        c = self.comments()
        node = GNode(self, L.Relative, c[:1] + kids + c[1:] + [body])
        node.mode = m
        return node


class Transposer:
    """The contract of a transposer (C06): note and alteration depend on note and
    alteration only, and so does the number of octaves moved."""
    def __init__(self, g):
        self.g = g
        self.octave = g.E.int('octaves of the transposer')

    def transpose(self, p):
        p.octave, p.note, p.alter = self.g.T((p.octave, p.note, p.alter))


class Range:
    def __init__(self, g):
        self.g = g
        self.node = g.root if g.selection != 'part' else GNode(g, g.L.Score)
        self.node.root = lambda: g.root

    def ancestor(self):
        return self.node

    def is_full(self):
        return self.g.selection != 'range'

    def __contains__(self, n):
        return n.writable


def triple(p):
    return p.octave, p.note, p.alter


def contracts(E, g):
    g.root.__class__ = type('Root', (GNode,), {'__floordiv__': lambda self, T: pool(g, T)})

    def pool(g, T):
        if T is not g.L.Pitchable:
            raise Unsupported("other notes")
        return [n for w in (True, False) for n in g.pool[w]]

    def at(loc):
        return inspect.isgenerator(loc.get('__it__'))

    def kind(site, loc):
        if not at(loc) or not site.startswith('quickly.transpose:'):
            return None
        c = g.last.cls
        names = {g.L.Relative: 'relative', g.L.Chord: 'chord', g.L.OctaveCheck: 'check'}
        k = names.get(c, 'consumer')
        if k == 'chord' and g.last.mode.kind != 'chord':
            k = 'consumer'
        return k

    def refs(p):
        return triple(p), triple(p.transposed if 'transposed' in vars(p) else p)

    def arbitrary(name):
        """An arbitrary reference pitch: (sounded, sounds now)"""
        p = g.pitch(g.fresh_name(name))
        if E.choice(g.fresh_name('transposed'), [True, False]):
            p.transposed = g.pitch(g.fresh_name(name + ' transposed'))
        return p

    def rel_inv(loc, ctx):
        g.verify()
        p = loc['last_pitch']
        a, b = refs(p)
        return [("the reference is the note before, as it sounded", g.same(a, ctx.ref[0])),
                ("the new reference is the note before, as it sounds now", g.same(b, ctx.ref[1]))]

    def rel_havoc(loc):
        p = loc['last_pitch'] = arbitrary('reference')
        g.last.mode.ref = refs(p)

    def chord_inv(loc, ctx):
        g.verify()
        s = loc['stack']
        a, b = refs(s[-1])
        c, d = refs(s[:2][-1])
        return [("in a chord the reference is the note before", E.And(g.same(a, ctx.ref[0]), g.same(b, ctx.ref[1]))),
                ("after a chord the reference is its first note", E.And(g.same(c, ctx.rel.ref[0]), g.same(d, ctx.rel.ref[1]))),
                ("notes in the chord", (len(s) == 1) == ctx.empty)]

    def chord_havoc(loc):
        s, ctx = loc['stack'], g.last.mode
        n = E.choice(g.fresh_name('notes before'), [0, 1, 2])
        del s[1:]
        s.extend(arbitrary('note in chord') for _ in range(n))
        ctx.empty = not n
        ctx.ref, ctx.rel.ref = refs(s[-1]), refs(s[:2][-1])

    def need(name, f):
        def h(loc, *a):
            if not isinstance(loc.get(name), object if name == 'last_pitch' else list):
                raise Unsupported("no %s" % name)
            return f(loc, *a)
        return h

    def entry(name):
        def f(loc):
            if name not in loc or name == 'stack' and type(loc[name]) is not list:
                raise Unsupported("the loop has no %s" % name)
            return g.last.mode
        return f
    g.cut_children()
    E.loop(LoopSpec("relative music", lambda site, loc: kind(site, loc) == 'relative' and 'last_pitch' in loc, rel_inv, on_havoc=rel_havoc,
                    entry=entry('last_pitch'), for_only=True, resume=True))
    E.loop(LoopSpec("chord", lambda site, loc: kind(site, loc) == 'chord', chord_inv, on_havoc=chord_havoc,
                    entry=entry('stack'), for_only=True, resume=True))
    E.loop(LoopSpec("consumer", lambda site, loc: kind(site, loc) == 'consumer', lambda loc: [], for_only=True, resume=True))


KINDS = ['note', 'container', 'markup', 'key', 'absolute', 'relative', 'fixed', 'transpose', 'own', 'chord', 'check']
FUNCS = ['transpose.Transpose.edit_range', 'pitch.PitchProcessor.process', 'pitch.Pitch.make_absolute', 'pitch.Pitch.make_relative', 'pitch.Pitch.copy', 'dom.util.skip_comments']


def run(E, kinds, depth, selection, forms='plain', first=False, version=None, top=None):
    T = E.mod('quickly.transpose')
    g = Ghost(E, kinds, depth, selection, forms)
    g.top = top or kinds
    g.first_absolute = first if first is not None else version >= (2, 18)
    if version is not None:
        E.patch(E.mod('quickly.dom.util'), 'lilypond_version', lambda node: version)
    contracts(E, g)
    E.cover("precondition")
    T.Transpose(g.transposer, g.pp, first).edit_range(Range(g))
    g.verify()
    g.reached()


def first_kinds(E, kinds, **kw):
    if E.symbolic:
        run(E, KINDS, 2, E.choice('selection', ['range', 'part']), top=kinds, **kw)


@unit('C07', 'relative music', functions=FUNCS, random_runs=0, max_paths=60000)
def u_relative(E):
    first_kinds(E, ['relative'])


@unit('C07', 'absolute music', functions=FUNCS, random_runs=0, max_paths=60000)
def u_absolute(E):
    first_kinds(E, ['note', 'rest', 'markup', 'absolute'])


@unit('C07', 'nested music', functions=FUNCS, random_runs=0, max_paths=60000)
def u_nested(E):
    first_kinds(E, ['container', 'chord', 'own'])


@unit('C07', 'music with its own convention', functions=FUNCS, random_runs=0, max_paths=60000)
def u_commands(E):
    first_kinds(E, ['key', 'fixed', 'transpose'])


@unit('C07', 'everything selected', functions=FUNCS, random_runs=0, max_paths=60000)
def u_full(E):
    if E.symbolic:
        run(E, KINDS, 1, 'full')


@unit('C07', 'start of relative music', functions=FUNCS, random_runs=0, max_paths=60000)
def u_start(E):
    """Versions, settings, and comments between the parts of a command."""
    if E.symbolic:
        setting = E.choice('setting', [None, True, False])
        version = E.choice('version', [(), (2,), (2, 16), (2, 17, 99), (2, 18), (2, 18, 0), (2, 20), (3,)]) if setting is None else (2, 18) * (not setting)
        run(E, ['relative'] if setting is None else ['relative', 'fixed'], 1, 'range', 'all', setting, version)


@unit('C07', 'a transposer moves every octave the same way', functions=['transpose.Transposer.transpose'], random_runs=500)
def u_octaves(E):
    """The contract of transposers that the other units use."""
    T, P = E.mod('quickly.transpose').Transposer, E.mod('quickly.pitch').Pitch
    p = lambda name: P(E.int(name + '.octave', big=6), E.int(name + '.note', 0, 6), E.real(name + '.alter', -1, 1))
    a, b = p('from'), p('to')
    x = p('x')
    y = x.copy()
    y.octave = E.int('other octave', big=6)
    d = y.octave - x.octave
    t = T(a, b)
    E.cover("precondition")
    t.transpose(x)
    t.transpose(y)
    E.prove("same note, same alteration, same number of octaves", E.And(x.note == y.note, x.alter == y.alter, y.octave - x.octave == d))

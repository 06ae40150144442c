"""C08: the proof of Rel2abs.edit_range and Abs2rel on ghost music (see musicghost)."""
import inspect
from pyvc.core import Unsupported
from pyvc.engine import unit
from pyvc.instr import LoopSpec
from checks.musicghost import All, Music, GNode, GNote, Stream, Only, Below, Snapshot


class Mode:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def triple(p):
    return p.octave, p.note, p.alter


class Ghost(Music):
    """what: 'absolute' (relative music is converted to absolute), or 'relative'."""
    def __init__(self, E, what, depth):
        super().__init__(E)
        self.what, self.depth = what, depth
        self.n = 0
        self.gone, self.replacements, self.elements = [], [], []
        self.first = None
        self.last = None
        E.ghost['list'] = self.listing

    def listing(self, x):
        if isinstance(x, (GNode, Below)) and isinstance(getattr(x, 'kids', None), Stream) or isinstance(x, Below):
            return Snapshot(x)
        return list(x)

    def note(self, mode, depth, cls=None, inner=True):
        note = GNote(self, self.fresh_name('note'))
        kids = Stream(self, Mode('own'), depth + 1) if inner and depth < self.depth else []
        note.mode = mode
        note.use(cls or self.L.Note, kids, check=mode.kind in ('rel', 'chord'))
        self.heard(note, mode)
        return note

    # -- specification
    def heard(self, note, mode):
        E = self.E
        o, n, a = note.pitch
        if mode.kind == 'check':
            mode.rel.ref = note.pitch
            mode.rel.empty = False
        elif mode.kind in ('rel', 'chord'):
            # a chord starts from the reference of the music around it
            if self.what == 'absolute':
                sounds = (self.nearest(note.label, n, mode.ref) + note.marks, n, a)
                note.expected = sounds + (note.check,)
            elif mode.ref is None:
                self.first = note       # becomes relative to the start pitch
                sounds = note.pitch
                note.expected = (None, n, a, note.check)
            else:
                sounds = note.pitch
                note.expected = (note.name_octave + o - self.nearest(note.label, n, mode.ref), n, a, note.check)
            if mode.kind == 'chord':
                mode.ref = sounds
                if mode.empty:
                    mode.rel.ref = sounds
                    mode.empty = False
            else:
                mode.ref = sounds

    # -- music
    def element(self, stream):
        E, L, mode, depth = self.E, self.L, stream.mode, stream.depth
        E = self.E
        if mode.kind == 'search':
            node = self.found(stream)
            self.last = node
            self.elements.append(node)
            return node
        if mode.kind == 'own':
            kinds = ['note'] + ['relative'] * (self.what == 'absolute')
        elif mode.kind == 'body':
            kinds = ['note', 'other']
            mode = mode.chord
        elif depth >= self.depth:
            kinds = ['note']
        elif mode.kind == 'chord':
            kinds = ['note', 'container', 'markup']
        else:
            kinds = ['note', 'rest', 'container', 'markup', 'own', 'chord', 'check', 'relative']
        k = E.choice(self.fresh_name('element'), kinds)
        if k == 'note':
            node = self.note(mode, depth)
        elif k == 'rest':
            node = self.note(mode, depth, L.PitchedRest)
        elif k == 'other':
            node = GNode(self, L.String)
        elif k == 'container':
            node = GNode(self, E.choice(self.fresh_name('class'), [L.MusicList, L.Score, L.ChordMode][:3 if depth == 0 else 1]), Stream(self, mode, depth + 1))
        elif k == 'markup':
            node = GNode(self, L.Markup, Stream(self, Mode('own'), depth + 1))
            node.mode = mode
        elif k == 'own':
            node = GNode(self, E.choice(self.fresh_name('class'), [L.Absolute, L.Fixed, L.Key, L.Inversion, L.AddInversion, L.Transpose, L.Transposition, L.StringTuning][:8 if depth < 2 else 1]),
                         Stream(self, Mode('own'), depth + 1))
        elif k == 'chord':
            m = Mode('chord', rel=mode, ref=mode.ref, empty=True)
            if self.what == 'absolute':
                node = GNode(self, L.Chord, Stream(self, m, depth + 1))
            else:
                node = GNode(self, L.Chord, [GNode(self, L.ChordBody, Stream(self, Mode('body', chord=m), depth + 1))])
            node.mode = m
        elif k == 'check':
            c = E.choice(self.fresh_name('pitch'), [True, False])
            m = Mode('check', rel=mode)
            node = GNode(self, L.OctaveCheck, [self.note(m, depth, L.Pitch, False)] if c else [])
            node.mode = m
        elif k == 'relative':
            if self.what == 'absolute':
                node = self.relative(mode, depth)
            else:
                node = GNode(self, L.Relative, Stream(self, Mode('own'), depth + 1))
        self.last = node
        if not (self.what == 'absolute' and k == 'relative' and mode.kind == 'own'):
            self.elements.append(node)
        return node

    def relative(self, mode, depth, converted=True):
        E, L = self.E, self.L
        if mode.kind == 'own' and not getattr(mode, 'markup', False):
            converted = False
        m = Mode('rel', ref=None)
        start = E.choice(self.fresh_name('start pitch'), [True, False])
        kids = []
        if start:
            p = self.note(Mode('own'), depth, L.Pitch, False)
            m.ref = p.pitch
            kids.append(p)
        else:
            m.ref = (-1, 3, 0) if self.first_absolute else (0, 0, 0)
        body = GNode(self, L.MusicList, Stream(self, m if converted else Mode('own'), depth + 1))
        n = E.choice(self.fresh_name('comments'), [0, 1, 2]) if self.forms == 'all' else 0
        c = [[], [GNode(self, L.MultilineComment)], [GNode(self, L.SinglelineComment), GNode(self, L.MultilineComment)]][n]
        node = GNode(self, L.Relative, c[:1] + kids + c[1:] + [body])
        node.mode, node.music, node.converted = m, body, converted
        if converted:
            self.replacements.append(node)
        return node

    def below(self, b, raw):
        """Nodes of some classes below b.node; followed by the pitch processor."""
        L = self.L
        if L.Relative not in b.T or not isinstance(b.node.kids, Stream):
            return iter(())
        s = Stream(self, Mode('search', markup=True), self.depth)
        b.node.searched = True
        s.owner = GNode(self, L.MusicList, s)
        s.followed, s.raw = True, raw
        return s

    def found(self, stream):
        return self.relative(Mode('own', markup=True), stream.depth)

    # -- effects
    def replaced(self, parent, node, nodes):
        self.E.prove("the list being changed is not being iterated over", not (isinstance(parent.kids, Stream) and parent.kids.raw))
        self.E.prove("only relative commands that are converted are replaced", node.cls is self.L.Relative and node.converted)
        self.E.prove("the music takes the place of the command", sum(n is node.music for n in nodes) == 1 and
                     all(n is node.music or n.cls in (self.L.MultilineComment, self.L.SinglelineComment) for n in nodes))
        self.gone.append(node)

    def removed(self, parent, node):
        if node.cls is self.L.Relative:
            raise Unsupported("removing the relative command")
        self.E.prove("the list being changed is not being iterated over", not parent.kids.raw)
        self.E.prove("only octave checks in relative music are removed", node.cls is self.L.OctaveCheck and node.mode.rel.kind == 'rel')
        self.gone.append(node)

    def ancestors(self, node):
        if node.above is None:
            raise Unsupported("ancestors of a ghost node")
        return node.above

    # -- checks
    def finished(self, first=0):
        """What is to be said when all elements from first on are finished."""
        E, L = self.E, self.L
        for n in self.elements[first:]:
            if n.cls is L.OctaveCheck and self.what == 'absolute' and n.mode.rel.kind == 'rel':
                E.prove("octave checks are removed from relative music", any(g is n for g in self.gone))
            if self.what == 'absolute' and isinstance(n.kids, Stream) and (n.cls is L.Markup or isinstance(n, GNote)) and n.mode.kind in ('rel', 'chord'):
                E.prove("relative music in markup is converted", n.searched)
            if n.cls is L.Relative and self.what == 'absolute' and n.converted:
                E.prove("the relative command is removed", sum(g is n for g in self.gone) == 1)
            elif not (isinstance(n, GNote) and n.mode.kind == 'chord'):      # the chord as a whole is followed
                E.prove("the language is followed through all music", n.followed or not isinstance(n.kids, Stream) and n.cls is not L.Chord)

    def verify(self, what="pitches"):
        super().verify(what)
        if self.first is not None and self.what == 'relative':
            note = self.first
            ref = self.start_pitch()
            o, n, a = note.original[2] + note.name_octave, note.original[0], note.original[1]
            k = self.nearest('first', n, ref)
            self.E.prove("the first note sounds the same", note.written == note.name_octave + o - k)

    def contracts(self):
        E, g, L = self.E, self, self.L

        def where(site, loc):
            return isinstance(loc.get('__it__'), (Stream, Only))

        def stream_of(loc):
            it = loc['__it__']
            return it.stream if isinstance(it, Only) else it

        def inv(loc):
            g.verify()
            s = stream_of(loc)
            if s.begun:
                g.reached(s.first)
                g.finished(s.first_element)
            return g.state(s, loc)

        def havoc(loc):
            s = stream_of(loc)
            if not s.begun:
                s.first_element = len(g.elements)
            g.havoc(s, loc)
        E.loop(LoopSpec("children", where, inv, on_havoc=havoc, for_only=True))
        E.ghost['local_objects'] = All(self)

    def state(self, stream, loc):
        return []

    def havoc(self, stream, loc):
        pass


class ToAbsolute(Ghost):
    """Relative music to absolute music."""
    def __init__(self, E, depth, forms='plain'):
        super().__init__(E, 'absolute', depth)
        self.forms = forms

    def contracts(self):
        super().contracts()
        E, g, L = self.E, self, self.L

        def kind(site, loc):
            if not inspect.isgenerator(loc.get('__it__')) or not site.startswith('quickly.relative:') or g.last is None:
                return None
            return {L.Relative: 'relative', L.Chord: 'chord', L.OctaveCheck: 'check'}.get(g.last.cls)

        def entry(name):
            def f(loc):
                if name not in loc or name == 'stack' and type(loc[name]) is not list:
                    raise Unsupported("the loop has no %s" % name)
                return g.last.mode
            return f

        def rel_inv(loc, ctx):
            g.verify()
            return [("the reference is the note before, as it sounds", g.same(triple(loc['last_pitch']), ctx.ref))]

        def rel_havoc(loc):
            p = loc['last_pitch'] = g.pitch(g.fresh_name('reference'))
            g.last.mode.ref = triple(p)

        def chord_inv(loc, ctx):
            g.verify()
            s = loc['stack']
            return [("in a chord the reference is the note before", g.same(triple(s[-1]), ctx.ref)),
                    ("after a chord the reference is its first note", g.same(triple(s[:2][-1]), ctx.rel.ref)),
                    ("notes in the chord", (len(s) == 1) == ctx.empty)]

        def chord_havoc(loc):
            s, ctx = loc['stack'], g.last.mode
            n = E.choice(g.fresh_name('notes before'), [0, 1, 2])
            del s[1:]
            s.extend(g.pitch(g.fresh_name('note in chord')) for _ in range(n))
            ctx.empty = not n
            ctx.ref, ctx.rel.ref = triple(s[-1]), triple(s[:2][-1])
        E.loop(LoopSpec("relative music", lambda site, loc: kind(site, loc) == 'relative' and 'last_pitch' in loc and g.last.converted, rel_inv, on_havoc=rel_havoc,
                        entry=entry('last_pitch'), for_only=True, resume=True))
        E.loop(LoopSpec("chord", lambda site, loc: kind(site, loc) == 'chord', chord_inv, on_havoc=chord_havoc,
                        entry=entry('stack'), for_only=True, resume=True))

    def found(self, stream):
        """A node in the range that is searched."""
        if getattr(stream.mode, 'markup', False):
            return super().found(stream)
        E, L = self.E, self.L
        above = E.choice(self.fresh_name('above'), [[], [L.MusicList], [L.MusicList, L.Relative], [L.Fixed], [L.Absolute]])
        self.inside = E.choice(self.fresh_name('in range'), [True, False])
        if E.choice(self.fresh_name('found'), ['relative', 'fixed']) == 'relative':
            node = self.relative(Mode('own', markup=True), stream.depth, converted=self.inside and not (L.Relative in above or L.Fixed in above))
            stream.owner = E.choice(self.fresh_name('parent'), [GNode(self, L.MusicList, [GNode(self, L.MusicList), node, GNode(self, L.MusicList)]),
                                                                GNode(self, L.Assignment, [node])])
        else:
            node = GNode(self, L.Fixed, Stream(self, Mode('own'), stream.depth + 1))
        node.above = above
        return node


class Range:
    """Ghost range: what it is searched for are arbitrary nodes."""
    def __init__(self, g, mode='search'):
        self.g = g
        self.top = GNode(g, g.L.Document)
        self.start = g.E.choice('start of the range', [None, GNode(g, g.L.MusicList)])
        self.mode = mode
        self.searches = 0

    def ancestor(self):
        return self.top

    def start_node(self):
        return self.start

    def instances_of(self, T):
        T = T if isinstance(T, tuple) else (T,)
        self.searches += 1
        self.g.E.prove("languages are searched", {self.g.L.Language, self.g.L.Include} <= set(T))
        self.T = T
        s = Stream(self.g, Mode(self.mode, range=self), 0)
        return s

    def in_range(self):
        return self.g.inside

    def start_language(self, pp, found):
        def find_language(node):
            self.g.E.prove("the language is searched from the start of the range", node is (self.start or self.top))
            found.append(node)
        pp.find_language = find_language


FUNCS = ['relative.Rel2abs.edit_range', 'relative._skip', 'relative._can_convert', 'pitch.PitchProcessor.process', 'pitch.Pitch.make_absolute', 'dom.util.skip_comments']


def version_setting(E, short):
    """(setting, whether the first pitch is absolute)"""
    setting = E.choice('setting', [None, True, False]) if not short else False
    v = E.choice('version', [(), (2,), (2, 16), (2, 17, 99), (2, 18), (2, 18, 0), (2, 20), (3,)]) if setting is None else (2, 18) * (not setting)
    E.patch(E.mod('quickly.dom.util'), 'lilypond_version', lambda node: v)
    return setting, (v >= (2, 18) if setting is None else setting)


def to_absolute(E, depth, forms, short):
    if not E.symbolic:
        return
    R = E.mod('quickly.relative')
    g = ToAbsolute(E, depth, forms)
    setting, g.first_absolute = version_setting(E, short)
    g.contracts()
    r, found = Range(g), []
    r.start_language(g.pp, found)
    E.cover("precondition")
    R.Rel2abs(g.pp, setting).edit_range(r)
    g.verify()
    g.reached()
    g.finished()
    E.prove("the range is searched", r.searches == 1 and r.T and g.L.Relative in r.T and g.L.Fixed in r.T)
    E.prove("the language is determined", len(found) == 1)


@unit('C08', 'relative music to absolute', functions=FUNCS, random_runs=0, max_paths=60000)
def u_absolute(E):
    to_absolute(E, 2, 'plain', True)


@unit('C08', 'start of relative music, to absolute', functions=FUNCS, random_runs=0, max_paths=60000)
def u_start(E):
    to_absolute(E, 1, 'all', False)


class ToRelative(Ghost):
    """Absolute music to relative."""
    forms = 'plain'

    def __init__(self, E, depth, start):
        super().__init__(E, 'relative', depth)
        self.start = start
        self.starts = []
        self.start_language = self.language = self.pp.language
        def pitchable(pitch, cls=None):
            E.prove("the start pitch precedes language changes in the music", self.pp.language == self.start_language)
            node = GNode(self, cls or self.L.Note)
            node.pitch = triple(pitch)
            self.starts.append(node)
            return node
        self.pp.pitchable = pitchable
        E.assumed("contract of PitchProcessor.pitchable (C03): a node of that pitch")
        self.protected.discard(id(self.pp))

    def start_pitch(self):
        """The pitch the first note is read from."""
        if not self.start:
            self.E.prove("no start pitch", not self.starts)
            return (-1, 3, 0) if self.first_absolute else (0, 0, 0)
        self.E.prove("one start pitch, directly in the relative command", len(self.starts) == 1 and self.starts[0].cls is self.L.Pitch and
                     type(self.starts[0].parent) is self.L.Relative and self.starts[0].parent[0] is self.starts[0])
        return self.starts[0].pitch

    def state(self, stream, loc):
        if stream.mode.kind not in ('rel', 'chord'):
            return []
        if 'last_pitch' not in loc:
            raise Unsupported("the loop has no last_pitch")
        return [("the language is that of the music", self.pp.language == self.language),
                ("the reference is the note before", self.is_ref(loc['last_pitch'], stream.mode.ref))]

    def is_ref(self, p, ref):
        if p is None or ref is None:
            return p is None and ref is None
        return self.same(triple(p), ref)

    def arbitrary(self, name):
        return self.pitch(self.fresh_name(name))

    def havoc(self, stream, loc):
        if stream.mode.kind not in ('rel', 'chord'):
            return
        self.language = self.pp._language = self.E.choice(self.fresh_name('language'), [self.start_language, 'english'])
        # notes before: the first note is converted already
        if self.E.choice(self.fresh_name('notes before'), [False, True]):
            p = loc['last_pitch'] = self.arbitrary('reference')
            stream.mode.ref = triple(p)
        else:
            self.E.assume(stream.mode.ref is None)
            loc['last_pitch'] = None

    def contracts(self):
        super().contracts()
        E, g, L = self.E, self, self.L

        def where(site, loc):
            return inspect.isgenerator(loc.get('__it__')) and site.startswith('quickly.relative:') and g.last is not None and g.last.cls is L.Chord

        def entry(loc):
            if type(loc.get('stack')) is not list:
                raise Unsupported("the loop has no stack")
            return g.last.mode

        def inv(loc, ctx):
            g.verify()
            s = loc['stack']
            return [("in a chord the reference is the note before", g.is_ref(s[-1], ctx.ref)),
                    ("after a chord the reference is its first note", g.is_ref(s[:2][-1], ctx.rel.ref)),
                    ("notes in the chord", (len(s) == 1) == ctx.empty),
                    ("the language is that of the music", g.pp.language == g.language)]

        def havoc(loc):
            s, ctx = loc['stack'], g.last.mode
            n = E.choice(g.fresh_name('notes before'), [0, 1, 2])
            del s[1:]
            s.extend(g.arbitrary('note in chord') for _ in range(n))
            ctx.empty = not n
            if n:
                ctx.ref, ctx.rel.ref = triple(s[-1]), triple(s[:2][-1])
        E.loop(LoopSpec("chord", where, inv, on_havoc=havoc, entry=entry, for_only=True))


TO_RELATIVE = ['relative.Abs2rel.make_relative', 'relative.Abs2rel._make_relative_internal', 'relative.Abs2rel._get_settings', 'pitch.PitchProcessor.process', 'pitch.Pitch.make_relative']


@unit('C08', 'absolute music to relative', functions=TO_RELATIVE, random_runs=0, max_paths=60000)
def u_relative(E):
    if E.symbolic:
        to_relative(E, 2, True)


@unit('C08', 'absolute music to relative, without start pitch', functions=TO_RELATIVE, random_runs=0, max_paths=60000)
def u_relative_first(E):
    if E.symbolic:
        to_relative(E, 2, False)


@unit('C08', 'start of absolute music, to relative', functions=TO_RELATIVE, random_runs=0, max_paths=60000)
def u_relative_start(E):
    if E.symbolic:
        to_relative(E, 1, False)


def to_relative(E, depth, start):
    R, L = E.mod('quickly.relative'), E.mod('quickly.dom.lily')
    g = ToRelative(E, depth, start)
    setting, g.first_absolute = version_setting(E, start or depth > 1)
    g.contracts()
    m = Mode('rel', ref=None)
    m.rel = m
    if E.choice('children', ['any', 'notes']) == 'any':
        kids = Stream(g, m, 0)
    else:
        # a list of a few notes, to the end
        g.depth = 0
        kids = [g.note(m, 1) for i in range(E.choice('number of notes', [0, 1, 2]))]
    node = GNode(g, E.choice('class', [L.MusicList, L.SimultaneousMusicList]) if start else L.MusicList, kids)
    root = E.choice('root', [False, True]) if start else False
    node.is_root = lambda: root
    found = []
    g.pp.find_language = found.append
    E.cover("precondition")
    rel = R.Abs2rel(g.pp, start, setting).make_relative(node)
    g.verify()
    g.reached()
    g.finished()
    E.prove("the language before the music", root or len(found) == 1 and found[0] is node)
    if g.first is not None:
        # the loops were not cut
        E.prove("a start pitch if wanted", len(g.starts) == int(start))
    E.prove("a relative command with start pitch and music", type(rel) is L.Relative and len(rel) == len(g.starts) + 1 and
            all(rel[i] is n for i, n in enumerate(g.starts + [node])))


class Search(Ghost):
    """The nodes a range is searched for."""
    forms = 'plain'

    def __init__(self, E):
        super().__init__(E, 'relative', 0)
        self.converted = []

    def found(self, stream):
        E, L = self.E, self.L
        r = stream.mode.range
        above = E.choice(self.fresh_name('above'), [[], [L.Fixed], [L.MusicList, L.Relative]][:3 if r.searches == 1 else 2])
        self.inside = E.choice(self.fresh_name('in range'), [True, False])
        cls = E.choice(self.fresh_name('found'), [L.MusicList, L.ChordMode, L.Relative, L.Fixed])
        kids = []
        if issubclass(cls, L.MusicList):
            kids = E.choice(self.fresh_name('children'), [[L.MusicList, L.Rest], [], [L.MusicList, L.PitchedRest], [L.Note]][:4 if r.searches == 1 else 3])
        node = GNode(self, cls, [GNode(self, c) for c in kids] or Stream(self, Mode('own'), 9))
        if issubclass(cls, L.MusicList):
            node.kids = [GNode(self, c) for c in kids]
        node.above = above
        notes = any(issubclass(c, L.Pitchable) for c in kids)
        free = L.Relative not in above and L.Fixed not in above
        node.convert = free and (issubclass(cls, L.MusicList) and notes and self.inside)
        node.may = node.convert or free and cls is L.ChordMode
        node.number = r.searches
        r.node = node
        return node

    def finished(self, first=0):
        E, L = self.E, self.L
        for n in self.elements[first:]:
            c = sum(a is n for a, b in self.converted)
            E.prove("music lists with notes are made relative, once", c == 1 if n.convert else c <= n.may)
            if c:
                E.prove("the relative command takes the place of the music", [b for a, b in self.converted if a is n][0] is self.r.node)
            elif issubclass(n.cls, L.MusicList):
                E.prove("other lists are searched", self.r.searches > n.number)
            else:
                E.prove("the language is followed through all music", n.followed or n.cls is L.ChordMode)


class SearchRange(Range):
    def instances_of(self, T):
        if self.searches == 2:
            self.searches += 1
            return iter(())
        s = super().instances_of(T)
        s.mode.range = self
        self.g.E.prove("all music is searched", {self.g.L.MusicList, self.g.L.ChordMode, self.g.L.Relative, self.g.L.Fixed} <= set(T))
        return s


@unit('C08', 'which music is made relative', functions=['relative.Abs2rel.edit_range', 'relative.Abs2rel._get_settings', 'relative._can_convert', 'relative._skip'], random_runs=0, max_paths=60000)
def u_which(E):
    if not E.symbolic:
        return
    R, L = E.mod('quickly.relative'), E.mod('quickly.dom.lily')
    g = Search(E)
    g.first_absolute = True
    g.contracts()
    g.r = r = SearchRange(g)
    found = []
    def find_language(node):
        E.prove("the language is searched from the start of the range", node is (r.start or r.top))
        found.append(node)
    g.pp.find_language = find_language
    roots = E.choice('root', [False, True]) if r.start is None else False
    for n in (r.top, r.start):
        if n is not None:
            n.is_root = lambda: roots
    conv = R.Abs2rel(g.pp, True, True)
    def make(self, node, processor, first):
        E.prove("with the settings and the processor", processor is g.pp and first is True)
        new = GNode(g, L.Relative)
        g.converted.append((node, new))
        return new
    if not hasattr(R.Abs2rel, '_make_relative_internal'):
        raise Unsupported("_make_relative_internal")
    E.patch(R.Abs2rel, '_make_relative_internal', make)
    E.cover("precondition")
    conv.edit_range(r)
    E.prove("the range is searched", r.searches)
    E.prove("the language is determined", roots or len(found) == 1)
    g.finished()

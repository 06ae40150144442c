"""Ghost music for the proofs of C07 and C08: trees of arbitrary size, of which
every list of children is a sequence of arbitrary length with one arbitrary
element; pitches are arbitrary numbers."""
import z3
from pyvc import core
from pyvc.core import SNum, PathEnd, Unsupported
from pyvc.instr import LoopSpec


class All:
    """Objects a loop may write: pitches and notes (their values are what the invariants speak of)."""
    def __init__(self, g):
        self.g = g

    def __contains__(self, i):
        return i not in self.g.protected


class GNode:
    """A node of the ghost tree: class cls, children a list or a Stream."""
    def __init__(self, g, cls, children=(), **kw):
        self.g, self.cls = g, cls
        self.kids = children if isinstance(children, Stream) else list(children)
        self.parent = None
        for k in () if isinstance(children, Stream) else children:
            k.parent = self
        if isinstance(children, Stream):
            children.owner = self
        self.searched = False
        self.followed = False       # the language was followed through this node
        self.above = None           # (Relative, Fixed) ancestors that count
        for k, v in kw.items():
            setattr(self, k, v)

    def __pv_isinstance__(self, T):
        return issubclass(self.cls, T)

    def __pv_type__(self):
        return self.cls

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported("%s.%s of a ghost node" % (self.cls.__name__, name))

    def concrete(self):
        if isinstance(self.kids, Stream):
            raise Unsupported("children of a node with arbitrary children")
        return self.kids

    def __pv_iter__(self):
        return iter(self.concrete())
    __iter__ = __pv_iter__

    def __pv_len__(self):
        return len(self.concrete())
    __len__ = __pv_len__

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self.concrete()[i]

    def instances_of(self, T):
        # the language commands below a node
        return Below(self, T)

    def __truediv__(self, T):
        kids = self.kids
        if isinstance(kids, Stream):
            return kids.only(T)
        return iter([k for k in kids if issubclass(k.cls, T)])

    def index(self, node):
        if isinstance(self.kids, Stream):
            if node is not self.kids.at:
                raise Unsupported("index of a ghost node")
            return 5        # somewhere
        return [k is node for k in self.kids].index(True)

    def __setitem__(self, i, nodes):
        node = None
        if isinstance(i, slice) and i.step is None and isinstance(i.start, int) and isinstance(i.stop, int) and i.stop == i.start + 1:
            if not isinstance(self.kids, Stream):
                node = self.kids[i.start]
            elif i.start == 5:
                node = self.kids.at
        if node is None:
            raise Unsupported("setting items of a ghost node")
        nodes = list(nodes)
        self.g.replaced(self, node, nodes)
        for n in nodes:
            n.parent = self
        if not isinstance(self.kids, Stream):
            self.kids[i] = nodes

    def remove(self, node):
        if not (isinstance(self.kids, Stream) and node is self.kids.at):
            raise Unsupported("removing a ghost node")
        self.g.removed(self, node)

    @property
    def _parent(self):
        raise Unsupported("parent of a ghost node")

    @_parent.setter
    def _parent(self, ref):
        self.parent = ref()

    def __lshift__(self, T):
        return iter([c for c in self.g.ancestors(self) if issubclass(c, T)])


class Below:
    """The descendants of a ghost node of some class."""
    def __init__(self, node, T):
        self.node, self.T = node, T if isinstance(T, tuple) else (T,)

    def __pv_iter__(self):
        raise Unsupported("nodes below a ghost node")
    __iter__ = __pv_iter__


class Snapshot:
    """list(node) of a node with arbitrary children"""
    def __init__(self, what):
        self.what = what


class GNote(GNode):
    """A note: its name (note, alteration, octave of the name) and octave marks are arbitrary."""
    def __init__(self, g, name, cls=None):
        super().__init__(g, cls or g.L.Note)
        E = g.E
        self.label = name
        self.name_octave = E.int(name + '.name octave', -4, 3)
        self.note = E.int(name + '.note', 0, 6)
        self.alter = E.real(name + '.alter', -3, 3)
        self.marks = E.int(name + '.marks')
        self.check = None
        self.writable = True
        self.expected = None        # (octave, note, alter, check) as written after the edit
        self.original = None

    def use(self, cls, children=(), check=False):
        """Put the note at its place in the music."""
        self.cls, self.kids = cls, children
        if check and self.g.E.choice(self.label + '.has check', [False, True]):
            self.check = self.g.E.int(self.label + '.check')
        self.original = (self.note, self.alter, self.marks, self.check)
        self.g.notes.append(self)
        return self

    @property
    def octave(self):
        return self.marks

    @octave.setter
    def octave(self, v):
        self.marks = v

    @property
    def oct_check(self):
        return self.check

    @oct_check.setter
    def oct_check(self, v):
        self.check = v

    @property
    def written(self):
        """octave as read by a pitch processor"""
        return self.name_octave + self.marks

    @property
    def pitch(self):
        return self.written, self.note, self.alter

    def verify(self, E, what):
        n, a, m, c = self.original
        if self.expected is None:
            E.prove("a note that is not to change is not touched", E.And(self.note == n, self.alter == a, self.marks == m,
                    self.check is c or c is not None and self.check is not None and self.check == c))
        else:
            o, n, a, c = self.expected
            E.prove("%s: note and alteration" % what, E.And(self.note == n, self.alter == a))
            if o is not None:
                E.prove("%s: octave" % what, self.written == o)
            E.prove("%s: octave check" % what, self.check is None if c is None else self.check is not None and self.check == c)


class Stream:
    """The children of a ghost node; the element given by make(stream, index)."""
    def __init__(self, g, mode, depth):
        self.g, self.mode, self.depth = g, mode, depth
        self.name = g.fresh_name('children')
        self.begun = False
        self.n = 0
        self.followed = False
        self.raw = False            # iterated without making a list first
        self.at = self.owner = None
        g.streams.append(self)

    def __pv_iter__(self):
        if not self.followed:
            raise Unsupported("children iterated without following the language")
        return self
    __iter__ = __pv_iter__

    def __next__(self):
        g = self.g
        self.n += 1
        if not self.begun:
            self.begun = True
            self.first = len(g.streams)     # what is created from now on is below this node
        if g.E.choice('%s end%d' % (self.name, self.n), [True, False]):
            raise StopIteration
        mark = len(g.E.writelog)
        node = self.at = g.element(self)
        node.parent = self.owner
        del g.E.writelog[mark:]
        return node

    def only(self, T):
        self.followed = True
        return Only(self, T)


class Only:
    """node / T on arbitrary children: the elements of that class."""
    def __init__(self, stream, T):
        self.stream, self.T = stream, T

    def __pv_iter__(self):
        return self
    __iter__ = __pv_iter__

    def __next__(self):
        while True:
            n = next(self.stream)
            if issubclass(n.cls, self.T):
                return n
            raise PathEnd()     # passed over: as if it were not there


class Music:
    """The ghost music of one proof."""
    octchecks = True

    def __init__(self, E):
        self.E = E
        self.L = E.mod('quickly.dom.lily')
        self.P = E.mod('quickly.pitch')
        self.names = 0
        self.notes = []
        self.streams = []
        self.protected = set()
        self.pp = pp = self.P.PitchProcessor()
        self.protected.add(id(pp))
        # contracts of the pitch processor (C03, C19)
        def read_node(note):
            if not isinstance(note, GNote):
                raise Unsupported("read_node")
            return self.P.Pitch(note.written, note.note, note.alter)
        def write_node(note, p):
            if not isinstance(note, GNote):
                raise Unsupported("write_node")
            note.note, note.alter, note.marks = p.note, p.alter, p.octave - note.name_octave
        def follow_language(nodes):
            raw = not isinstance(nodes, Snapshot)
            if not raw:
                nodes = nodes.what
            if isinstance(nodes, GNode):
                nodes.followed = True
                nodes = nodes.kids
            if isinstance(nodes, (Stream, Only)):
                s = nodes.stream if isinstance(nodes, Only) else nodes
                s.followed = True
                s.raw = s.raw or raw
                return nodes
            if isinstance(nodes, Below):
                nodes.node.followed = True
                return self.below(nodes, raw)
            return iter(list(nodes))
        pp.read_node, pp.write_node, pp.follow_language = read_node, write_node, follow_language
        E.assumed("contract of PitchProcessor.read_node/write_node (C03): what is written reads back; the names of a language carry one octave (not so in bagpipe music, of which the names are not changed)")
        E.assumed("contract of PitchProcessor.follow_language (C19): every node except the language commands, in order")

    def below(self, b, raw):
        raise Unsupported("nodes below a ghost node")

    def replaced(self, parent, node, nodes):
        raise Unsupported("replacing a ghost node")

    def ancestors(self, node):
        raise Unsupported("ancestors of a ghost node")

    def fresh_name(self, s):
        self.names += 1
        return '%s %d' % (s, self.names)

    def pitch(self, name):
        E = self.E
        return self.P.Pitch(E.int(name + '.octave'), E.int(name + '.note', 0, 6), E.real(name + '.alter', -3, 3))

    def nearest(self, name, n, ref):
        """The octave in which note n is at most three staff steps away from ref."""
        E = self.E
        o = E.int(self.fresh_name('nearest ' + name))
        d = o * 7 + n - ref[0] * 7 - ref[1]
        E.assume(E.And(d >= -3, d <= 3))
        return o

    def same(self, p, q):
        return self.E.And(p[0] == q[0], p[1] == q[1], p[2] == q[2])

    def removed(self, parent, node):
        raise Unsupported("removing a ghost node")

    def verify(self, what="transposed"):
        for n in self.notes:
            n.verify(self.E, what)

    def reached(self, first=0):
        """The children of all nodes that are finished were visited, unless they are left alone."""
        self.E.prove("all music is reached", all(s.begun for s in self.streams[first:] if s.mode.kind != 'own'))

    def cut_children(self):
        """Cut every loop over arbitrary children at an arbitrary element."""
        def inv(loc):
            self.verify()
            it = loc['__it__']
            it = it.stream if isinstance(it, Only) else it
            if it.begun:
                self.reached(it.first)
            return []
        self.E.loop(LoopSpec("children", lambda site, loc: isinstance(loc.get('__it__'), (Stream, Only)), inv, for_only=True))
        self.E.ghost['local_objects'] = All(self)

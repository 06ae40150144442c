"""C14: rhythm commands keep or change note lengths exactly as they promise."""
import contextlib
import io
import random
from fractions import Fraction

from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = ('Proved for music with any number of notes, rests and chords (a loop contract on each walk over the range, the duration in effect before and after the change as ghost state): making durations explicit or implicit (also per line) '
        'leaves the duration in effect at every item, and after the last one, what it was; removing takes away written durations only where allowed; copying and pasting give each item exactly its duration; '
        'transformations and the removal of scaling change exactly what they should. The walk itself (which items have a duration), whether a duration may be removed (what follows it in the text, through any nesting), '
        'the search for the previous duration and the duration and scaling attributes are proved too. That the changed document reads back with these durations is checked at run time on random documents and selections (bounded).')
ASSUMPTIONS = ['Node.ancestors_with_index() and the type operators of nodes (see C10)', 'itertools.cycle()',
               'LilyPond takes the last duration (of an item other than \\skip) that precedes an item in the text as its duration']


# ---------------------------------------------------------------- proofs

class All:
    def __contains__(self, x):
        return True


class Ghost:
    def __getattr__(self, name):
        if name.startswith('__pv_') or name == 'at_run':
            raise AttributeError(name)
        raise core.Unsupported("%s of a ghost %s" % (name, type(self).__name__))

    def __bool__(self):
        return True


def listing(x):
    """list() of the nodes of a walk: the same nodes in the same order."""
    if isinstance(x, Ghost) and getattr(type(x), '__pv_iter__', None):
        return x
    return list(x)


class Opaque(Ghost):
    """Something that is only passed on."""


def num(E, name):
    return core.SNum(E.fresh_int(name), True)


def fresh_pair(E, name):
    """A duration and a scaling (numbers that stand for arbitrary values)."""
    return num(E, name), num(E, name + ' scaling')


def same(E, a, b):
    return E.And(a[0] == b[0], a[1] == b[1])


class DurNode(Ghost):
    """A Duration element."""
    def __init__(self, pair):
        self.pair = pair

    def copy(self, *a, **k):
        return DurNode(self.pair)


class Item(Ghost):
    """A Durable: what is written (None or a pair) may change."""
    def __init__(self, w):
        E = w.E
        object.__setattr__(self, 'w', w)
        own = fresh_pair(E, 'written') if E.choice('written', [True, False]) else None
        self.put(own=own, orig=own, removed=False, allowed=None, changed=False)
        self.put(sets=E.choice('sets the previous duration', [True, False]) if own is not None else True)
        self.put(block=None)

    def put(self, **k):
        for n, v in k.items():
            object.__setattr__(self, n, v)

    def __setattr__(self, name, value):
        if name == 'duration_scaling':
            if value is None:
                self.put(own=None, removed=True)
            elif isinstance(value, tuple) and len(value) == 2:
                self.put(own=value, changed=True)
            else:
                raise core.Unsupported("duration_scaling = %r" % (value,))
        elif name == 'duration':
            if value is None:
                self.put(own=None, removed=True)
            else:
                self.put(own=(value, self.own[1] if self.own else 1), changed=True)
        elif name == 'scaling':
            if self.own is None:
                if value is None:
                    return
                raise core.Unsupported("scaling without duration")
            self.put(own=(self.own[0], 1 if value is None else value), changed=True)
        else:
            raise core.Unsupported("%s of an item set" % name)

    def __delattr__(self, name):
        if name in ('duration', 'scaling', 'duration_scaling'):
            setattr(self, name, None)
        else:
            raise core.Unsupported("del %s" % name)

    @property
    def duration(self):
        return self.own[0] if self.own is not None else None

    @property
    def scaling(self):
        return self.own[1] if self.own is not None else None

    @property
    def duration_scaling(self):
        return self.own

    @property
    def duration_sets_previous(self):
        return self.sets

    def __truediv__(self, cls):
        if cls is not self.w.L.Duration:
            raise core.Unsupported("other children")
        return iter([DurNode(self.own)] if self.own is not None else [])

    def add(self, node):
        if not isinstance(node, DurNode):
            raise core.Unsupported("other child added")
        if self.own is not None:
            self.w.E.prove("an item gets only one duration", False)
        self.put(own=node.pair, changed=True)


class Block(Ghost):
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return self.n == other.n if isinstance(other, Block) else False

    __hash__ = None


class World:
    """The items of a range, with the duration in effect before (O) and after (N) the changes."""
    def __init__(self, E, keep=False, blocks=False):
        self.E, self.keep, self.blocks = E, keep, blocks
        self.L, self.R = E.mod('quickly.dom.lily'), E.mod('quickly.rhythm')
        self.O = fresh_pair(E, 'in effect')
        self.N = self.O
        self.cur = None
        self.index = 0
        self.ended = False
        self.spec = lambda item: None
        self.range = Opaque()
        E.ghost['local_objects'] = All()

        def durables(r):
            if r is not self.range:
                raise core.Unsupported("other range")
            return Stream(self)

        def may_remove(node):
            if node is not self.cur:
                raise core.Unsupported("another node")
            if node.allowed is None:
                node.put(allowed=E.choice('may be removed', [True, False]))
            return node.allowed

        def previous_duration(node):
            if node is not self.cur:
                raise core.Unsupported("another node")
            return self.N
        E.patch(self.R.EditRhythm, 'durables', staticmethod(durables))
        E.patch(self.R.EditRhythm, 'may_remove', staticmethod(may_remove))
        E.patch(self.L, 'previous_duration', previous_duration)

        def from_duration(d, s=1):
            return DurNode((d, s))
        E.patch(self.L.Duration, 'from_duration', staticmethod(from_duration))
        E.patch(self.R.EditRhythm, 'find_block', lambda s, node: node.block)

    def settle(self):
        """The current item is finished."""
        E, c = self.E, self.cur
        if c is None:
            return
        self.cur = None
        if c.removed:
            E.prove("a duration is only removed where that is allowed", bool(c.allowed) and c.own is None)
        o = c.orig if c.orig is not None else self.O
        n = c.own if c.own is not None else self.N
        if self.keep:
            E.prove("the duration in effect at an item is the same", same(E, o, n))
        self.spec(c)
        if c.orig is not None and c.sets:
            self.O = c.orig
        if c.own is not None and c.sets:
            self.N = c.own

    def loop(self, inv=lambda loc: [], havoc=lambda loc: None):
        E = self.E

        def invariant(loc):
            self.settle()
            return ([("the duration in effect is the same", same(E, self.O, self.N))] if self.keep else []) + inv(loc)

        def on_havoc(loc):
            self.cur = None
            self.O = fresh_pair(E, 'in effect')
            self.N = fresh_pair(E, 'in effect now')
            self.index = num(E, 'index')
            E.assume(self.index >= 0)
            havoc(loc)
        E.loop(LoopSpec("items", lambda site, loc: isinstance(loc.get('__it__'), Stream), invariant, on_havoc=on_havoc, for_only=True, fresh=lambda n, v: v))

    def finish(self):
        self.settle()
        self.E.prove("all items are visited", self.ended)
        if self.keep:
            self.E.prove("after the last item the duration in effect is the same", same(self.E, self.O, self.N))


class Stream(Ghost):
    def __init__(self, w):
        self.w = w

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        w = self.w
        w.settle()
        if w.E.choice('next', ['end', 'item']) == 'end':
            w.ended = True
            raise StopIteration
        w.cur = Item(w)
        if w.blocks and w.E.choice('block', [True, False]):
            w.cur.put(block=Block(num(w.E, 'block')))
        w.index = w.index + 1
        return w.cur


def drive(E, w, op):
    E.cover("precondition")
    op.edit_range(w.range)
    w.finish()


@unit('C14', 'explicit', functions=['rhythm.EditRhythm.edit_range', 'rhythm.RhythmExplicit.process'], random_runs=0)
def u_explicit(E):
    if not E.symbolic:
        return
    w = World(E, keep=True)

    def spec(c):
        E.prove("every item has a duration", c.own is not None)
        if c.orig is not None:
            E.prove("a written duration is the same", same(E, c.orig, c.own))
    w.spec = spec

    def inv(loc):
        p = loc.get('prev')
        if p is None:
            return []
        if not isinstance(p, DurNode):
            raise core.Unsupported("prev")
        return [("the previous duration is the one in effect", same(E, p.pair, w.N))]

    def havoc(loc):
        loc['prev'] = DurNode(w.N) if E.choice('prev', [True, False]) else None
    w.loop(inv, havoc)
    drive(E, w, w.R.RhythmExplicit())


@unit('C14', 'implicit', functions=['rhythm.EditRhythm.edit_range', 'rhythm.RhythmImplicit.process'], random_runs=0)
def u_implicit(E):
    if not E.symbolic:
        return
    w = World(E, keep=True)
    st = dict(known=False)

    def spec(c):
        E.prove("no duration is added", c.orig is not None or c.own is None)
        if c.own is not None and c.allowed is not False:
            E.prove("a repeated duration is removed", not st['known'] or E.Not(same(E, c.own, w.O)))
        if c.orig is not None and c.sets:
            st['known'] = True
    w.spec = spec

    def inv(loc):
        p = loc.get('prev')
        if p is None:
            return [("the previous duration is known after the first", not st['known'])]
        if not (isinstance(p, tuple) and len(p) == 2):
            raise core.Unsupported("prev")
        return [("the previous duration is the one in effect", same(E, p, w.N))]

    def havoc(loc):
        st['known'] = E.choice('known', [True, False])
        loc['prev'] = w.N if st['known'] else None
    w.loop(inv, havoc)
    drive(E, w, w.R.RhythmImplicit())


@unit('C14', 'implicit per line', functions=['rhythm.EditRhythm.edit_range', 'rhythm.RhythmImplicitPerLine.process'], random_runs=0)
def u_perline(E):
    if not E.symbolic:
        return
    w = World(E, keep=True, blocks=True)
    st = dict(block=0)      # the block of the last written duration, 0 if none

    def spec(c):
        b = st['block']
        if b != 0 and c.block is not None and c.own is None:
            E.prove("the first item in a line has a duration", b is not None and b == c.block)
        if c.orig is None and c.own is not None:
            E.prove("a duration is added only in another line", b != 0 and not (b is not None and bool(b == c.block)))
        if c.own is not None and c.sets:
            st['block'] = c.block
    w.spec = spec

    def inv(loc):
        p, b = loc.get('prev'), st['block']
        if p is None:
            return [("the previous duration is known after the first", b == 0)]
        if not (isinstance(p, list) and len(p) == 2 and isinstance(p[0], tuple)):
            raise core.Unsupported("prev")
        return [("the previous duration is the one in effect", same(E, p[0], w.N)),
                ("its line is known", b != 0 and (b is p[1] or b is not None and p[1] is not None and bool(p[1] == b)))]

    def havoc(loc):
        k = E.choice('prev', ['none', 'no block', 'block'])
        st['block'] = 0 if k == 'none' else None if k == 'no block' else Block(num(E, 'last block'))
        loc['prev'] = None if k == 'none' else [w.N, st['block']]
    w.loop(inv, havoc)
    drive(E, w, w.R.RhythmImplicitPerLine())


@unit('C14', 'removing', functions=['rhythm.Remove.process', 'rhythm.RemoveScaling.process', 'rhythm.RemoveFractionScaling.process'], random_runs=0)
def u_remove(E):
    if not E.symbolic:
        return
    which = E.choice('command', ['Remove', 'RemoveScaling', 'RemoveFractionScaling'])
    w = World(E)

    def spec(c):
        if c.orig is None:
            E.prove("nothing is added", c.own is None)
        elif which == 'Remove':
            E.prove("a duration is removed where allowed", c.allowed is not None and (c.own is None) == c.allowed)
            if c.own is not None:
                E.prove("a remaining duration is the same", same(E, c.own, c.orig))
        else:
            E.prove("the duration stays", c.own is not None and c.own[0] == c.orig[0])
            s = c.orig[1]
            whole = False if which == 'RemoveScaling' else s == core.s_int(s)
            E.prove("the scaling is removed exactly if it should", E.ite(whole, c.own[1] == s, c.own[1] == 1))
    w.spec = spec
    real = lambda: core.SNum(E.fresh_real('factor'), False)
    if which != 'Remove':
        next_ = Stream.__next__

        class Reals(Stream):
            def __next__(self):
                c = next_(self)
                if c.own is not None:
                    s = real()
                    E.assume(s > 0)
                    p = (c.own[0], s)
                    c.put(own=p, orig=p)
                return c
        E.patch(w.R.EditRhythm, 'durables', staticmethod(lambda r: Reals(w)))
    w.loop()
    drive(E, w, getattr(w.R, which)())


@unit('C14', 'transforming', functions=['rhythm.RhythmTransform.edit_range', 'rhythm.RhythmTransform.__init__'], random_runs=0)
def u_transform(E):
    if not E.symbolic:
        return
    w = World(E)
    L = w.L
    results = {}

    class Thing(Item):
        def __pv_isinstance__(self, t):
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if x is L.HandleDuration:
                    if self.kind != 'other':
                        return True
                elif x is L.Tempo:
                    if self.kind == 'tempo':
                        return True
                elif x is L.Durable:
                    raise core.Unsupported("type")
                else:
                    raise core.Unsupported("type")
            return False

    class Nodes(Stream):
        def __next__(self):
            w.settle()
            if E.choice('next', ['end', 'item']) == 'end':
                w.ended = True
                raise StopIteration
            w.cur = Thing(w)
            w.cur.put(kind=E.choice('kind', ['tempo', 'duration', 'other']))
            if w.cur.kind == 'other':
                w.cur.put(own=None, orig=None)
            return w.cur

    class Range(Ghost):
        def nodes(self):
            return Nodes(w)

    class Transform(Ghost):
        def transform(self, d, s=1):
            c = w.cur
            E.prove("the written duration is transformed", c is not None and c.orig is not None and same(E, (d, s), c.orig))
            results[c] = fresh_pair(E, 'transformed')
            return results[c]

    def spec(c):
        if c.orig is None:
            E.prove("nothing is added", c.own is None)
        else:
            t = results.get(c)
            E.prove("every written duration is transformed", t is not None and c.own is not None)
            E.prove("the written duration is replaced by the transformed", c.own[0] == t[0])
            if c.kind == 'tempo':
                E.prove("a tempo has no scaling", c.own[1] == c.orig[1])
            else:
                E.prove("the scaling is replaced", c.own[1] == t[1])
    w.spec = spec
    w.loop()
    w.range = Range()
    E.ghost['list'] = listing
    drive(E, w, w.R.RhythmTransform(Transform()))


@unit('C14', 'copying', functions=['rhythm.CopyRhythm.edit_range'], random_runs=0)
def u_copy(E):
    if not E.symbolic:
        return
    w = World(E, keep=True)
    st = dict(seen=None, listed=False)

    def spec(c):
        E.prove("every item gives one duration", st['seen'] is c)
        E.prove("no duration is changed", c.own is c.orig)
    w.spec = spec

    def mylist(gen):
        st['listed'] = True
        for y in gen:
            c = w.cur
            if not (isinstance(y, tuple) and len(y) == 2):
                E.prove("a duration and a scaling is given", False)
                continue
            E.prove("a duration for each item", c is not None and st['seen'] is not c)
            E.prove("the duration in effect is copied", same(E, y, c.own if c.own is not None else w.N))
            st['seen'] = c
        return st
    E.ghost['list'] = mylist

    def inv(loc):
        p = loc.get('prev')
        if p is None:
            return []
        if not (isinstance(p, tuple) and len(p) == 2):
            raise core.Unsupported("prev")
        return [("the previous duration is the one in effect", same(E, p, w.N))]

    def havoc(loc):
        st['seen'] = None
        loc['prev'] = w.N if E.choice('prev', [True, False]) else None
    w.loop(inv, havoc)
    E.cover("precondition")
    r = w.R.CopyRhythm(True).edit_range(w.range)
    if not st['listed'] or r is not st:
        raise core.Unsupported("the durations are collected in another way")
    w.finish()


@unit('C14', 'pasting', functions=['rhythm.PasteRhythm.edit_range'], random_runs=0)
def u_paste(E):
    if not E.symbolic:
        return
    w = World(E)
    cycle = E.choice('cycle', [True, False])
    st = dict(pos=0, value=None, prev=None)

    class Durations(Ghost):
        """What is pasted, repeated if cyclic; the values are made as they are asked for."""
        def __iter__(self):
            return Values(False)
        __pv_iter__ = __iter__

    class Values(Ghost):
        def __init__(self, cyclic):
            self.cyclic = cyclic

        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            if not self.cyclic and E.choice('more durations', [True, False]) is False:
                st['out'] = True
                raise StopIteration
            st['pos'] = st['pos'] + 1
            st['value'] = fresh_pair(E, 'pasted') if E.choice('a duration', [True, False]) else None
            return st['value']
    durs = Durations()

    class Tools(Ghost):
        def cycle(self, x):
            E.prove("the durations are repeated only if requested", cycle and x is durs)
            return Values(True)
    E.patch(w.R, 'itertools', Tools())

    def spec(c):
        if st.get('out'):
            E.prove("without cycling nothing is changed after the last duration", not cycle and c.own is c.orig)
            return
        E.prove("the durations are used in order, one for each item", st['pos'] == w.index)
        v = st['value']
        if v is not None:
            E.prove("the pasted duration is written", c.own is not None and same(E, c.own, v))
            st['prev'] = v
        elif c.allowed is None:
            E.prove("an item without duration stays so", False)
        elif c.allowed:
            E.prove("the duration is removed where none was copied", c.own is None)
        elif st['prev'] is not None:
            E.prove("where a duration is required the previous is repeated", c.own is not None and same(E, c.own, st['prev']))
        else:
            E.prove("without a previous duration, a required duration stays", c.own is c.orig)
    w.spec = spec

    def havoc(loc):
        st['pos'] = w.index
        st['value'] = None
        st['prev'] = fresh_pair(E, 'last pasted') if E.choice('pasted', [True, False]) else None
        loc['prev'] = st['prev']

    def inv(loc):
        w.settle()
        p = loc.get('prev')
        return [("the last pasted duration is known", p is None if st['prev'] is None else p is not None and same(E, p, st['prev'])),
                ("as many items as durations are used", st['pos'] == w.index)]

    def on_havoc(loc):
        w.cur = None
        w.index = num(E, 'index')
        E.assume(w.index >= 0)
        havoc(loc)
    E.loop(LoopSpec("items", lambda site, loc: isinstance(loc.get('__it__'), zip), inv, on_havoc=on_havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    w.R.PasteRhythm(durs, cycle).edit_range(w.range)
    w.settle()
    E.prove("the end is reached", w.ended or st.get('out', False))
    if cycle:
        E.prove("with cycling all items get a duration", w.ended)


class Walk(Ghost):
    """An iteration of any length over what make() gives."""
    def __init__(self, E, make, st=None):
        self.E, self.make, self.st = E, make, st if st is not None else {}

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        if self.E.choice('next', ['end', 'node']) == 'end':
            self.st['ended'] = True
            raise StopIteration
        return self.make()


def kinds(E, types, name='kind'):
    """Ghost class of which the instances have one of the types (name: the set of real types it is an instance of)."""
    every = set().union(*types.values())

    class Kind(Ghost):
        def __init__(self):
            self.kind = E.choice(name, list(types))

        def __pv_isinstance__(self, t):
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if x not in every:
                    raise core.Unsupported("type %r" % (x,))
            return any(x in types[self.kind] for x in ts)
    return Kind


@unit('C14', 'items of a range', functions=['rhythm.EditRhythm.durables'], random_runs=0)
def u_durables(E):
    if not E.symbolic:
        return
    L, R = E.mod('quickly.dom.lily'), E.mod('quickly.rhythm')
    E.ghost['local_objects'] = All()
    st = dict(cur=None, done=True, ended=False)
    Kind = kinds(E, {'skip': {L.Durable, L.Skip, L.HandleDuration, L.Music}, 'durable': {L.Durable, L.HandleDuration, L.Music}, 'other': set()})

    class Node(Kind):
        def __init__(self):
            Kind.__init__(self)
            self.inchord = self.kind == 'durable' and E.choice('in a chord', [True, False])
            self.written = self.kind != 'other' and E.choice('duration', [True, False])

        def __lshift__(self, cls):
            if cls is not L.ChordBody:
                raise core.Unsupported("ancestors")
            return iter([Opaque()] if self.inchord else [])

        def __truediv__(self, cls):
            if cls is not L.Duration:
                raise core.Unsupported("children")
            return iter([Opaque()] if self.written else [])

        def wanted(self):
            return self.kind == 'durable' and not self.inchord or self.kind == 'skip' and self.written

    def make():
        E.prove("an item with a duration is not left out", ok())
        st['cur'], st['done'] = Node(), False
        return st['cur']

    def ok():
        return st['cur'] is None or st['done'] == st['cur'].wanted()

    class Range(Ghost):
        def nodes(self):
            return Walk(E, make, st)

    def havoc(loc):
        st['cur'], st['done'] = None, True
    E.loop(LoopSpec("nodes", lambda site, loc: isinstance(loc.get('__it__'), Walk), lambda loc: [("exactly the items with a duration are given", ok())],
                    on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.ghost['list'] = listing
    E.cover("precondition")
    for y in R.EditRhythm.durables(Range()):
        E.prove("the current item is given, once", y is st['cur'] and not st['done'])
        st['done'] = True
    E.prove("all nodes are visited", st['ended'] and ok())


@unit('C14', 'removable', functions=['rhythm.EditRhythm.may_remove'], random_runs=0)
def u_may(E):
    if not E.symbolic:
        return
    L, R, B = E.mod('quickly.dom.lily'), E.mod('quickly.rhythm'), E.mod('quickly.dom.base')
    E.ghost['local_objects'] = All()
    st = dict(next=None, stop=False, anc=None)
    Kind = kinds(E, {'comment': {B.Comment}, 'unpitched': {L.Unpitched, L.Durable}, 'lyric': {L.LyricItem, L.Durable}, 'other': set()}, 'following')

    class Sib(Kind):
        def __init__(self):
            Kind.__init__(self)
            self.required = E.choice('required', [True, False]) if self.kind == 'lyric' else self.kind == 'unpitched'

        @property
        def duration_required(self):
            if self.kind in ('lyric', 'unpitched'):
                return self.required
            raise core.Unsupported("duration_required")

    class Sibs(Walk):
        pass

    def sib():
        s = Sib()
        if st['next'] is None and not st['stop'] and s.kind != 'comment':
            st['next'] = s
        return s

    class Index(Ghost):
        def __init__(self, k=0):
            self.k = k

        def __add__(self, n):
            return Index(self.k + n)

    class Anc(Ghost):
        def __init__(self, index):
            self.index = index
            self.tail = E.choice('tail', ['', '}'])

        def __getitem__(self, k):
            if isinstance(k, slice) and k.start is self.index1 and k.stop is None and k.step is None:
                return Sibs(E, sib)
            raise core.Unsupported("part of an ancestor")

        def write_tail(self):
            return self.tail

    class Ancs(Walk):
        pass

    def anc():
        if st['anc'] is not None and st['anc'].tail and st['next'] is None:
            st['stop'] = True

        class I(Index):
            def __add__(self, n):
                if n != 1:
                    raise core.Unsupported("index")
                a.index1 = Index(1)
                return a.index1
        i = I()
        a = st['anc'] = Anc(i)
        return a, i

    class Node(Ghost):
        def __init__(self):
            self.duration_required = E.choice('duration required', [True, False])
            self.articulations = E.choice('articulations', [True, False])

        def __truediv__(self, cls):
            if cls is not L.Articulations:
                raise core.Unsupported("children")
            return iter([Opaque()] if self.articulations else [])

        def ancestors_with_index(self):
            return Ancs(E, anc, st)

    inv = lambda loc: [("only comments were passed over", st['next'] is None), ("the search ends at the end of the music", not st['stop'])]

    def havoc(loc):
        st['anc'], st['next'], st['stop'] = None, None, False
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Ancs), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.loop(LoopSpec("following", lambda site, loc: isinstance(loc.get('__it__'), Sibs), inv, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    node = Node()
    r = R.EditRhythm.may_remove(node)
    n = st['next']
    E.prove("a required duration may not be removed", not (node.duration_required and r))
    if not node.duration_required:
        bad = n is not None and n.required and not node.articulations
        E.prove("a duration may be removed unless another would be read in its place", bool(r) == (not bad))


@unit('C14', 'duration attributes', functions=['dom.lily.HandleDuration.duration', 'dom.lily.HandleDuration.scaling', 'dom.lily.HandleDuration.duration_scaling', 'dom.lily.Duration.duration'], random_runs=0)
def u_attributes(E):
    if not E.symbolic:
        return
    L = E.mod('quickly.dom.lily')
    E.ghost['local_objects'] = All()

    def real(name):
        v = core.SNum(E.fresh_real(name), False)
        E.assume(v > 0)
        return v

    def product(scalings):
        p = 1
        for s in scalings:
            p = p * s.head
        return p
    k = E.choice('scalings', [None, 0, 1, 2, 3])
    tie = L.Articulations()
    note = L.Note('c', tie)
    d0, heads = None, []
    if k is not None:
        dur = L.Duration(1)
        d0 = real('duration')
        dur.head = d0
        for i in range(k):
            s = L.DurationScaling(1)
            s.head = real('factor')
            heads.append(s.head)
            dur.append(s)
        note.insert(0, dur)
    f0 = None if k is None else 1
    for h in heads:
        f0 = f0 * h

    def state():
        ds = [n for n in note if isinstance(n, L.Duration)]
        E.prove("there is at most one duration", len(ds) <= 1)
        E.prove("other children stay", [n for n in note if not isinstance(n, L.Duration)] == [tie] and len(note) == len(ds) + 1)
        if ds:
            E.prove("the duration has only scalings", all(isinstance(n, L.DurationScaling) for n in ds[0]))
            return ds[0].head, product(ds[0])

    def isf(x):
        return isinstance(x, Fraction)
    what = E.choice('operation', ['get', 'set duration', 'del duration', 'set scaling', 'del scaling', 'set both', 'del both', 'set nothing'])
    E.cover("precondition")
    v, w = real('new duration'), real('new scaling')
    if what == 'get':
        E.prove("the duration is read", note.duration is None if k is None else note.duration == d0)
        E.prove("the scaling is the product", note.scaling is None if k is None else note.scaling == f0)
        both = note.duration_scaling
        E.prove("both are read in one go", both is None if k is None else isinstance(both, tuple) and len(both) == 2 and E.And(both[0] == d0, both[1] == f0))
        E.prove("reading changes nothing", (state() is None) == (k is None))
    elif what == 'set duration':
        note.duration = v
        s = state()
        E.prove("the duration is what was set", s is not None and s[0] == v)
        E.prove("the scaling stays", s is not None and s[1] == (1 if k is None else f0))
    elif what in ('del duration', 'del both', 'set nothing'):
        if what == 'del duration':
            del note.duration
        elif what == 'del both':
            del note.duration_scaling
        else:
            note.duration = None
        E.prove("the duration is removed", state() is None)
    elif what == 'set scaling':
        if k is None:
            E.assume(w != 1)
            try:
                note.scaling = w
            except ValueError:
                E.prove("without duration nothing changes", state() is None)
            else:
                E.prove("without duration a scaling can't be set", False)
        else:
            note.scaling = w
            s = state()
            E.prove("the duration stays", s is not None and s[0] == d0)
            E.prove("the scaling is what was set", s is not None and s[1] == w)
    elif what == 'del scaling':
        del note.scaling
        s = state()
        if k is None:
            E.prove("nothing is added", s is None)
        else:
            E.prove("the duration stays", s is not None and s[0] == d0)
            E.prove("the scaling is removed", s is not None and s[1] == 1)
    else:
        note.duration_scaling = v, w
        s = state()
        E.prove("the duration is what was set", s is not None and s[0] == v)
        E.prove("the scaling is what was set", s is not None and s[1] == w)


class Before(Ghost):
    """An item that precedes the one where a duration is searched."""
    def __init__(self, E, L, truth):
        self.L = L
        self.own = None
        self.duration_sets_previous = E.choice('sets the previous duration', [True, False])
        if E.choice('written', [True, False]):
            self.own = (core.SNum(E.fresh_real('duration'), False), core.SNum(E.fresh_real('scaling'), False))
            if self.duration_sets_previous:
                E.assume(same(E, self.own, truth))

    @property
    def duration_scaling(self):
        return self.own

    @property
    def duration(self):
        return self.own and self.own[0]

    @property
    def scaling(self):
        return self.own and self.own[1]

    def decides(self):
        return self.own is not None and self.duration_sets_previous

    def __truediv__(self, cls):
        if cls is not self.L.Duration:
            raise core.Unsupported("children")
        own = self.own

        class D(Ghost):
            head = own and own[0]

            def duration(self):
                return own
        return iter([D()] if own is not None else [])

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other


class Searched(Ghost):
    """The item; what precedes it is made as it is walked, up to the first that decides its duration."""
    def __init__(self, E, L):
        self.E, self.L = E, L
        self.truth = (core.SNum(E.fresh_real('in effect'), False), core.SNum(E.fresh_real('scaling in effect'), False))
        self.own = None
        self.cur = None

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    @property
    def duration_scaling(self):
        return self.own

    def __lt__(self, cls):
        if cls is not self.L.Durable:
            raise core.Unsupported("preceding nodes")
        return Back(self)


class Back(Ghost):
    def __init__(self, node):
        self.node = node

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        n, E = self.node, self.node.E
        if n.cur is not None and n.cur.decides():
            raise core.Unsupported("searched past the duration")
        if E.choice('preceding', ['end', 'item']) == 'end':
            E.assume(same(E, n.truth, (Fraction(1, 4), 1)))
            raise StopIteration
        n.cur = Before(E, n.L, n.truth)
        return n.cur


@unit('C14', 'previous duration', functions=['dom.lily.previous_duration'], random_runs=0)
def u_previous(E):
    if not E.symbolic:
        return
    L = E.mod('quickly.dom.lily')
    E.ghost['local_objects'] = All()
    n = Searched(E, L)

    def havoc(loc):
        n.cur = None
    E.loop(LoopSpec("preceding", lambda site, loc: isinstance(loc.get('__it__'), Back), lambda loc: [("no duration is passed over", n.cur is None or not n.cur.decides())],
                    on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = L.previous_duration(n)
    E.prove("the previous duration is found", isinstance(r, tuple) and len(r) == 2 and same(E, r, n.truth))


@unit('C14', 'cached durations', functions=['dom.lily.duration_getter'], random_runs=0)
def u_getter(E):
    if not E.symbolic:
        return
    L = E.mod('quickly.dom.lily')
    E.ghost['local_objects'] = All()
    n = Searched(E, L)
    if E.choice('own', [True, False]):
        n.own = (core.SNum(E.fresh_real('own'), False), core.SNum(E.fresh_real('own scaling'), False))
    cached = (core.SNum(E.fresh_real('cached'), False), core.SNum(E.fresh_real('cached scaling'), False))
    passed = [n]

    class Known(Ghost):
        """The items of which the duration is known: those have the cached duration."""
        def __contains__(self, x):
            if x.own is not None or not E.choice('known', [True, False]):
                return False
            if x is not n and x is not n.cur:
                raise core.Unsupported("another item")
            E.assume(same(E, cached, n.truth))
            return True

        def update(self, new):
            legit(new)
            E.prove("the items that are added have the cached duration", same(E, cached, n.truth))

    class New(Ghost):
        """The items that were passed by, none has a duration."""
        def add(self, x):
            E.prove("only items without duration that were passed by have the same duration", x is n or x is n.cur and x.own is None)

    def legit(new):
        if isinstance(new, New):
            return
        if not isinstance(new, set):
            raise core.Unsupported("collected items")
        E.prove("only items without duration that were passed by are collected", all(x is n or x is n.cur for x in new) and all(x.own is None for x in new))

    get = L.duration_getter()
    cells = dict(zip(get.__code__.co_freevars, get.__closure__ or ()))
    if not {'durables', 'duration'} <= set(cells):
        raise core.Unsupported("state of the getter")
    state = E.choice('state', ['new', 'used'])
    if state == 'used':
        cells['durables'].cell_contents = Known()
        cells['duration'].cell_contents = cached

    def inv(loc):
        legit(loc.get('new'))
        return [("no duration is passed over", n.cur is None or not n.cur.decides())]

    def havoc(loc):
        n.cur = None
        loc['new'] = New()
    E.loop(LoopSpec("preceding", lambda site, loc: isinstance(loc.get('__it__'), Back), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = get(n)
    E.prove("a duration and a scaling is given", isinstance(r, tuple) and len(r) == 2)
    E.prove("the duration in effect is given", same(E, r, n.own if n.own is not None else n.truth))
    d = cells['durables'].cell_contents
    if not isinstance(d, Known) and d != set():
        legit(d)
        E.prove("the cached duration is that of the items that are known", n.own is None and same(E, cells['duration'].cell_contents, n.truth))
    elif isinstance(d, Known):
        E.prove("the cached duration stays if the items stay", cells['duration'].cell_contents is cached)


# ---------------------------------------------------------------- documents

def parse(M, text):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        x = M.get('quickly.dom.read').lily_document(text)
    return x, out.getvalue()


def own(L, n):
    """The written (duration, scaling) of n, or None."""
    for d in n:
        if isinstance(d, L.Duration):
            f = Fraction(1)
            for s in d:
                if isinstance(s, L.DurationScaling):
                    f *= Fraction(s.head)
            return Fraction(d.head), f


def items(L, doc):
    """All (node, written, in effect) in the order of the text, read directly from the tree."""
    prev = Fraction(1, 4), Fraction(1)
    out = []

    def walk(n, chord):
        nonlocal prev
        if isinstance(n, L.Durable) and not chord:
            d = own(L, n)
            if d or not isinstance(n, L.Skip):
                out.append((n, d, d or prev))
                if d and not isinstance(n, L.Skip):
                    prev = d
        for k in n:
            walk(k, chord or isinstance(n, L.ChordBody))
    walk(doc, False)
    return out


def bare(L, n):
    """True if only the duration of n is visible."""
    return isinstance(n, L.Unpitched) or isinstance(n, L.LyricItem) and not [k for k in n if isinstance(k, (L.Scheme, L.String, L.Symbol, L.Markup))]


def needs_own(L, n):
    return bare(L, n) or isinstance(n, L.Skip)


EXTRA = ["{ c4 4 8 c 2 }", "\\lyricmode { la4 _8 \"x\" _ 2 lo }", "{ c4 \\skip 2 d e \\skip { c8 d } f }", "{ c8 ~ 8 d4. 4 <c e>4 q q8 }", "{ c4 % comment\n 8 c\\f 8 }",
         "\\tempo 4. = 60 \\partial 8. c4 \\tuplet 3/2 4 { c8 d e }", "{ c4\\rest 8 d\\rest }", "\\drummode { bd4 sn hh8 hh 16 hh }", "\\figuremode { <6>4 <5> <4 3>2 s8 <6> }",
         "\\chordmode { c1 d:m e/g:7 f2 }", "{ \\tag #'a 4 8 c4 \\tag #'b { 8 d } }", "\\after 4 \\f c1", "{ c4*2/3*1/2 d e4*2 f2*1/2 g2*3 R1*4 r s }", "\\relative { <c e'>8 <d f>4 <e g>4 <f a> }",
         "{ c\\breve d e\\longa. f1... g64 }", "\\drummode { <bd sn>4 hh 4 <hh sn>8 8 }", "\\afterGrace c1 { c16 8 }", "{ r4 s s8 s \\skip 1 r r8 \\skip 8 c }"]


def gen(rng):
    from checks.lygen import Gen
    g = Gen(rng, max_depth=rng.choice([2, 3, 4]))

    def text():
        parts = [rng.choice(EXTRA) if rng.random() < .5 else g.document(2) if rng.random() < .5 else g.mlist(0) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .5:
            parts.append('{ ' + ' '.join(rng.choice(['c', 'd', 'r', 's', 'q', '<c e>', '', '', '\\skip ', '\\tag #\'x ', '{ c } ', '{ 4 } ', '| ', 'e\\rest '] if rng.random() < .9 else ['\n%x\n']) +
                                         rng.choice(['4', '4', '4', '8', '8', '2.', '4*2/3', '4*1/3', '1*2', '8*3/2*2', '\\breve', '', '', '']) + rng.choice(['', '', '', '-.', '~', '\\f', '\n'])
                                         for _ in range(rng.randint(2, 12))) + ' }')
        return ' '.join(parts)
    return dict(text=text(), source=text(), how=rng.choice(['node', 'node', 'document', 'cursor', 'range']), a=rng.randint(0, 99), b=rng.randint(0, 99),
                command=rng.choice(['remove', 'remove_scaling', 'remove_fraction_scaling', 'explicit', 'explicit', 'implicit', 'implicit', 'per line', 'per line', 'transform', 'copy', 'paste', 'paste']),
                transform=[rng.choice([0, 1, -1, 2]), rng.choice([0, 0, 1, -1, 2, -2]), rng.choice(['1', '1/3', '2', '3/2'])], explicit=rng.random() < .7, cycle=rng.random() < .8)


def spec_transform(d, log, dots, scale, n, L):
    """The duration d = (value, scaling) with the log and dots shifted."""
    v = d[0]
    base, k = Fraction(8), 0
    while base > v:
        base /= 2
    while base * (2 - Fraction(1, 2 ** k)) != v:
        k += 1
        if k > 20:
            return None
    k = max(0, k + dots)
    return base / Fraction(2) ** log * (2 - Fraction(1, 2 ** k)), d[1] if isinstance(n, L.Tempo) else d[1] * scale


@bounded('C14', 'documents', gen=gen, quick=6000, thorough=150000, seconds=60, functions=['rhythm.' + n for n in ('remove', 'remove_scaling', 'remove_fraction_scaling', 'explicit', 'implicit', 'transform', 'copy', 'paste')],
         rule='random documents (notes, rests, chords, skips, unpitched notes, lyrics, figures, drums; multiple scalings; comments, tags), each command on the document, a node, a range or a cursor selection; against durations read independently from the tree and from the text read back')
def b_docs(M, c):
    L, R = M.get('quickly.dom.lily'), M.get('quickly.rhythm')
    Range = M.get('quickly.node').Range
    import parce
    M.get('quickly')
    text = c['text']
    d = None
    if c['how'] in ('document', 'cursor'):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            d = parce.Document(parce.find('lilypond'), text, transformer=True)
            doc = d.get_transform(True)
        noise = out.getvalue()
    else:
        doc, noise = parse(M, text)
    if noise:
        return False
    x = parse(M, doc.write())[0]
    if not x.equals(doc):
        return False        # not text that the parser understands
    nodes = list(doc.descendants())
    if not nodes:
        return False
    before = items(L, doc)
    handles = [(n, own(L, n)) for n in nodes if isinstance(n, L.HandleDuration)]
    inside, either = {id(n) for n in nodes}, set()
    a, b = sorted((c['a'], c['b']))
    if c['how'] == 'node':
        music = nodes[a * len(nodes) // 100] if c['b'] % 2 else doc
        inside = {id(n) for n in music.descendants()}
    elif c['how'] == 'range':
        music = Range.from_nodes(nodes[a * len(nodes) // 100], nodes[b * len(nodes) // 100], c['a'] % 2)
        inside = {id(n) for n in nodes if n in music}       # membership of a range is C11
        if music.is_full():
            either = {id(n) for n in [music.ancestor(), *music.ancestor().descendants()]} - inside
        either.add(id(music.ancestor()))
        inside -= either
    elif c['how'] == 'document':
        music = d
    else:
        p, q = a * len(text) // 100, b * len(text) // 100
        music = parce.Cursor(d, p, q)
        if p < q:
            inside = {id(n) for n in nodes if n.pos is not None and p <= n.pos and n.end <= q}
            either = {id(n) for n in nodes if n.pos is None or (n.pos < q and n.end > p)} - inside
            # a selection without any element can mean the whole document
            if not inside:
                either = {id(n) for n in nodes}
    lines = {id(n): text.count('\n', 0, n.pos) if n.pos is not None else None for n in nodes} if d else {}
    # the tree without durations stays
    def skeleton(x):
        return [(type(n), getattr(n, 'head', None)) for n in x.descendants() if not isinstance(n, (L.Duration, L.DurationScaling))]
    skel = skeleton(doc)
    cmd = c['command']
    result = pasted = None
    log, dots, scale = c['transform'][0], c['transform'][1], Fraction(c['transform'][2])
    expect = None
    sel = [i for i in before if id(i[0]) in inside]
    unsure = any(id(i[0]) in either for i in before)
    if cmd == 'transform':
        expect = {id(n): spec_transform(o, log, dots, scale, n, L) if o and id(n) in inside else o for n, o in handles}
        if any(o and (expect[id(n)] is None or expect[id(n)][0] >= 16) for n, o in handles):
            return False        # no such note length
        R.transform(music, log, dots, scale)
    elif cmd == 'remove':
        R.remove(music)
    elif cmd in ('remove_scaling', 'remove_fraction_scaling'):
        def unscaled(o):
            return (o[0], Fraction(1)) if cmd == 'remove_scaling' or o[1].denominator != 1 else o
        durables = {id(i[0]) for i in before}
        expect = {id(n): unscaled(o) if o and id(n) in inside and id(n) in durables else o for n, o in handles}
        getattr(R, cmd)(music)
    elif cmd == 'explicit':
        R.explicit(music)
    elif cmd in ('implicit', 'per line'):
        R.implicit(music, cmd == 'per line')
    elif cmd == 'copy':
        expect = {id(n): o for n, o in handles}
        result = R.copy(music, c['explicit'])
        if not unsure:
            check([(Fraction(r[0]), Fraction(r[1])) if r else None for r in result] == [i[2 if c['explicit'] else 1] for i in sel], "copied %r from %r", result, text)
    else:
        src, noise = parse(M, c['source'])
        if noise:
            return False
        pasted = R.copy(src, c['explicit'])
        if not pasted:
            return False
        R.paste(music, pasted, c['cycle'])
    result_text = doc.write()
    check(skeleton(doc) == skel, "%s changed other things: %r to %r", cmd, text, result_text)
    # what was changed is read from the document, if any, else from the tree
    new = doc
    if d:
        new, noise = parse(M, d.text())
        check(not noise and skeleton(new) == skel, "%s of the document %r reads as other music: %r", cmd, text, d.text())
        result_text = d.text()
    plain = lambda x: [n for n in x.descendants() if not isinstance(n, (L.Duration, L.DurationScaling))]
    same = {id(n): o for n, o in zip(plain(new), [n for n in nodes if not isinstance(n, (L.Duration, L.DurationScaling))])}
    after = [(same[id(n)], o, e) for n, o, e in items(L, new)]
    # a \\skip without duration is no item
    check([n for n, _, _ in after if id(n) not in either] == [n for n, _, _ in before if id(n) not in either], "other items after %s of %r", cmd, text)
    now = {id(same[id(n)]): own(L, n) for n in plain(new) if isinstance(n, L.HandleDuration)}
    was = dict((id(n), o) for n, o in handles)
    for n, o in handles:
        k = id(n)
        if k in either:
            continue
        if k not in inside:
            check(now[k] == o, "%s changed %r outside the selection in %r", cmd, n, text)
        if expect is not None:
            check(now[k] == expect[k], "%s gives %r to %r in %r, not %r", cmd, now[k], n, text, expect[k])
    following = {id(i[0]): j[0] for i, j in zip(before, before[1:])}
    if cmd in ('explicit', 'implicit', 'per line'):
        check([i[2] for i in after] == [i[2] for i in before], "%s changes the note lengths of %r: %r", cmd, text, result_text)
    if cmd == 'explicit':
        check(all(now[id(i[0])] for i in sel), "no duration after explicit: %r", result_text)
        check(all(now[id(n)] == o for n, o, _ in before if o), "explicit changed a duration of %r: %r", text, result_text)
    prev = None
    for n, o, e in sel if not unsure else ():
        k = now[id(n)]
        if cmd == 'remove' and k or cmd == 'paste' and k and o == k and n in ():
            f = following.get(id(n))
            check(needs_own(L, n) or f is not None and bare(L, f), "the duration of %r was not removed: %r to %r", n, text, result_text)
        if cmd == 'implicit':
            if k:
                f = following.get(id(n))
                check(k != prev or needs_own(L, n) or f is not None and bare(L, f), "%r still has the same duration: %r to %r", n, text, result_text)
                if not isinstance(n, L.Skip):
                    prev = k
        if cmd == 'per line' and d:
            # the first on a line has a duration
            line = lines[id(n)]
            if prev is not None and line is not None and prev[1] is not None and line != prev[1]:
                check(k, "no duration at the start of a line: %r in %r", n, text)
            if k and prev is not None and (k, line) == prev:
                f = following.get(id(n))
                check(needs_own(L, n) or f is not None and bare(L, f), "%r still has the same duration: %r", n, text)
            if k and not isinstance(n, L.Skip):
                prev = k, line
    if cmd == 'paste' and not unsure:
        eff = {id(n): e for n, _, e in after}
        for i, (n, o, e) in enumerate(sel):
            if i >= len(pasted) and not c['cycle']:
                check(now[id(n)] == o, "pasted more than there is: %r in %r", n, text)
                continue
            p = pasted[i % len(pasted)]
            if p:
                check(now[id(n)] == (Fraction(p[0]), Fraction(p[1])), "%r was to get %r: %r", n, p, result_text)
    if result is None and not d:
        back, noise = parse(M, result_text)
        check(not noise, "not understood after %s of %r: %r", cmd, text, result_text)
        check(skeleton(back) == skel, "%s makes %r read as other music: %r", cmd, text, result_text)
        check([i[1:] for i in items(L, back)] == [i[1:] for i in after], "%s of %r reads back with other durations: %r", cmd, text, result_text)
    return len(sel) > 1

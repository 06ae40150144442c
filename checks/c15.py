"""C15: musical lengths and positions add up."""
import contextlib
import io
import itertools
from fractions import Fraction

import z3

from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec
from checks.c14 import own, parse

LEVEL = 'proof'
NOTE = ('Proved for music of any size and nesting: the length of sequential music is the sum and of simultaneous music the maximum of the lengths of the children, taken in the context with the shifts added and the scalings multiplied of all music '
        'around them, outermost first; grace music counts zero, main music of \\afterGrace only, an empty chord zero, a \\skip its duration or music; a reference counts as the music found (following references, each looked up in the scope where it is found) '
        'in the context of the reference; position() is the length of all that precedes in sequential ancestors, duration() the difference of the end of the last and the position of the first node, or nothing in different music; '
        'cursors measure from the first music at the start to the outermost last music at the end of the selection. What a note without duration gets is C14, where a reference is found C18, shift_duration() C01. '
        'Whole documents and included documents are checked at run time against lengths read independently from the tree (bounded).')
ASSUMPTIONS = ['lengths are not negative', 'Node.ancestors(), ancestors_with_index(), // and / give what C10 says', 'no Music class but the commands listed in the unit scaling and shifting transforms durations (the documents check samples this)',
               'a chain of references is finite (each is looked up before the place where it is used, see C18)', 'length, position and duration of notes inside a chord, \\repeat counts and \\addlyrics are left out']


# ---------------------------------------------------------------- proofs

class All:
    def __contains__(self, x):
        return True


class Ghost:
    def __getattr__(self, name):
        if name.startswith('__pv_') or name == 'at_run':
            raise AttributeError(name)
        raise core.Unsupported("%s of a ghost %s" % (name, type(self).__name__))

    def __bool__(self):
        return True


class Opaque(Ghost):
    """Something that is only passed on."""


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


def fresh_real(E, name):
    return core.SNum(E.fresh_real(name), False)


def function(name, *kinds):
    """An uninterpreted function: i for integers, r for reals."""
    sorts = {'i': z3.IntSort(), 'r': z3.RealSort()}
    f = z3.Function(name, *[sorts[k] for k in kinds])
    return lambda *a: core.SNum(f(*[core.to_z3(x) for x in a]), kinds[-1] == 'i')


def types(t):
    return set(t) if isinstance(t, tuple) else {t}


def accumulator(loc):
    """The name of the only number that a loop computes."""
    n = [k for k in loc['__names__'] if k in loc and core.is_num(loc[k]) and not isinstance(loc[k], bool)]
    if len(n) != 1:
        raise core.Unsupported("accumulators %s" % n)
    return n[0]


class Items(Ghost):
    """Iterates over the children of a ghost node from 0 to an end."""
    def __init__(self, owner, end):
        self.owner, self.end, self.at = owner, end, 0
        self.pulls = 0

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        E, o = self.owner.E, self.owner
        self.pulls += 1
        if self.pulls > 20:
            raise core.Unsupported("loop without contract")
        if not self.at < self.end:
            o.cur = None
            raise StopIteration
        E.assume(E.And(self.at >= 0, self.at < o.size))
        if o.cur is not None and o.generic is not None:
            # an item was left out
            E.prove("only items without length are left out", o.generic(o.cur.k, 0))
            raise core.PathEnd()
        o.cur = Item(o, self.at)
        o.axioms(self.at)
        self.at = self.at + 1
        return o.cur


class Item(Ghost):
    def __init__(self, owner, k):
        self.owner, self.k = owner, k
        self.kind = None

    def __pv_isinstance__(self, t):
        E, L, o = self.owner.E, self.owner.L, self.owner
        if self.kind is None:
            self.kind = E.choice('kind', ['music', 'reference', 'other'])
            if self.kind == 'other':
                E.assume(o.f(self.k) == 0)      # see 'any node'
        ts = types(t)
        if not ts <= {L.Music, L.Reference, L.IdentifierRef, L.Etc}:
            raise core.Unsupported("type of an item")
        if self.kind == 'reference' and L.Reference not in ts:
            if L.IdentifierRef in ts:
                return True         # the references that can be music
            return False
        return self.kind == 'music' and L.Music in ts or self.kind == 'reference'


class Parent(Ghost):
    """A music node with any number of children."""
    def __init__(self, E, L, sequential):
        self.E, self.L, self.sequential = E, L, sequential
        self.size = fresh(E, 'size')
        E.assume(self.size >= 0)
        self.f, self.total, self.most = function('len', 'i', 'r'), function('sum', 'i', 'r'), function('max', 'i', 'r')
        E.assume(E.And(self.total(0) == 0, self.most(0) == 0))
        self.cur, self.generic = None, None

    def axioms(self, k):
        E, f, S, M = self.E, self.f, self.total, self.most
        E.assume(E.And(f(k) >= 0, S(k + 1) == S(k) + f(k), M(k) >= 0, M(k + 1) >= M(k), M(k + 1) >= f(k), E.Or(M(k + 1) == M(k), M(k + 1) == f(k))))

    def is_sequential(self):
        return self.sequential

    def __pv_len__(self):
        return self.size

    def __iter__(self):
        return Items(self, self.size)
    __pv_iter__ = __iter__

    def __pv_getslice__(self, s):
        if s.step is not None or not (s.start is None or isinstance(s.start, int) and s.start == 0):
            raise core.Unsupported("slice")
        return Some(self, self.size if s.stop is None else s.stop)

    def __getitem__(self, s):
        if not isinstance(s, slice):
            raise core.Unsupported("item")
        return self.__pv_getslice__(s)

    # aggregates
    def element(self, it, start, how):
        """Checks a generic element of a generator; returns at the end of it."""
        E = self.E
        if E.choice(how, ['element', 'end']) == 'element':
            k = fresh(E, 'k')
            self.jump = k
            E.assume(E.And(k >= 0))
            self.generic = lambda i, v: v == self.f(i)
            frames = source(it)
            frames.at = k
            E.assume(k < frames.end)
            try:
                v = next(it)
            except StopIteration:
                E.prove("all items are counted", False)
            if self.cur is None:
                raise core.Unsupported("elements of the generator")
            E.prove("the length of every item is that in the context", self.generic(self.cur.k, v))
            raise core.PathEnd()
        s = source(it)
        s.at = s.end
        if next(it, None) is not None:
            raise core.Unsupported("more items")
        return s.end

    def sum(self, it, start):
        return start + self.total(self.element(it, start, 'sum'))

    def max(self, it, default=None, key=None):
        if key is not None:
            raise core.Unsupported("key")
        if default is not None and not (core.is_num(default) and not core.is_sym(default) and default == 0):
            raise core.Unsupported("default")
        end = self.element(it, 0, 'max')
        if default is None and not end > 0:
            raise ValueError("max() of an empty sequence")
        return self.most(end)

    def install(self):
        E = self.E
        E.ghost['sum'], E.ghost['max'] = self.sum, self.max
        E.ghost['local_objects'] = All()

        def where(site, loc):
            return isinstance(loc.get('__it__'), Items)

        def inv(loc):
            name, it = accumulator(loc), loc['__it__']
            return [("what is counted is the length up to the item", loc[name] == (self.total if self.sequential else self.most)(it.at)), ("place", E.And(it.at >= 0, it.at <= it.end))]

        def havoc(loc):
            loc['__it__'].at = fresh(E, 'at')
            loc[accumulator(loc)] = fresh_real(E, 'length')
            self.cur = None
        E.loop(LoopSpec("items", where, inv, on_havoc=havoc, for_only=True))


class Some(Ghost):
    """The first children of a node."""
    def __init__(self, owner, end):
        self.owner, self.end = owner, end

    def __iter__(self):
        return Items(self.owner, self.end)
    __pv_iter__ = __iter__


def source(it):
    """The ghost iterator a generator draws from."""
    if isinstance(it, Items):
        return it
    if isinstance(it, map):
        return source(it.__reduce__()[1][1])
    f = getattr(it, 'gi_frame', None)
    if f is None:
        raise core.Unsupported("generator")
    s = f.f_locals.get('.0')
    if not isinstance(s, Items):
        raise core.Unsupported("generator")
    return s


@unit('C15', 'music', functions=['dom.lily.Music.time_length'], random_runs=0)
def u_music(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    me = Parent(E, L, E.choice('sequential', [True, False]))
    me.install()

    class Context(Ghost):
        def length(self, n, end=None):
            if not isinstance(n, Item) or end is not None:
                raise core.Unsupported("length")
            return me.f(n.k)
    end = None
    if E.choice('end', [True, False]):
        end = fresh(E, 'end')
        E.assume(E.And(end >= 0, end <= me.size))
    E.cover("precondition")
    r = L.Music.time_length(me, Context(), end)
    if me.sequential:
        E.prove("sequential music is as long as its items (up to the given item) together", r == me.total(me.size if end is None else end))
    elif end is None:
        E.prove("simultaneous music is as long as its longest item", r == me.most(me.size))
    else:
        E.prove("an item of simultaneous music starts at the start", r == 0)


@unit('C15', 'after grace', functions=['dom.lily.AfterGrace.time_length'], random_runs=0)
def u_after(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    me = Parent(E, L, False)
    E.ghost['local_objects'] = All()

    class Context(Ghost):
        def length(self, n, end=None):
            if not isinstance(n, Item) or end is not None:
                raise core.Unsupported("length")
            return me.f(n.k)
    main = fresh(E, 'main')     # the first item that is music (or a reference)
    E.assume(E.And(main >= 0, main <= me.size))
    first = Item.__pv_isinstance__

    def inv(loc):
        it = loc['__it__']
        return [("no music was passed over", it.at <= main), ("place", it.at >= 0)]

    def havoc(loc):
        loc['__it__'].at = fresh(E, 'at')
        me.cur = None
    # the items before the main music are no music, the main music is
    me.axioms = lambda k: (setattr(me.cur, 'kind', 'other' if k < main else E.choice('kind', ['music', 'reference']) if k == main else None), E.assume(E.And(me.f(k) >= 0, E.Or(k >= main, me.f(k) == 0))))
    E.loop(LoopSpec("items", lambda site, loc: isinstance(loc.get('__it__'), Items), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = L.AfterGrace.time_length(me, Context(), None)
    E.prove("music with grace notes after it is as long as the main music", E.If(main < me.size, r == me.f(main), r == 0))


@unit('C15', 'kinds of music', functions=['dom.lily.MusicList.is_sequential', 'dom.lily.SimultaneousMusicList.is_sequential', 'dom.lily.Music.is_sequential', 'dom.lily.is_music'], random_runs=0)
def u_kinds(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    inside = E.choice('parent', ['simultaneous', 'other', 'none'])

    class Around(Ghost):
        def __pv_isinstance__(self, t):
            if types(t) == {L.Simultaneous}:
                return inside == 'simultaneous'
            raise core.Unsupported("type of the parent")

    class Me(Ghost):
        parent = None if inside == 'none' else Around()
    E.cover("precondition")
    E.prove("a list is sequential unless it is the argument of \\simultaneous", bool(L.MusicList.is_sequential(Me())) == (inside != 'simultaneous'))
    E.prove("<< >> is not sequential", not L.SimultaneousMusicList.is_sequential(Me()))
    others = [c for c in vars(L).values() if isinstance(c, type) and issubclass(c, L.Music) and not issubclass(c, L.MusicList)]
    E.prove("other music is not sequential, its items start together", all(not c.is_sequential(Me()) for c in others))
    E.prove("the other lists", all(c.is_sequential in (L.MusicList.is_sequential, L.SimultaneousMusicList.is_sequential) for c in vars(L).values() if isinstance(c, type) and issubclass(c, L.MusicList)))


class Chain(Ghost):
    """A node, the child at the index in its children, a child of that, ..."""
    def __init__(self, E, size):
        self.E, self.size = E, size
        self.index, self.place, self.before = function('index', 'i', 'i'), function('place', 'i', 'r'), function('before', 'i', 'r')
        self.seq = function('seq', 'i', 'i')
        E.assume(self.place(0) == 0)

    def sequential(self, k):
        return self.seq(k) == 1

    def axioms(self, k):
        E = self.E
        i, b = self.index(k), self.before(k)
        E.assume(E.And(i >= 0, b >= 0, E.Or(i > 0, b == 0)))
        E.assume(E.If(self.sequential(k), self.place(k + 1) == self.place(k) + b, self.place(k + 1) == self.place(k)))


class Link(Ghost):
    def __init__(self, chain, k):
        self.chain, self.k = chain, k

    def is_sequential(self):
        return self.chain.sequential(self.k)

    def time_length(self, context, end=None):
        c, E = self.chain, self.chain.E
        if not isinstance(context, Entered) or end is None or not core.is_num(end):
            raise core.Unsupported("length")
        E.prove("what precedes an item is measured in the context of its parent", context.k == self.k + 1)
        E.prove("what precedes an item ends at that item", end == c.index(self.k))
        E.prove("only what is sequential precedes", c.sequential(self.k))
        return c.before(self.k)

    def __pv_getitem__(self, i):
        c = self.chain
        c.E.prove("the trail is followed", c.E.And(i == c.index(self.k), self.k < c.size))
        return Link(c, self.k + 1)

    __getitem__ = __pv_getitem__

    def __pv_is__(self, other):
        return isinstance(other, Link) and other.chain is self.chain and other.k == self.k

    def __pv_fresh__(self, E, name):
        return Link(self.chain, fresh(E, name))


class Entered(Ghost):
    """The context in which the first k nodes of the chain are entered."""
    def __init__(self, chain, k):
        self.chain, self.k = chain, k

    def enter(self, node, time=None):
        if not isinstance(node, Link) or node.chain is not self.chain or time is not None:
            raise core.Unsupported("enter")
        self.chain.E.prove("every node on the trail is entered once, from the outside", node.k == self.k)
        return Entered(self.chain, self.k + 1)

    def length(self, node, end=None):
        c, E = self.chain, self.chain.E
        if not isinstance(node, Link) or node.chain is not c:
            raise core.Unsupported("length")
        if end is None:
            E.prove("the length of a node is computed in the context of its parent", node.k == self.k)
            return c.length
        E.prove("what precedes an item is measured in the context of its parent", node.k == self.k)
        E.prove("what precedes an item ends at that item", end == c.index(self.k))
        return E.If(c.sequential(self.k), c.before(self.k), 0)

    def __pv_fresh__(self, E, name):
        return Entered(self.chain, fresh(E, name))


class Trail(Ghost):
    def __init__(self, chain, start=0):
        self.chain, self.start = chain, start

    def __pv_iter__(self):
        return Steps(self.chain, self.start)

    def __iter__(self):
        return Steps(self.chain, self.start)

    def __pv_len__(self):
        return self.chain.size - self.start

    def __bool__(self):
        return bool(self.chain.size > self.start)

    def __pv_getslice__(self, s):
        if s.step is not None or s.stop is not None or not core.is_num(s.start):
            raise core.Unsupported("slice")
        self.chain.E.prove("the index in the trail", E_and(self.chain.E, s.start >= 0, s.start <= self.chain.size - self.start))
        return Trail(self.chain, self.start + s.start)

    def __getitem__(self, s):
        if not isinstance(s, slice):
            raise core.Unsupported("item")
        return self.__pv_getslice__(s)


def E_and(E, *a):
    return E.And(*a)


class Steps(Ghost):
    def __init__(self, chain, at):
        self.chain, self.at = chain, at

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        c = self.chain
        if not self.at < c.size:
            raise StopIteration
        c.axioms(self.at)
        k = self.at
        self.at = self.at + 1
        return c.index(k)


@unit('C15', 'following a trail', functions=['time.TimeContext._follow_trail'], random_runs=0)
def u_trail(E):
    T = E.mod('quickly.time')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    size = fresh(E, 'size')
    E.assume(size >= 0)
    c = Chain(E, size)
    c.length = fresh_real(E, 'own')

    def vars_(loc):
        ctx = [k for k in loc['__names__'] if isinstance(loc.get(k), Entered)]
        nodes = [k for k in loc['__names__'] if isinstance(loc.get(k), Link)]
        n = [k for k in loc['__names__'] if k in loc and core.is_num(loc[k]) and k not in ('index', 'i')]
        if not (len(ctx) == len(nodes) == len(n) == 1):
            raise core.Unsupported("variables of the loop")
        return ctx[0], nodes[0], n[0]

    def inv(loc):
        a, b, n = vars_(loc)
        k = loc['__it__'].at
        return [("the nodes before are entered", loc[a].k == k), ("the node is that at the trail so far", loc[b].k == k),
                ("the length is that of what precedes the node", loc[n] == c.place(k)), ("place", E.And(k >= 0, k <= size))]

    def havoc(loc):
        loc['__it__'].at = fresh(E, 'at')
        loc[vars_(loc)[2]] = fresh_real(E, 'length')
    E.loop(LoopSpec("trail", lambda site, loc: isinstance(loc.get('__it__'), Steps), inv, on_havoc=havoc, for_only=True))
    E.cover("precondition")
    r = T.TimeContext._follow_trail(Entered(c, 0), Link(c, 0), Trail(c))
    if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Entered) and isinstance(r[1], Link)):
        raise core.Unsupported("result")
    E.prove("the node at the end of the trail", r[1].k == size)
    E.prove("its context", r[0].k == size)
    E.prove("the position of the node is the length of all that precedes it in sequential music, each scaled by its context", r[2] == c.place(size))


@unit('C15', 'position', functions=['time.Time.position'], random_runs=0)
def u_position(E):
    T = E.mod('quickly.time')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    size = fresh(E, 'size')
    E.assume(size >= 0)
    c = Chain(E, size)
    c.length = fresh_real(E, 'own')
    node = Opaque()
    follow(E, T, c)

    def preceding(n):
        if n is not node:
            raise core.Unsupported("preceding")
        return Link(c, 0), Trail(c)
    E.patch(T.Time, '_preceding_music', staticmethod(preceding))
    time = T.Time.__new__(T.Time)
    c.time = time
    include = E.choice('include', [None, False, True])
    E.cover("precondition")
    r = time.position(node) if include is None else time.position(node, include)
    E.prove("the topmost music", isinstance(r, T.Result) and isinstance(r.node, Link) and r.node.k == 0)
    E.prove("the position is the length of all that precedes, and of the node itself if included", r.time == c.place(size) + (c.length if include else 0))


def follow(E, T, *chains):
    """The contract of _follow_trail, and contexts in which nothing is entered."""
    def _follow_trail(self, node, trail):
        if not isinstance(node, Link) or not isinstance(trail, Trail):
            raise core.Unsupported("trail")
        c, k = trail.chain, trail.start
        E.prove("a trail is followed from the node it starts at", node.k == k)
        E.prove("a trail is followed in the context of the node it starts at", self.k == k)
        return Entered(c, c.size), Link(c, c.size), c.place(c.size) - c.place(k)
    E.patch(Entered, '_follow_trail', _follow_trail)

    def make(time, transform=None, properties=None):
        if transform is not None or properties is not None:
            raise core.Unsupported("context")
        E.prove("the context has the time object", time is chains[0].time)
        return Entered(chains[0], 0)
    E.patch(T, 'TimeContext', make)


@unit('C15', 'duration', functions=['time.Time.duration'], random_runs=0)
def u_duration(E):
    T = E.mod('quickly.time')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    m1, m2 = fresh(E, 'start size'), fresh(E, 'end size')
    E.assume(E.And(m1 >= 0, m2 >= 0))
    same = E.choice('same music', [True, False])
    a, b = Chain(E, m1), Chain(E, m2)
    # the end: other nodes from the place where the trails differ
    b.index, b.place, b.before, b.seq = function('index2', 'i', 'i'), function('place2', 'i', 'r'), function('before2', 'i', 'r'), function('seq2', 'i', 'i')
    a.length, b.length = fresh_real(E, 'own start'), fresh_real(E, 'own end')
    E.assume(b.place(0) == 0)
    nodes = Opaque(), Opaque()
    top = Link(a, 0), Link(a, 0) if same else Link(b, 0)
    follow(E, T, a)

    def preceding(n):
        if n not in nodes:
            raise core.Unsupported("preceding")
        return (top[0], Trail(a)) if n is nodes[0] else (top[1], Trail(b))
    E.patch(T.Time, '_preceding_music', staticmethod(preceding))
    time = T.Time.__new__(T.Time)
    a.time = b.time = time

    # nodes, contexts and the place are common as long as the indices are the same
    class Both(Ghost):
        def __init__(self):
            self.at = 0

        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            k = self.at
            if not E.And(k < m1, k < m2):
                raise StopIteration
            a.axioms(k), b.axioms(k)
            # the same node so far
            E.assume(E.And(a.seq(k) == b.seq(k), E.Or(a.index(k) != b.index(k), E.And(a.before(k) == b.before(k)))))
            self.at = k + 1
            return k, (a.index(k), b.index(k))

    def enumerate_(it, start=0):
        if start != 0 or type(it) is not zip:
            raise core.Unsupported("enumerate")
        its = it.__reduce__()[1]
        if not (len(its) == 2 and all(isinstance(i, Steps) for i in its) and its[0].chain is a and its[1].chain is b and all(isinstance(i.at, int) and i.at == 0 for i in its)):
            raise core.Unsupported("enumerate")
        return Both()
    E.ghost['enumerate'] = enumerate_

    def vars_(loc):
        ctx = [k for k in loc['__names__'] if isinstance(loc.get(k), Entered)]
        ns = [k for k in loc['__names__'] if isinstance(loc.get(k), Link)]
        if not (len(ctx) == len(ns) == 1) or not core.is_num(loc.get('index')):
            raise core.Unsupported("variables of the loop")
        return ctx[0], ns[0]

    def inv(loc):
        x, y = vars_(loc)
        k = loc['__it__'].at
        return [("the common nodes are entered", loc[x].k == k), ("the node is the last common one", loc[y].k == k), ("the index is that of the last step", loc['index'] == k - 1),
                ("place", E.And(k >= 0, k <= m1, k <= m2)), ("the place is common", a.place(k) == b.place(k))]

    def havoc(loc):
        loc['__it__'].at = fresh(E, 'at')
        loc['index'] = fresh(E, 'index')
    E.loop(LoopSpec("common part", lambda site, loc: isinstance(loc.get('__it__'), Both), inv, on_havoc=havoc, for_only=True))
    # while the node is common, the link of one chain is that of the other
    E.cover("precondition")
    r = time.duration(*nodes)
    if r is None:
        E.prove("nothing only if the nodes are in different music", not same)
    else:
        E.prove("the common music", same and isinstance(r, T.Result) and isinstance(r.node, Link) and r.node.k == 0)
        E.prove("the duration is from the start of the first to the end of the last", r.time == b.place(m2) + b.length - a.place(m1))


class Node(Ghost):
    """A node of some kind: 'music', 'reference' or 'other'."""
    def __init__(self, E, L, kind):
        self.E, self.L, self.kind = E, L, kind

    def __pv_isinstance__(self, t):
        L, ts = self.L, types(t)
        if not ts <= {L.Music, L.Reference}:
            raise core.Unsupported("type of a node")
        return (L.Music if self.kind == 'music' else L.Reference if self.kind == 'reference' else None) in ts

    # the transform, the properties and the length of music
    def own(self, D, P):
        E = self.E
        self.tr = None
        if E.choice('transforms', [True, False]):
            self.tr = D.Transform(fresh(E, 'log'), fresh(E, 'dots'), fresh_real(E, 'scale'))
        self.props = P.Properties(b=3, c=4) if E.choice('properties', [True, False]) else None
        self.value = fresh_real(E, 'length')

    def transform(self):
        return self.tr

    def properties(self):
        return self.props


def entered(E, ctx, outer, node, wanted_time=None):
    """The context is that in the node."""
    t, n = outer.transform, node.tr
    log, dots, scale = (t.log, t.dotcount, t.scale) if n is None else (t.log + n.log, t.dotcount + n.dotcount, t.scale * n.scale)
    E.prove("shifts of nested commands are added", E.And(ctx.transform.log == log, ctx.transform.dotcount == dots))
    E.prove("scalings of nested commands are multiplied", ctx.transform.scale == scale)
    want = dict(vars(outer.properties), **(vars(node.props) if node.props else {}))
    E.prove("inner properties override outer ones", vars(ctx.properties) == want)


def outer_context(E, T, D, P, time):
    tr = D.Transform(fresh(E, 'outer log'), fresh(E, 'outer dots'), fresh_real(E, 'outer scale')) if E.choice('outer transform', [True, False]) else None
    props = P.Properties(a=1, b=2) if E.choice('outer properties', [True, False]) else None
    c = T.TimeContext(time, tr, props)
    E.prove("the context has the transform", (c.transform.log, c.transform.dotcount, c.transform.scale) == (0, 0, 1) if tr is None else
            E.And(c.transform.log == tr.log, c.transform.dotcount == tr.dotcount, c.transform.scale == tr.scale))
    return c


@unit('C15', 'entering music', functions=['time.TimeContext.enter', 'time.TimeContext.__init__', 'duration.Transform.__add__', 'datatypes.Properties.__add__'], random_runs=0)
def u_enter(E):
    T, L, D, P = E.mod('quickly.time'), E.mod('quickly.dom.lily'), E.mod('quickly.duration'), E.mod('quickly.datatypes')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    time, other = Opaque(), Opaque()
    c = outer_context(E, T, D, P, time)
    node = Node(E, L, 'music')
    node.own(D, P)
    before = c.transform.log, c.transform.dotcount, c.transform.scale, dict(vars(c.properties))
    E.cover("precondition")
    k = E.choice('time', [True, False])
    r = c.enter(node, other) if k else c.enter(node)
    E.prove("a context", isinstance(r, T.TimeContext) and r.time is (other if k else time))
    entered(E, r, c, node)
    E.prove("the outer context is left alone", E.And(c.transform.log == before[0], c.transform.dotcount == before[1], c.transform.scale == before[2], vars(c.properties) == before[3]))


@unit('C15', 'any node', functions=['time.TimeContext.length'], random_runs=0)
def u_length(E):
    T, L, D, P = E.mod('quickly.time'), E.mod('quickly.dom.lily'), E.mod('quickly.duration'), E.mod('quickly.datatypes')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    c = outer_context(E, T, D, P, Opaque())
    node = Node(E, L, E.choice('kind', ['music', 'reference', 'other']))
    node.own(D, P)
    end = fresh(E, 'end') if E.choice('end', [True, False]) else None
    far = fresh_real(E, 'remote')

    def time_length(self, ctx, end2=None):
        if self is not node or not isinstance(ctx, T.TimeContext) or node.kind != 'music':
            raise core.Unsupported("length")
        entered(E, ctx, c, node)
        E.prove("the same Time", ctx.time is c.time)
        E.prove("the items to count", end2 is end)
        return node.value
    E.patch(Node, 'time_length', time_length)

    def remote(self, n):
        if n is not node:
            raise core.Unsupported("remote length")
        E.prove("a reference is followed in the context it is in", self is c)
        return far
    E.patch(T.TimeContext, 'remote_length', remote)
    E.cover("precondition")
    r = c.length(node) if end is None else c.length(node, end)
    E.prove("the length", r == (node.value if node.kind == 'music' else far if node.kind == 'reference' else 0))


@unit('C15', 'references', functions=['time.TimeContext.remote_length'], random_runs=0)
def u_remote(E):
    T, L, D, P = E.mod('quickly.time'), E.mod('quickly.dom.lily'), E.mod('quickly.duration'), E.mod('quickly.datatypes')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    wait = Opaque()
    st = dict(cur=None, scope=None, gone=False)

    class Timer(Ghost):
        def __init__(self, scope=None, w=False):
            self.scope, self.wait = scope, w

    def value(kind):
        n = Node(E, L, kind)
        if kind == 'music':
            n.own(D, P)
        return n

    def get_value_with_scope(self, scope=None, w=True):
        if not isinstance(self, Node) or self.kind != 'reference' or self is not st['cur']:
            raise core.Unsupported("value of a node")
        E.prove("a reference is looked up in the scope it is found in", scope is st['scope'])
        E.prove("lookups wait if requested", w is wait)
        k = E.choice('value', ['none', 'music', 'reference', 'other'])
        if k == 'none':
            st['gone'] = True
            return None
        st['cur'], st['scope'] = value(k), Opaque()
        return st['cur'], st['scope']
    E.patch(Node, 'get_value_with_scope', get_value_with_scope)

    def time_length(self, ctx, end=None):
        if self is not st['cur'] or not isinstance(ctx, T.TimeContext) or self.kind != 'music':
            raise core.Unsupported("length")
        entered(E, ctx, c, self)
        E.prove("references in the value are looked up where the value is found", isinstance(ctx.time, Timer) and ctx.time.scope is st['scope'] and ctx.time.wait is wait)
        E.prove("the whole value", end is None)
        return self.value
    E.patch(Node, 'time_length', time_length)
    start = Opaque() if E.choice('scope', [True, False]) else None
    c = outer_context(E, T, D, P, Timer(start, wait))
    st['cur'], st['scope'] = value('reference'), start

    def names(loc):
        n = [k for k in loc['__names__'] if isinstance(loc.get(k), Node)]
        s = [k for k in loc['__names__'] if k not in n and k in loc and (loc[k] is st['scope'] or isinstance(loc[k], Opaque))]
        if len(n) != 1 or len(s) != 1:
            raise core.Unsupported("variables of the loop")
        return n[0], s[0]

    def inv(loc):
        n, s = names(loc)
        return [("the value found last, with its scope", loc[n] is st['cur'] and loc[s] is st['scope'])]

    def havoc(loc):
        n, s = names(loc)
        loc[n] = st['cur'] = value(E.choice('kind', ['music', 'reference', 'other']))
        loc[s] = st['scope'] = Opaque() if E.choice('scope', [True, False]) else None
    E.loop(LoopSpec("references", lambda site, loc: any(v is st['cur'] for v in loc.values()), inv, on_havoc=havoc, while_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = c.remote_length(st['cur'])
    cur = st['cur']
    E.prove("the length of a reference is that of the music it stands for, or 0", r == (cur.value if not st['gone'] and cur.kind == 'music' else 0))
    E.prove("references are followed to the end", st['gone'] or cur.kind != 'reference')


class Ancestors(Ghost):
    """The ancestors of a node: m of them are music, innermost first."""
    def __init__(self, E, L, m):
        self.E, self.L, self.m, self.at, self.more = E, L, m, 0, False

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        E = self.E
        k = self.at
        if k < self.m:
            self.at = k + 1
            return Anc(self, k, True)
        if self.more or not E.choice('other ancestor', [True, False]):
            if self.more:
                raise core.Unsupported("ancestors beyond the music")
            raise StopIteration
        self.more = True
        self.at = k + 1
        return Anc(self, k, False)


class Anc(Ghost):
    def __init__(self, walk, k, music):
        self.walk, self.k, self.music = walk, k, music

    def __pv_isinstance__(self, t):
        if types(t) == {self.walk.L.Music}:
            return self.music
        raise core.Unsupported("type of an ancestor")


class AncList(Ghost):
    """The m innermost ancestors."""
    def __init__(self, walk):
        self.walk = walk

    def __pv_len__(self):
        return self.walk.m

    def __bool__(self):
        return bool(self.walk.m > 0)

    def __pv_reversed__(self):
        return Outer(self.walk)

    def __getitem__(self, s):
        if s == slice(None, None, -1):
            return AncRev(self.walk)
        raise core.Unsupported("item")

    def reverse(self):
        raise core.Unsupported("reverse")


class AncRev(Ghost):
    def __init__(self, walk):
        self.walk = walk

    def __iter__(self):
        return Outer(self.walk)
    __pv_iter__ = __iter__


class Outer(Ghost):
    """From the outermost."""
    def __init__(self, walk):
        self.walk, self.at = walk, walk.m

    def __iter__(self):
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        if not self.at > 0:
            raise StopIteration
        self.at = self.at - 1
        return Anc(self.walk, self.at, True)


@unit('C15', 'length in its surroundings', functions=['time.Time.length'], random_runs=0)
def u_timelength(E):
    T, L = E.mod('quickly.time'), E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    m = fresh(E, 'ancestors')
    E.assume(m >= 0)
    own = fresh_real(E, 'length')
    kind = E.choice('kind', ['music', 'reference', 'other'])

    class Me(Node):
        def ancestors(self):
            return Ancestors(E, L, m)
    node = Me(E, L, kind)

    class Context(Ghost):
        def __init__(self, k):
            self.k = k      # the ancestors from m - 1 to k are entered

        def enter(self, a, time=None):
            if not isinstance(a, Anc) or time is not None:
                raise core.Unsupported("enter")
            E.prove("the ancestors are entered, from the outside", a.k == self.k - 1)
            return Context(a.k)

        def length(self, n, end=None):
            if n is not node or end is not None:
                raise core.Unsupported("length")
            if kind != 'other':
                E.prove("all the music around a node is entered", self.k == 0)
            return own if kind != 'other' else 0

        def __pv_fresh__(self, E, name):
            return Context(fresh(E, name))
    time = T.Time.__new__(T.Time)

    def make(t, transform=None, properties=None):
        if t is not time or transform is not None or properties is not None:
            raise core.Unsupported("context")
        return Context(m)
    E.patch(T, 'TimeContext', make)

    def list_(x):
        if type(x) is not itertools.takewhile:
            raise core.Unsupported("list")
        src, pred = x.__reduce__()[1][1], x.__reduce__()[1][0]
        src = x.__reduce__()[1]
        walk = [v for v in src if isinstance(v, Ancestors)]
        if len(walk) != 1 or not (isinstance(walk[0].at, int) and walk[0].at == 0):
            raise core.Unsupported("list")
        walk = walk[0]
        if E.choice('list', ['element', 'end']) == 'element':
            walk.at = k = fresh(E, 'k')
            E.assume(E.And(k >= 0, k < m))
            v = next(x, None)
            E.prove("all music around the node is taken", v is not None and isinstance(v, Anc) and v.k == k)
            raise core.PathEnd()
        walk.at = m
        E.prove("only music around the node is taken", next(x, None) is None)
        return AncList(walk)
    E.ghost['list'] = list_

    def name(loc):
        n = [k for k in loc['__names__'] if isinstance(loc.get(k), Context)]
        if len(n) != 1:
            raise core.Unsupported("variables of the loop")
        return n[0]

    def inv(loc):
        it = loc['__it__']
        return [("the ancestors so far are entered", E.And(loc[name(loc)].k == it.at, it.at >= 0, it.at <= m))]

    def havoc(loc):
        loc['__it__'].at = fresh(E, 'at')
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Outer), inv, on_havoc=havoc, for_only=True))
    E.cover("precondition")
    r = time.length(node)
    E.prove("the length in that context", r == (own if kind != 'other' else 0))


@unit('C15', 'topmost music', functions=['time.Time._preceding_music'], random_runs=0)
def u_preceding(E):
    T, L = E.mod('quickly.time'), E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    m = fresh(E, 'ancestors')
    E.assume(m >= 0)
    index = function('index', 'i', 'i')

    class Walk(Ancestors):
        def __next__(self):
            a = Ancestors.__next__(self)
            return a, index(a.k)
        __iter__ = __pv_iter__ = lambda self: self

    class Me(Ghost):
        k = -1

        def ancestors_with_index(self):
            return Walk(E, L, m)

        def __pv_fresh__(self, E, name):
            return Anc(walk, fresh(E, name), True)
    me, walk = Me(), Ancestors(E, L, m)
    Anc_fresh = lambda self, E, name: Anc(self.walk, fresh(E, name), True)
    E.patch(Anc, '__pv_fresh__', Anc_fresh)
    lo, hi = Opaque(), Opaque()     # the indices of the first ancestors, of the following ones
    st = dict(count=None, trail=None)

    def trail(loc):
        ls = [v for k, v in loc.items() if type(v) is list]
        if len(ls) != 1:
            raise core.Unsupported("variables of the loop")
        return ls[0]

    def up(loc):
        n = [k for k in loc['__names__'] if isinstance(loc.get(k), (Me, Anc))]
        return n

    def inv(loc):
        it, t = loc['__it__'], trail(loc)
        k = it.at
        if t == []:
            n = k == 0
        elif len(t) == 1 and core.is_num(t[0]):
            n = E.And(k == 1, t[0] == index(0))
        elif len(t) >= 2 and t[0] is lo and t[1] is hi and len(t) <= 3:
            n = k == st['count'] if len(t) == 2 else E.And(k == st['count'] + 1, core.is_num(t[2]) and t[2] == index(st['count']))
        else:
            raise core.Unsupported("the trail")
        return [("the trail has the indices of the nodes passed", n), ("only music is passed", E.And(k >= 0, k <= m)),
                ("the node is the last one passed", E.Or(*[loc[x].k == k - 1 for x in up(loc)]))]

    def havoc(loc):
        it = loc['__it__']
        it.at = st['count'] = fresh(E, 'at')
        trail(loc)[:] = [lo, hi]
        # an ancestor was passed, or the node is the first one
        if not st['count'] > 0:
            trail(loc)[:] = []
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Walk), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v if not isinstance(v, (Me, Anc)) else NotImplemented))
    E.cover("precondition")
    r = T.Time._preceding_music(me)
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (Me, Anc)) and type(r[1]) is list):
        raise core.Unsupported("result")
    E.prove("the topmost music around the node", r[0].k == m - 1)
    t = r[1]
    if t and not (len(t) == 2 and set(map(id, t)) == {id(lo), id(hi)}):
        raise core.Unsupported("the trail")
    E.prove("the trail goes from the topmost music to the node", m == 0 if not t else E.And(m == st['count'], t[0] is hi))


class Kids(Ghost):
    """Iterates over the children of a command: the number(s), the music, comments anywhere."""
    def __init__(self, E, *items):
        self.E, self.items, self.comment = E, list(items), False

    def __iter__(self):
        return self

    def __next__(self):
        if self.comment:
            raise core.PathEnd()        # a comment was left out, the state is the same (see the loop contract)
        if self.E.choice('comment', [False, True]):
            self.comment = True
            return Note()
        if not self.items:
            raise StopIteration
        return self.items.pop(0)


class Note(Ghost):
    """A comment or the music: not a number."""
    def __pv_isinstance__(self, t):
        if len(types(t)) == 1 and 'Comment' in str(t):
            return True
        return False


class Number(Ghost):
    """A numeric argument: an Int, Float, Fraction or a Scheme number."""
    def __init__(self, E, L, kind):
        self.E, self.L, self.kind = E, L, kind
        self.value = fresh(E, 'value') if kind == 'Int' else fresh_real(E, 'value')
        if kind == 'Fraction':
            self.head = fresh(E, 'numerator'), fresh(E, 'denominator')
            E.assume(E.And(self.head[1] > 0, self.head[0] > 0, self.value * self.head[1] == self.head[0]))

    def __pv_isinstance__(self, t):
        L, ts = self.L, types(t)
        if not ts <= {L.Int, L.Float, L.Fraction, L.Scheme, L.Number}:
            raise core.Unsupported("type of a number")
        return getattr(L, self.kind) in ts or L.Number in ts

    def fraction(self):
        if self.kind != 'Fraction':
            raise core.Unsupported("fraction")
        return self.L.Fraction.fraction(self)


@unit('C15', 'scaling and shifting', functions=['dom.lily.Times.transform', 'dom.lily.Tuplet.transform', 'dom.lily.ScaleDurations.transform', 'dom.lily.ShiftDurations.transform', 'dom.lily.Grace.transform', 'dom.lily.Fraction.fraction', 'dom.lily.filter_map'], random_runs=0)
def u_transforms(E):
    L, D = E.mod('quickly.dom.lily'), E.mod('quickly.duration')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    which = E.choice('command', ['Times', 'Tuplet', 'ScaleDurations', 'ShiftDurations', 'Grace', 'Acciaccatura', 'Appoggiatura', 'SlashedGrace'])
    if not hasattr(L, which):
        E.assume(False)
    kinds = ['Fraction'] if which in ('Times', 'Tuplet') else ['Int'] if which == 'ShiftDurations' else ['Fraction', 'Int', 'Float']
    n = 2 if which == 'ShiftDurations' else 1
    nums = [Number(E, L, E.choice('number %d' % i, kinds)) for i in range(n)]

    class Me(Ghost):
        def __iter__(self):
            return Kids(E, *nums, Note())

        def __truediv__(self, cls):
            if cls is not L.Fraction:
                raise core.Unsupported("children of a type")
            return iter([x for x in nums if x.kind == 'Fraction'])

    def value(node):
        # the contract of get_num_value() and get_int_value(), see 'numeric arguments'
        return node.value if isinstance(node, Number) else None if isinstance(node, Note) else unsupported("value")
    E.patch(L, 'get_num_value', value)
    E.patch(L, 'get_int_value', value)

    def plain(site, loc):
        if isinstance(loc.get('__it__'), Kids):
            raise core.Unsupported("loop over the children")
        return False
    E.loop(LoopSpec("children", plain, lambda loc: []))
    E.cover("precondition")
    t = getattr(L, which).transform(Me())
    E.prove("the command transforms durations", isinstance(t, D.Transform))
    if which == 'ShiftDurations':
        E.prove("durations are shifted by the two numbers", E.And(t.log == nums[0].value, t.dotcount == nums[1].value, t.scale == 1))
    else:
        v = nums[0].value
        E.prove("durations are scaled by the fraction, inversely for tuplets, grace music has no length",
                E.And(t.log == 0, t.dotcount == 0, t.scale == v if which in ('Times', 'ScaleDurations') else t.scale * v == 1 if which == 'Tuplet' else t.scale == 0))


def unsupported(what):
    raise core.Unsupported(what)


@unit('C15', 'numeric arguments', functions=['dom.lily.get_num_value', 'dom.lily.get_int_value', 'dom.util.skip_comments'], random_runs=0)
def u_numbers(E):
    L, S = E.mod('quickly.dom.lily'), E.mod('quickly.dom.scm')
    B = E.mod('quickly.dom.base')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    kind = E.choice('kind', ['Int', 'Float', 'Fraction', 'Scheme', 'comment', 'music'])
    get_int = E.choice('function', [True, False])
    head = fresh(E, 'head')     # an integer, also as the value of a Float

    class Inner(Ghost):
        """A child of a Scheme node."""
        def __init__(self, k):
            self.kind = k

        @property
        def head(self):
            if self.kind != 'number':
                raise core.Unsupported("head")
            return head

        def __pv_isinstance__(self, t):
            if types(t) == {B.Comment}:
                return self.kind == 'comment'
            if types(t) == {S.Number}:
                return self.kind == 'number'
            raise core.Unsupported("type in a Scheme node")
    content = E.choice('content', ['number', 'other', 'two']) if kind == 'Scheme' else None

    class Inside(Ghost):
        """A Scheme number or other value(s), comments anywhere."""
        def __init__(self):
            self.items = [Inner('number' if content == 'number' else 'other')] + [Inner('other')] * (content == 'two')
            self.generic = None

        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            if self.generic == 'comment':
                self.generic = 'left out'
                return Inner('comment')
            if self.generic == 'left out':
                raise core.PathEnd()    # a comment was left out
            if not self.items:
                raise StopIteration
            return self.items.pop(0)

    class Me(Ghost):
        def __pv_isinstance__(self, t):
            ts = types(t)
            if not ts <= {L.Int, L.Float, L.Fraction, L.Scheme}:
                raise core.Unsupported("type of a node")
            return kind in ('Int', 'Float', 'Fraction', 'Scheme') and getattr(L, kind) in ts

        @property
        def head(self):
            return Flt() if kind == 'Float' else head if kind == 'Int' else unsupported("head")

        def fraction(self):
            return head if kind == 'Fraction' else unsupported("fraction")

        def __iter__(self):
            if kind != 'Scheme':
                raise core.Unsupported("children")
            return Inside()
        __pv_iter__ = __iter__

    class Flt(Ghost):
        """A float with an integer value."""
        def is_integer(self):
            return True

        def __pv_int__(self):
            return head

    def list_(x):
        f = getattr(x, 'gi_frame', None)
        s = f.f_locals.get('.0') if f is not None else x
        if not isinstance(s, Inside):
            raise core.Unsupported("list")
        if E.choice('list', ['comment', 'rest']) == 'comment':
            s.generic = 'comment'
            v = next(x)
            E.prove("comments are left out", v.kind != 'comment')
            raise core.PathEnd()
        return list(iter(x))
    E.ghost['list'] = list_
    E.cover("precondition")
    if get_int:
        if kind == 'Float':
            E.assume(False)     # int() of a float: see the documents
        r = L.get_int_value(Me())
        want = head if kind == 'Int' or content == 'number' else None
    else:
        r = L.get_num_value(Me())
        want = head if kind in ('Int', 'Fraction') or content == 'number' else None
        if kind == 'Float':
            E.prove("a number is its own value", isinstance(r, Flt))
            return
    E.prove("the value of a number, nothing for something else", r is None if want is None else r is not None and r == want)


@unit('C15', 'notes, chords and skips', functions=['dom.lily.Durable.time_length', 'dom.lily.Chord.time_length', 'dom.lily.Skip.time_length', 'time.TimeContext.durable_length'], random_runs=0)
def u_durable(E):
    L, T = E.mod('quickly.dom.lily'), E.mod('quickly.time')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    which = E.choice('item', ['Note', 'Chord', 'Skip'])
    dur, scaling, total = fresh_real(E, 'duration'), fresh_real(E, 'scaling'), fresh_real(E, 'length')
    notes = which == 'Chord' and E.choice('notes', [True, False])
    music = which == 'Skip' and E.choice('argument', ['duration', 'music']) == 'music'
    st = dict(seen=False)

    class Tr(Ghost):
        def length(self, d, s=1):
            E.prove("the length is that of the item's own or previous duration and scaling, transformed", E.And(d == dur, s == scaling))
            return total

    class Timer(Ghost):
        def get_duration(self, n):
            if n is not me:
                raise core.Unsupported("duration")
            return dur, scaling
    ctx = T.TimeContext(Timer(), Tr())

    class Bodies(Ghost):
        """The children of a chord, of which one has notes."""
        def __init__(self):
            self.cur = None

        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            if E.choice('next', ['end', 'child']) == 'end':
                if notes and not st['seen']:
                    E.assume(False)
                self.cur = None
                raise StopIteration
            self.cur = Body(notes and not st['seen'] and E.choice('has notes', [True, False]))
            return self.cur

    class Body(Ghost):
        def __init__(self, has):
            self.has = has

        def __floordiv__(self, cls):
            if cls is not L.Note:
                raise core.Unsupported("descendants")
            return [Opaque()] if self.has else []

    def inv(loc):
        b = loc['__it__'].cur
        return [("no note was passed over", b is None or not b.has)]

    def havoc(loc):
        loc['__it__'].cur = None
    E.loop(LoopSpec("children", lambda site, loc: isinstance(loc.get('__it__'), Bodies), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    base = getattr(L, which)

    class Me(base):
        def __iter__(self):
            return Bodies()
        __pv_iter__ = __iter__

        def __truediv__(self, cls):
            if cls is not L.Duration:
                raise core.Unsupported("children of a type")
            return iter([] if music else [Opaque()])

        def __bool__(self):
            return True
    me = base.__new__(Me, 'c') if which == 'Note' else base.__new__(Me)
    inner = fresh_real(E, 'music')

    def music_length(self, context, end=None):
        if self is not me or context is not ctx:
            raise core.Unsupported("length")
        return inner
    E.patch(L.Music, 'time_length', music_length)
    E.cover("precondition")
    r = me.time_length(ctx, None)
    E.prove("an empty chord has no length, a skip with music has that of the music", r == (0 if which == 'Chord' and not notes else inner if music else total))


@unit('C15', 'transformed length', functions=['duration.Transform.length', 'duration.Transform.transform'], random_runs=0)
def u_transformed(E):
    D = E.mod('quickly.duration')
    if not E.symbolic:
        return
    d, s, sc, shifted = (fresh_real(E, x) for x in ('duration', 'scaling', 'scale', 'shifted'))
    log, dots = fresh(E, 'log'), fresh(E, 'dots')

    def shift(duration, l, k):
        # the contract of shift_duration (C01)
        E.prove("the duration is shifted by the number of levels and dots", E.And(duration == d, l == log, k == dots))
        return shifted
    E.patch(D, 'shift_duration', shift)
    E.assume(E.Or(shifted == d, log != 0, dots != 0))
    E.cover("precondition")
    E.prove("the length is the shifted duration times all scalings", D.Transform(log, dots, sc).length(d, s) == shifted * s * sc)


@unit('C15', 'cursors', functions=['time.Time.cursor_position', 'time.Time.cursor_duration'], random_runs=0)
def u_cursors(E):
    T = E.mod('quickly.time')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    wait = Opaque()
    pos, end = fresh(E, 'pos'), fresh(E, 'end')
    E.assume(E.And(pos >= 0, end >= pos))
    dom, start, music, other = Opaque(), Opaque(), Opaque(), Opaque()

    class Last(Ghost):
        """The last node, or the last node in that, etc."""
        def __init__(self):
            self.asked, self.music, self.deeper = False, None, None

        def __pv_len__(self):
            if self.deeper is None:
                self.deeper = E.choice('children', [False, True])
            return 1 if self.deeper else 0

        def __getitem__(self, i):
            if i != -1 or not self.deeper:
                raise core.Unsupported("child")
            E.prove("the end of the selection is the outermost music that ends there", self.asked and self.music is None)
            st['last'] = Last()
            return st['last']
    last = Last()
    st = dict(last=last)
    where = E.choice('cursor', ['position', 'duration'])
    have = {k: E.choice(k, [True, False]) for k in (['dom', 'node', 'music'] + ['end node'] * (where == 'duration'))}
    selection = where == 'position' or E.choice('selection', [True, False])

    class Doc(Ghost):
        def get_transform(self, w=False):
            E.prove("waits for a transformation if requested", w is wait)
            return dom if have['dom'] else None

    class Cursor(Ghost):
        @property
        def pos(self):
            return pos

        def document(self):
            return Doc()

        def has_selection(self):
            return selection

        def selection(self):
            return pos, end

    def right(self, p):
        if self is not dom:
            raise core.Unsupported("search")
        E.prove("the first music at or after the start", p == pos)
        return start if have['node'] else None

    def left(self, p):
        if self is not dom:
            raise core.Unsupported("search")
        E.prove("the last music before the end", p == end)
        return last if have['end node'] else None
    E.patch(Opaque, 'find_descendant_right', right)
    E.patch(Opaque, 'find_descendant_left', left)

    def music_child(n):
        if n is start:
            return music if have['music'] else None
        if isinstance(n, Last) and n is st['last']:
            n.asked = True
            n.music = other if E.choice('end music', [True, False]) else None
            return n.music
        raise core.Unsupported("music")
    E.patch(T.Time, '_music_child', staticmethod(music_child))

    def names(loc):
        n = [k for k in loc['__names__'] if isinstance(loc.get(k), Last)]
        e = [k for k in loc['__names__'] if k in loc and (loc[k] is None or loc[k] is other)]
        if len(n) != 1 or len(e) != 1:
            raise core.Unsupported("variables of the loop")
        return n[0], e[0]

    def inv(loc):
        n, e = names(loc)
        return [("the last node at the end was tried", loc[n] is st['last'] and st['last'].asked and loc[e] is st['last'].music)]

    def havoc(loc):
        n, e = names(loc)
        loc[n] = st['last'] = Last()
        st['last'].asked = True
        loc[e] = st['last'].music = other if E.choice('end music', [True, False]) else None
    E.loop(LoopSpec("last node", lambda site, loc: any(isinstance(v, Last) for v in loc.values()), inv, on_havoc=havoc, while_only=True, fresh=lambda n, v: v))
    common = E.choice('same music', [True, False])
    length = fresh_real(E, 'time')
    res = T.Result(Opaque(), length)

    def position(self, n, include=False):
        E.prove("the position of the start", n is music and not include)
        return res

    def duration(self, a, b):
        E.prove("the duration from the first to the last node", a is music and b is other)
        return res if common else None
    E.patch(T.Time, 'position', position)
    E.patch(T.Time, 'duration', duration)
    time = T.Time.__new__(T.Time)
    time.scope, time.wait = None, wait
    E.cover("precondition")
    if where == 'position':
        E.prove("the position of the music at the cursor, if any", time.cursor_position(Cursor()) is (res if all(have.values()) else None))
    else:
        r = time.cursor_duration(Cursor())
        end_music = selection and all(have.values()) and st['last'].music is other
        E.prove("all nodes that end there are tried", not selection or not all(have.values()) or end_music or not st['last'].__pv_len__())
        if end_music and common:
            E.prove("the duration of the selected music, if it is not reversed", E.If(length >= 0, r is res, r is None))
        else:
            E.prove("no duration without selected music", r is None)


# ---------------------------------------------------------------- documents

class Gen:
    """Random documents with lengths."""
    def __init__(self, rng):
        self.rng = rng
        self.names = []

    def dur(self):
        r = self.rng
        return r.choice(['', '', '4', '8', '2.', '16..', '\\breve', '1*2/3', '4*2', '8*3/2*1/3', '32', '4.'])

    def item(self, d):
        r = self.rng
        k = r.random()
        if k < .4 or d <= 0:
            return r.choice([lambda: r.choice('cdefgab') + r.choice(['', "'", 'is']) + self.dur() + r.choice(['', '', '-.', '\\f', '~', '^"x"', '(']),
                             lambda: r.choice('rsR') + self.dur(), lambda: 'q' + self.dur(), lambda: "c'\\rest" + self.dur(),
                             lambda: '<' + r.choice(['c e', 'c', '', "c e g"]) + '>' + self.dur() + r.choice(['', '-.']),
                             lambda: '\\skip ' + r.choice(['4', '8.', '2*3']), lambda: r.choice(['4', '8', '2.']),
                             lambda: r.choice(['| ', '%{ x %}', '% x\n', '\\break', '\\stemUp', '\\key c \\major', '\\clef bass', '\\time 3/4', '\\tempo 4 = 60', '\\partial 4', '\\bar "||"', '\\mark 1', '\\set x.y = 4', '\\once \\override A.b = 8', '\\markup { x }', '\\octaveCheck c4', '\\language "english"'])])()
        if k < .55:
            return self.ref()
        return self.music(d)

    def ref(self):
        r = self.rng
        return '\\' + r.choice(self.names * 2 + ['unknown', 'later', 'text', 'loop', 'loopB'])

    def list(self, d):
        r = self.rng
        a, b = r.choice([('{ ', ' }'), ('{ ', ' }'), ('{ ', ' }'), ('<< ', ' >>'), ('\\simultaneous { ', ' }'), ('\\simultaneous %{ x %} { ', ' }'), ('\\sequential { ', ' }')])
        sep = ' \\\\ ' if a == '<< ' and r.random() < .3 else ' '
        return a + sep.join(self.item(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4]))) + b

    def arg(self, d):
        """A music argument."""
        r = self.rng
        return r.choice([lambda: self.list(d), lambda: self.list(d), lambda: self.music(d - 1) if d > 0 else self.list(d), lambda: self.ref(), lambda: 'c' + self.dur(), lambda: '%{ y %} ' + self.list(d)])()

    def music(self, d):
        r = self.rng
        if d <= 0:
            return self.list(d)
        num = lambda: r.choice(['0', '1', '2', '#0', '#1', '#2', '#-1', '#1 %{ z %}'])
        return r.choice([
            lambda: self.list(d), lambda: self.list(d), lambda: self.list(d),
            lambda: '\\tuplet %s %s%s' % (r.choice(['3/2', '5/4', '2/3', '3/2']), r.choice(['', '', '4 ', '4. ']), self.list(d)),
            lambda: '\\times %s %s' % (r.choice(['2/3', '4/5', '3/2']), self.arg(d)),
            lambda: '\\scaleDurations %s %s' % (r.choice(['2/3', '#2/3', '3/4', '#2', '4', '#1/2']), self.list(d)),
            lambda: '\\shiftDurations %s %s %s' % (num(), num(), self.list(d)),
            lambda: r.choice(['\\grace ', '\\acciaccatura ', '\\appoggiatura ', '\\slashedGrace ']) + self.arg(d),
            lambda: '\\afterGrace %s%s %s' % (r.choice(['', '', '3/4 ', '1/2 ']), self.arg(d), self.list(d - 1)),
            lambda: '\\skip ' + self.list(d),
            lambda: '\\new Staff ' + self.arg(d), lambda: '\\new Voice = "a" \\with { \\consists "B" } ' + self.list(d), lambda: '\\context Voice ' + self.list(d),
            lambda: "\\relative c' " + self.list(d), lambda: '\\fixed c ' + self.list(d), lambda: '\\absolute ' + self.list(d), lambda: '\\transpose c d ' + self.list(d),
            lambda: '\\tag #\'a ' + self.list(d), lambda: '\\keepWithTag #\'a ' + self.list(d), lambda: '\\unfoldRepeats ' + self.list(d),
            lambda: '\\drummode { bd4 sn <bd hh>8 r %s }' % self.ref(), lambda: '\\lyricmode { a4 b8 -- c \\markup { d } "e"2 }', lambda: '\\chordmode { c1 d2:7 e }', lambda: '\\figuremode { <5>4 <6 3> <7>8 }',
            lambda: '\\partcombine %s %s' % (self.list(d - 1), self.list(d - 1)),
            lambda: '\\repeat volta 2 ' + self.list(d),
        ])()

    def document(self):
        r = self.rng
        out = []
        self.names = []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.random()
            if k < .1:
                out.append('text = "abc"')
            elif k < .2:
                out.append('loop = { c2 \\loop }')
            elif k < .3:
                out.append('loop = \\loopB loopB = \\loop')
            else:
                name = r.choice(['a', 'b', 'c', 'foo', 'muz'])
                name = {'a': 'va', 'b': 'vb', 'c': 'vc'}.get(name, name)
                out.append('%s = %s' % (name, r.choice([lambda: self.music(2), lambda: self.list(1), lambda: self.ref()])()))
                self.names.append(name)
        d = r.choice([1, 2, 3, 3, 4])
        out += [r.choice(['', '', '\\score { %s }', '\\new Score ']) for _ in range(r.choice([1, 1, 2]))]
        out = [o % self.music(d) if '%s' in o else o if '=' in o else o + self.music(d) for o in out]
        if r.random() < .3:
            out.append('later = { c1 }')
        return '\n'.join(out)


def gen(rng):
    return dict(text=Gen(rng).document(), a=rng.randint(0, 99), b=rng.randint(0, 99), p=rng.randint(0, 100), q=rng.randint(0, 100))


class Oracle:
    """Lengths, read directly from the tree."""
    def __init__(self, M, doc, more=()):
        self.L, self.B, self.doc = M.get('quickly.dom.lily'), M.get('quickly.dom.base'), doc
        self.S = M.get('quickly.dom.scm')
        L = self.L
        self.durs = {}
        prev = Fraction(1, 4), Fraction(1)

        def walk(n, chord):
            nonlocal prev
            if isinstance(n, L.Durable) and not chord:
                d = own(L, n)
                if d or not isinstance(n, L.Skip):
                    self.durs[id(n)] = d or prev
                    if d and not isinstance(n, L.Skip):
                        prev = d
            for k in n:
                walk(k, chord or isinstance(n, L.ChordBody))
        for x in (doc, *more):
            prev = Fraction(1, 4), Fraction(1)
            walk(x, False)
        # the last assignment before each node
        self.order = {id(n): i for i, n in enumerate([doc, *doc.descendants()])}

    def shifted(self, v, log, dots):
        if not (log or dots):
            return v
        base, k = Fraction(1 << 20), 0
        while base > v:
            base /= 2
        while base * (2 - Fraction(1, 2 ** k)) != v:
            k += 1
            if k > 30:
                return None     # not a note value
        if k + dots < 0 or not -10 < log < 10:
            return None
        return base / Fraction(2) ** log * (2 - Fraction(1, 2 ** (k + dots)))

    def number(self, n):
        L, S = self.L, self.S
        if isinstance(n, L.Fraction):
            a, b = n.head if isinstance(n.head, tuple) else map(int, str(n.head).split('/'))
            return Fraction(a, b)
        if isinstance(n, L.Int):
            return Fraction(n.head)
        if isinstance(n, L.Scheme):
            for k in n:
                if isinstance(k, S.Number):
                    return Fraction(k.head)

    def tr(self, n, t):
        """The transformation inside n: (log, dots, scale)."""
        L = self.L
        log, dots, scale = t
        nums = [x for x in (self.number(k) for k in n) if x is not None]
        if isinstance(n, L.Times):
            scale *= nums[0]
        elif isinstance(n, L.Tuplet):
            scale /= nums[0]
        elif isinstance(n, L.ScaleDurations):
            scale *= nums[0]
        elif isinstance(n, L.ShiftDurations):
            log, dots = log + int(nums[0]), dots + int(nums[1])
        elif isinstance(n, L.Grace):
            scale = Fraction(0)
        return log, dots, scale

    def sequential(self, n):
        L = self.L
        return isinstance(n, L.MusicList) and n.head == '{' and not isinstance(n.parent, L.Simultaneous)

    def value(self, ref):
        """The value of a reference: of the last assignment of that name before it at top level."""
        L = self.L
        name, found = ref.head, None
        me = self.order[id(ref)]
        for a in self.doc:
            if isinstance(a, L.Assignment) and a[0][0].head == name and self.order[id(a)] < me and not any(p is a for p in ref.ancestors()):
                found = a
        return None if found is None else [k for k in found if not isinstance(k, self.B.Comment)][2]

    def length(self, n, t=(0, 0, Fraction(1)), scope=None):
        L = self.L
        if isinstance(n, L.Reference):
            if not isinstance(n, L.IdentifierRef):
                raise Skip
            if scope is not None:
                v = n.get_value_with_scope(scope)       # see C18
                return 0 if not v else self.length(v[0], t, v[1])
            v = self.value(n)
            return 0 if v is None else self.length(v, t)
        if not isinstance(n, L.Music):
            return 0
        if isinstance(n, L.Chord) and not any(isinstance(k, L.Note) for b in n for k in b.descendants()):
            return 0
        if id(n) in self.durs:
            d, s = self.durs[id(n)]
            d = self.shifted(d, *t[:2])
            if d is None:
                raise Skip
            return d * s * t[2]
        t = self.tr(n, t)
        if isinstance(n, L.AfterGrace):
            return self.length([k for k in n if isinstance(k, (L.Music, L.Reference))][0], t, scope)
        parts = [self.length(k, t, scope) for k in n]
        return sum(parts) if self.sequential(n) else max(parts, default=0)

    def place(self, n, scope=None):
        """(topmost music, transformation at n, position of n)."""
        L = self.L
        chain = [n]
        while isinstance(chain[0].parent, L.Music):
            chain.insert(0, chain[0].parent)
        t, pos = (0, 0, Fraction(1)), 0
        for p, k in zip(chain, chain[1:]):
            t = self.tr(p, t)
            if self.sequential(p):
                for s in p:
                    if s is k:
                        break
                    pos += self.length(s, t, scope)
        return chain[0], t, pos


class Skip(Exception):
    pass


@bounded('C15', 'lengths in documents', gen=gen, quick=4000, thorough=100000, seconds=60, functions=['time.Time.length', 'time.Time.position', 'time.Time.duration', 'time.Time.cursor_position', 'time.Time.cursor_duration', 'dom.lily.Music.time_length'],
         rule='random documents (tuplets, scaled and shifted durations, grace music, simultaneous music, chords, skips, lyrics, figures, references to known, unknown, later and cyclic variables); every item, random pairs, cursors; against lengths computed independently from the tree')
def b_documents(M, c):
    import parce
    L, T = M.get('quickly.dom.lily'), M.get('quickly.time')
    M.get('quickly')
    text = c['text']
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        d = parce.Document(parce.find('lilypond'), text, transformer=True)
        doc = d.get_transform(True)
    if out.getvalue():
        return False
    o = Oracle(M, doc)
    time = T.Time()
    try:
        todo = [n for n in doc.descendants() if isinstance(n, (L.Music, L.Reference)) and not any(isinstance(p, L.ChordBody) for p in n.ancestors())]
        spec = {}
        for n in todo:
            top, t, pos = o.place(n)
            spec[id(n)] = top, pos, o.length(n, t)
    except Skip:
        return False
    start = c['a'] * len(todo) // 100 if todo else 0
    for n in todo[start:] + todo[:start]:
        top, pos, length = spec[id(n)]
        got = time.length(n)
        check(got == length, "the length of %r is %r, not %r: %r", n, got, length, text)
        if not (isinstance(n, L.Music) or isinstance(n.parent, L.Music)):
            continue
        r = time.position(n)
        check(r.node is top and r.time == pos, "the position of %r is %r, not %r: %r", n, r, pos, text)
        r = time.position(n, True)
        check(r.node is top and r.time == pos + length, "the end of %r is %r, not %r: %r", n, r, pos + length, text)
    pairs = [n for n in todo if isinstance(n, L.Music) or isinstance(n.parent, L.Music)]
    for i in range(6 if len(pairs) else 0):
        x, y = pairs[(c['a'] + i * 7) % len(pairs)], pairs[(c['b'] + i * 11) % len(pairs)]
        (tx, px, lx), (ty, py, ly) = spec[id(x)], spec[id(y)]
        r = time.duration(x, y)
        if tx is not ty:
            check(r is None, "a duration between %r and %r: %r", x, y, text)
        else:
            check(r.node is tx and r.time == py + ly - px, "the duration from %r to %r is %r, not %r: %r", x, y, r, py + ly - px, text)
    # cursors right before an item and after another
    marks = [n for n in pairs if n.pos is not None]
    if marks:
        x = marks[c['p'] * len(marks) // 101]
        r = time.cursor_position(parce.Cursor(d, x.pos))
        y = doc.find_descendant_right(x.pos)
        check(r is not None and r.time == spec[id(x)][1], "the position of the cursor at %r is %r, not %r: %r", x, r, spec[id(x)][1], text)
        a, b = sorted(marks[c[k] * len(marks) // 101].pos for k in 'pq')
        x, y = [next(m for m in marks if m.pos == k) for k in (a, b)]
        e = y.end
        for n in list(y.ancestors()):
            if n.end == e and id(n) in spec:
                y = n
            elif not isinstance(n, L.Assignment) and n is not doc and n.end == e:
                return True     # e.g. an octave check
        (tx, px, lx), (ty, py, ly) = spec[id(x)], spec[id(y)]
        r = time.cursor_duration(parce.Cursor(d, x.pos, y.end))
        if tx is not ty or py + ly < px:
            check(r is None, "a duration of the selection from %r to %r: %r", x, y, text)
        else:
            check(r is not None and r.node is tx and r.time == py + ly - px, "the duration of the selection from %r to %r is %r, not %r: %r", x, y, r, py + ly - px, text)
    p, q = sorted((c['p'] * len(text) // 100, c['q'] * len(text) // 100))
    for k in (p, q, len(text)):
        time.cursor_position(parce.Cursor(d, k))
    r = time.cursor_duration(parce.Cursor(d, p, q))
    check(r is None or r.time >= 0, "a negative duration of the selection")
    return len(todo) > 4 and len({s[1] for s in spec.values()}) > 2


def gen_files(rng):
    g = Gen(rng)
    g.names = ['va', 'vb', 'vc']
    files = {}
    for f in ('a', 'b', 'c')[:rng.choice([2, 2, 3])]:
        out = []
        if rng.random() < .8:
            out.append('\\include "%s.ly"' % rng.choice('bbc' if f == 'a' else 'abc'))
        for _ in range(rng.choice([1, 2, 3]) if f != 'a' else rng.choice([0, 1, 2])):
            out.append(rng.choice([lambda: '%s = %s' % (rng.choice(g.names), rng.choice([lambda: g.music(2), lambda: g.list(2), lambda: g.ref()])())] * 4
                                  + [lambda: '\\include "%s.ly"' % rng.choice('abc'), lambda: g.list(2)])())
        files[f + '.ly'] = '\n'.join(out)
    files['a.ly'] += '\n{ \\%s %s %s } ' % (rng.choice(g.names), g.music(2), g.ref()) + g.music(2)
    return dict(files=files)


@bounded('C15', 'lengths over included documents', gen=gen_files, quick=1500, thorough=40000, seconds=40, case_s=20, functions=['time.Time.length', 'time.TimeContext.remote_length', 'time.Time.position'],
         rule='random sets of documents that (also cyclically) include each other, with references across them; every item of the main document, against lengths computed independently (where a reference is found is C18)')
def b_files(M, c):
    import parce
    import posixpath
    L, T, SC = M.get('quickly.dom.lily'), M.get('quickly.time'), M.get('quickly.dom.scope')
    M.get('quickly')
    out = io.StringIO()
    docs = {}
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        for f, text in c['files'].items():
            docs['/w/' + f] = d = parce.Document(parce.find('lilypond'), text, url='/w/' + f, transformer=True)
            d.get_transform(True)
    if out.getvalue():
        return False

    def factory(filename):
        n = posixpath.normpath(filename)
        if n not in docs:
            raise FileNotFoundError(filename)
        return docs[n]
    scope = SC.Scope(docs['/w/a.ly'], factory=factory)
    trees = [d.get_transform(True) for d in docs.values()]
    o = Oracle(M, trees[0], trees[1:])
    time = T.Time(scope, True)
    found = False
    for n in trees[0].descendants():
        if isinstance(n, (L.Music, L.Reference)) and not any(isinstance(p, L.ChordBody) for p in n.ancestors()):
            try:
                top, t, pos = o.place(n, scope)
                length = o.length(n, t, scope)
            except Skip:
                continue
            got = time.length(n)
            check(got == length, "the length of %r is %r, not %r: %r", n, got, length, c['files'])
            if isinstance(n, L.Music) or isinstance(n.parent, L.Music):
                r = time.position(n)
                check(r.node is top and r.time == pos, "the position of %r is %r, not %r: %r", n, r, pos, c['files'])
            if isinstance(n, L.Reference) and length:
                v = n.get_value_with_scope(scope)
                found = found or v[0].root() is not trees[0]
    return found

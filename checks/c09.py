"""C09: node mutators, copies and equality."""
import weakref
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec, Havoc
from pyvc import core
from checks.lygen import Gen

LEVEL = 'proof'
NOTE = ('Proved for any number of children and new nodes: every Node mutator performs exactly the list operation and every added node reports the node as parent; equals decides '
        'type, number of children, body and all children (induction over the tree). Histories of operations, copies and written text: bounded (random trees, generated documents).')
ASSUMPTIONS = ['list methods behave as documented', 'a node is added while it is not in another node (as documented)', 'body_equals of the element types compares what copies keep (bounded check)']


# ------------------------------------------------------------------ mutators (proof)

def clamp(x, default, n):
    if x is None:
        return default
    if x < 0:
        x = x + n
        return 0 if x < 0 else x
    return n if x > n else x


class Seq:
    """Ghost: any number of nodes, possibly an iterator that can be consumed once."""
    def __init__(self, W, name, once=False):
        self.W, self.name, self.once = W, name, once
        self.n = W.E.int('number of ' + name, 0)
        self.used = False           # an iterator that has been consumed
        self.ref = None             # what _parent() of all its nodes gives
        self.base, self.lo = self, 0

    def consume(self):
        if self.once:
            self.W.E.prove("an iterator is consumed only once", not self.used)
            self.used = True

    def __pv_iter__(self):
        self.consume()
        return SeqIter(self.base)

    __iter__ = __pv_iter__

    def as_list(self):
        s = Seq.__new__(Seq)
        s.__dict__.update(self.__dict__, once=False, used=False)
        return s

    def __pv_tuple__(self):
        self.consume()
        return self.as_list()

    def __getitem__(self, k):
        if self.once or not isinstance(k, slice) or k.step not in (None, 1):
            raise core.Unsupported("item of a sequence")
        lo, hi = clamp(k.start, 0, self.n), clamp(k.stop, self.n, self.n)
        if lo <= 0 and hi >= self.n:
            return self.as_list()
        part = self.as_list()           # some of the nodes
        part.base, part.n, part.ref = part, core.mk(self.W.E.fresh_int('part'), True), None
        return part

    __pv_getslice__ = __getitem__

    def __pv_len__(self):
        if self.once:
            raise TypeError("object of type 'generator' has no len()")
        return self.n


class SeqIter:
    """Any node of the sequence, or the end."""
    def __init__(self, seq):
        self.seq, self.item = seq, None
        seq.W.iter = self

    def __iter__(self):
        return self

    def __next__(self):
        W = self.seq.W
        if W.E.choice('iterate', ['end', 'some node']) == 'end':
            self.seq.ref = W.me     # by the invariant, for all nodes
            raise StopIteration
        W.E.assume(self.seq.n > 0)
        self.item = One()
        return self.item


class One:
    """Ghost: one node."""
    _parent = None

    @property
    def parent(self):
        return self._parent and self._parent()

    @parent.setter
    def parent(self, p):
        self._parent = weakref.ref(p)


class GhostList:
    """Contract of the list methods, for a ghost node."""
    @staticmethod
    def append(me, node):
        me.ops.append(('append', node))

    @staticmethod
    def insert(me, i, node):
        me.ops.append(('insert', i, node))

    @staticmethod
    def extend(me, seq):
        me.W.E.prove("extends with the given nodes", isinstance(seq, Seq))
        seq.consume()
        me.ops.append(('extend', seq.base))
        me.n0, me.n = me.n, me.n + seq.n
        me.tail = seq.as_list()

    @staticmethod
    def __setitem__(me, k, new):
        if isinstance(new, Seq):
            new.consume()
            new = new.base
        me.ops.append(('set', k, new))

    def __getattr__(self, name):
        raise core.Unsupported("list." + name)

    @staticmethod
    def __iadd__(me, seq):
        GhostList.extend(me, seq)
        return me

    def __call__(self, *a):
        raise core.Unsupported("list()")


class Me:
    """Ghost: the node the method is called on."""
    def __init__(self, W):
        self.W, self.n, self.ops, self.tail = W, W.E.int('n', 0), [], None
        W.me = self
        self.parent = None
        self._parent = lambda: self.parent

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n

    def __pv_getslice__(self, s):
        E = self.W.E
        # the only slice a mutator needs: the nodes just added
        lo = 0 if s.start is None else s.start
        if self.tail is None or s.step is not None or s.stop is not None:
            raise core.Unsupported("slice of the children")
        E.prove("exactly the new nodes are selected", E.eq(lo, self.n0))
        return self.tail

    def __getitem__(self, s):
        if isinstance(s, slice):
            return self.__pv_getslice__(s)
        raise core.Unsupported("a child")

    def only(self, *kinds):
        """Other operations could do the same: left to the bounded check."""
        if any(o[0] not in kinds for o in self.ops):
            raise core.Unsupported("other list operations: %s" % [o[0] for o in self.ops])

    # contracts of the other mutators
    def extend(self, nodes):
        self.ops.append(('node.extend', nodes))

    def append(self, node):
        self.ops.append(('node.append', node))


class W:
    def __init__(self, E):
        self.E, self.iter = E, None
        Me(self)
        E.patch(E.mod('quickly.node'), 'list', GhostList())
        keep = lambda name, v: v if name in ('self', 'nodes', 'new', 'k', 'index') else Havoc(name, v)
        E.loop(LoopSpec("nodes", lambda site, loc: 'Node.' in site, self.inv, fresh=keep, for_only=True, modifies=lambda loc: []))
        E.ghost.setdefault('local_objects', _All())

    def inv(self, loc):
        it = self.iter
        return [("the parent of each node is set", it is None or it.item is None or it.item._parent is not None and it.item._parent() is self.me)]


class _All:
    """Frame: the only objects written are the ghosts, whose state is checked explicitly."""
    def __contains__(self, o):
        return True


def ghost_unit(name, *functions):
    return unit('C09', name, functions=['node.Node.' + f for f in functions], random_runs=0)


@ghost_unit('append', 'append')
def u_append(E):
    if not E.symbolic:
        return
    N, w, x = E.mod('quickly.node').Node, W(E), One()
    E.cover("precondition")
    r = N.append(w.me, x)
    w.me.only('append')
    E.prove("appended once, nothing else", len(w.me.ops) == 1 and w.me.ops[0][0] == 'append' and w.me.ops[0][1] is x)
    E.prove("the node reports this node as parent", x.parent is w.me)
    E.prove("returns nothing, like a list", r is None)


@ghost_unit('insert', 'insert')
def u_insert(E):
    if not E.symbolic:
        return
    N, w, x = E.mod('quickly.node').Node, W(E), One()
    i = E.int('index')
    E.cover("precondition")
    N.insert(w.me, i, x)
    w.me.only('insert')
    E.prove("inserted once, nothing else", len(w.me.ops) == 1 and w.me.ops[0][0] == 'insert' and w.me.ops[0][2] is x)
    E.prove("at the given index", E.eq(w.me.ops[0][1], i))
    E.prove("the node reports this node as parent", x.parent is w.me)


@ghost_unit('extend', 'extend')
def u_extend(E):
    if not E.symbolic:
        return
    N, w = E.mod('quickly.node').Node, W(E)
    s = Seq(w, 'new', E.choice('once', [False, True]))
    E.cover("precondition")
    N.extend(w.me, s)
    w.me.only('extend')
    E.prove("extended once, nothing else", len(w.me.ops) == 1 and w.me.ops[0][0] == 'extend' and w.me.ops[0][1] is s)
    E.prove("all new nodes report this node as parent", s.ref is w.me)


@ghost_unit('+=', '__iadd__')
def u_iadd(E):
    if not E.symbolic:
        return
    N, w = E.mod('quickly.node').Node, W(E)
    s = Seq(w, 'new', E.choice('once', [False, True]))
    E.cover("precondition")
    r = N.__iadd__(w.me, s)
    w.me.only('extend', 'node.extend')
    E.prove("the node itself is the result", r is w.me)
    E.prove("extended once with all nodes, and the parents are set", len(w.me.ops) == 1 and w.me.ops[0][1] is s and
            (w.me.ops[0][0] == 'node.extend' or w.me.ops[0][0] == 'extend' and s.ref is w.me))


@ghost_unit('set one', '__setitem__')
def u_set(E):
    if not E.symbolic:
        return
    N, w, x = E.mod('quickly.node').Node, W(E), One()
    i = E.int('index')
    E.cover("precondition")
    N.__setitem__(w.me, i, x)
    w.me.only('set')
    E.prove("set once, nothing else", len(w.me.ops) == 1 and w.me.ops[0][0] == 'set' and w.me.ops[0][2] is x)
    E.prove("at the given index", not isinstance(w.me.ops[0][1], slice) and E.eq(w.me.ops[0][1], i))
    E.prove("the node reports this node as parent", x.parent is w.me)


@ghost_unit('set slice', '__setitem__')
def u_setslice(E):
    if not E.symbolic:
        return
    N, w = E.mod('quickly.node').Node, W(E)
    s = Seq(w, 'new', E.choice('once', [False, True]))
    k = slice(E.choice('start', [None, 0, 3, -2]), E.choice('stop', [None, 5, -1]), E.choice('step', [None, 2, -1]))
    E.cover("precondition")
    N.__setitem__(w.me, k, s)
    w.me.only('set')
    E.prove("set once, nothing else", len(w.me.ops) == 1 and w.me.ops[0][0] == 'set' and w.me.ops[0][2] is s)
    E.prove("the given slice", w.me.ops[0][1] == k)
    E.prove("all new nodes report this node as parent", s.ref is w.me)


class Kids:
    """Ghost: a parent that knows the index of one child, or the node that take() is called on."""
    def __init__(self, E, me=None):
        self.E, self.me = E, me
        self.n = E.int('n', 1)
        self.k = E.int('k', 0)
        E.assume(self.k < self.n)
        self.sets, self.log = [], []

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n

    def index(self, x):
        self.E.prove("looks for the node itself", x is self.me)
        return self.k

    def __setitem__(self, i, new):
        self.sets.append((i, new))

    def __pv_is__(self, o):
        return o is self

    def bounds(self, s):
        if s.step not in (None, 1):
            raise core.Unsupported("step")
        return clamp(s.start, 0, self.n), clamp(s.stop, self.n, self.n)

    def __getitem__(self, s):
        if not isinstance(s, slice):
            raise core.Unsupported("a child")
        self.log.append(('get', self.bounds(s)))
        return ('nodes', self.log[-1][1])

    __pv_getslice__ = __getitem__

    def __delitem__(self, s):
        if not isinstance(s, slice):
            raise core.Unsupported("a child")
        self.log.append(('del', self.bounds(s)))


@ghost_unit('replace_with', 'replace_with')
def u_replace(E):
    if not E.symbolic:
        return
    N, x = E.mod('quickly.node').Node, One()
    me = One()
    p = Kids(E, me)
    me._parent = lambda: p
    E.cover("precondition")
    N.replace_with(me, x)
    E.prove("one node of the parent is set", len(p.sets) == 1)
    i, new = p.sets[0]
    if isinstance(i, slice):
        E.prove("replaced by the new node", list(new) == [x])
        E.prove("the node itself", E.And(E.eq(p.bounds(i)[0], p.k), E.eq(p.bounds(i)[1], p.k + 1)))
    else:
        E.prove("replaced by the new node", new is x)
        E.prove("the node itself", E.Or(E.eq(i, p.k), E.eq(i, p.k - p.n)))


@ghost_unit('take', 'take')
def u_take(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node').Node
    p = Kids(E)
    a = E.int('start') if E.choice('with start', [True, False]) else 0
    b = E.int('end') if E.choice('with end', [True, False]) else None
    E.cover("precondition")
    r = N.take(p, a, b) if E.choice('call', [1, 0]) or type(a) is not int or b is not None else N.take(p)
    lo, hi = p.bounds(slice(a, b))
    E.prove("taken first, then deleted", [x[0] for x in p.log] == ['get', 'del'])
    E.prove("the nodes of the slice are the result", r[0] == 'nodes' and E.And(E.eq(r[1][0], lo), E.eq(r[1][1], hi)))
    E.prove("exactly those are deleted", E.And(E.eq(p.log[1][1][0], lo), E.eq(p.log[1][1][1], hi)))


# ------------------------------------------------------------------ equality (proof)

class Pairs:
    """Contract of zip over two ghost nodes: an arbitrary pair, or the end when all pairs seen are equal."""
    def __init__(self, T):
        self.T, self.seen = T, None

    def __pv_iter__(self):
        return self

    __iter__ = __pv_iter__

    def __next__(self):
        T = self.T
        E = T.E
        if self.seen is not None:
            E.prove("continues only while the children are equal", self.seen)
            raise core.PathEnd()
        if E.choice('pairs', ['end', 'some pair']) == 'end':
            T.children = True
            raise StopIteration
        E.assume(E.And(T.a.n > 0, T.b.n > 0))
        self.seen = eq = E.bool('children equal')
        T.children = E.And(eq, E.bool('other children equal'))      # the earlier pairs are equal
        return Kid(T, 0, eq), Kid(T, 1, eq)


class Kid:
    def __init__(self, T, side, eq):
        self.T, self.side, self.eq = T, side, eq

    def equals(self, o):
        E = self.T.E
        E.prove("compared with the corresponding child of the other", isinstance(o, Kid) and o.T is self.T and o.side != self.side and o.eq is self.eq)
        return self.eq


class EqNode:
    def __init__(self, T):
        self.T, self.n = T, T.E.int('children', 0)

    def __pv_len__(self):
        return self.n

    def __bool__(self):
        return True

    def body_equals(self, o):
        T = self.T
        T.E.prove("the body is compared with the other, of the same class", {id(self), id(o)} == {id(T.a), id(T.b)} and type(self) is type(o))
        return T.body


class EqOther(EqNode):
    pass


class EqWorld:
    pass


@ghost_unit('equals', 'equals')
def u_equals(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    T = EqWorld()
    T.E = E
    T.a = EqNode(T)
    T.b = E.choice('other', [EqNode, EqOther])(T)
    T.body, T.children = E.bool('body'), E.bool('children')

    def zip_(x, y):
        E.prove("the children of both are paired", {id(x), id(y)} == {id(T.a), id(T.b)})
        return Pairs(T)
    E.patch(N, 'zip', zip_)
    E.inexact = True
    E.cover("precondition")
    r = N.Node.equals(T.a, T.b)
    if type(T.a) is not type(T.b):
        E.prove("other type: not equal", not r)
    else:
        E.prove("equal exactly when number of children, body and all children are", E.Iff(r, E.And(E.eq(T.a.n, T.b.n), T.body, T.children)))


# ------------------------------------------------------------------ histories (bounded)

OPS = ['append', 'extend', 'extendgen', 'insert', 'set', 'setslice', 'setslice', 'setext', 'setown', 'del', 'delslice', 'replace', 'take', 'pop', 'remove', 'clear', 'iadd', 'reverse', 'new', 'parent']


def gen_ops(rng):
    n = rng.randint(2, 8)
    return dict(pool=n, element=rng.random() < .4, ops=[[rng.choice(OPS), rng.randint(0, 99), rng.randint(-4, 6), rng.randint(-4, 6), rng.randint(0, 3) if rng.random() < .98 else rng.randint(10, 70)] for _ in range(rng.randint(1, 25))])


def expect(f, *a):
    try:
        return 'ok', f(*a)
    except (IndexError, ValueError, TypeError) as e:
        return type(e).__name__, None


@bounded('C09', 'histories', gen=gen_ops, quick=15000, thorough=200000, seconds=40,
         functions=['node.Node.' + n for n in ('__init__', 'append', 'extend', '__iadd__', 'insert', '__setitem__', 'replace_with', 'take', 'parent', 'index', 'root', 'is_root')],
         rule='up to 25 operations on forests of up to 30 nodes, compared with plain lists after every operation; failing operations raise what a list raises')
def b_history(M, c):
    N = M.get('quickly.node')
    E = M.get('quickly.dom.element')
    cls = E.Element if c['element'] else N.Node
    class Sub(cls): pass
    nodes, model, up = [], {}, {}      # model: number -> list of numbers, up: number -> number of the parent
    num = {}

    def new(children=()):
        kids = [nodes[i] for i in children]
        x = (Sub if len(nodes) % 3 == 0 else cls)(*kids)
        num[id(x)] = len(nodes)
        model[len(nodes)] = list(children)
        for i in children:
            up[i] = len(nodes)
        nodes.append(x)
        return len(nodes) - 1

    def root(i):
        while i in up:
            i = up[i]
        return i

    def free(r, k, target):
        """Up to k detached nodes that may be added to target."""
        out = []
        ids = list(range(len(nodes)))
        for j in range(len(ids)):
            i = ids[(r + j * 7) % len(ids)] if len(ids) % 7 else ids[(r + j) % len(ids)]
            if i not in up and root(target) != i and i not in out:
                out.append(i)
        while len(out) < k:
            out.append(new())
        return out[:k]

    def verify(what):
        for i, x in enumerate(nodes):
            check([num.get(id(y)) for y in x] == model[i], "after %r: node %d has children %r, a list has %r", what, i, [num.get(id(y)) for y in x], model[i])
            check(len(x) == len(model[i]) and bool(x), "after %r: length or truth", what)
            for y in x:
                check(y.parent is x and not y.is_root(), "after %r: the parent of child %d is not its parent", what, num[id(y)])
        for i in up:
            top = nodes[root(i)]
            if top.parent is None:          # (removed nodes keep their parent)
                check(nodes[i].root() is top, "after %r: root", what)
    for _ in range(c['pool']):
        new()
    big = 0
    for op in c['ops']:
        kind, r, a, b, k = op
        t = r % len(nodes)
        x, m = nodes[t], model[t]
        if kind == 'new':
            f = []
            for i in range(len(nodes)):
                if i not in up and len(f) < k and (i + r) % 2:
                    f.append(i)
            new(f)
        elif kind == 'append':
            i, = free(r, 1, t)
            x.append(nodes[i])
            m.append(i)
            up[i] = t
        elif kind in ('extend', 'iadd', 'extendgen'):
            f = free(r, k, t)
            ns = [nodes[i] for i in f]
            if kind == 'extend':
                x.extend(ns)
            elif kind == 'extendgen':
                x.extend(n for n in ns)
            else:
                y = x
                y += iter(ns) if r % 2 else ns
                check(y is x, "+= gives another node")
            m.extend(f)
            up.update((i, t) for i in f)
        elif kind == 'insert':
            i, = free(r, 1, t)
            x.insert(a, nodes[i])
            m.insert(a, i)
            up[i] = t
        elif kind == 'set':
            i, = free(r, 1, t)
            old = expect(m.__getitem__, a)
            w, _ = expect(m.__setitem__, a, i)
            g, _ = expect(lambda: x.__setitem__(a, nodes[i]))
            check(g == w, "%r: %s, a list: %s", op, g, w)
            if w == 'ok':
                del up[old[1]]
                up[i] = t
        elif kind in ('setslice', 'setext'):
            f = free(r, k, t)
            s = slice(a if r % 5 else None, b if r % 7 else None, None if kind == 'setslice' else [2, -1, -2, 3][r % 4])
            gone = m[s]
            if kind == 'setext' and r % 3:
                f = free(r, len(gone), t)
            ns = [nodes[i] for i in f]
            w, _ = expect(m.__setitem__, s, f)
            g, _ = expect(lambda: x.__setitem__(s, [lambda: ns, lambda: iter(ns), lambda: tuple(ns), lambda: (n for n in ns)][r % 4]()))
            check(g == w, "%r: %s, a list: %s", op, g, w)
            if w == 'ok':
                for i in gone:
                    del up[i]
                up.update((i, t) for i in f)
        elif kind == 'setown':
            # the node's own children, filtered or reordered
            if r % 3 == 0:
                gone = m[::2]
                keep = {id(nodes[i]) for i in m[1::2]}
                m[:] = m[1::2]
                x[:] = (n for n in x if id(n) in keep)
            elif r % 3 == 1:
                gone = []
                m[:] = m[::-1]
                x[:] = reversed(x)
            else:
                gone = [i for i in m if type(nodes[i]) is Sub]
                m[:] = [i for i in m if i not in gone]
                x[:] = (x ^ Sub)
            for i in gone:
                del up[i]
        elif kind == 'del':
            old = expect(m.__getitem__, a)
            w, _ = expect(m.__delitem__, a)
            g, _ = expect(x.__delitem__, a)
            check(g == w, "%r: %s, a list: %s", op, g, w)
            if w == 'ok':
                del up[old[1]]
        elif kind == 'delslice':
            s = slice(a, b, [None, 1, 2, -1][k % 4])
            for i in m[s]:
                del up[i]
            del m[s]
            del x[s]
        elif kind == 'replace':
            if t not in up:
                continue
            i, = free(r + 1, 1, t)
            if i == t:
                continue
            p = up.pop(t)
            model[p][model[p].index(t)] = i
            up[i] = p
            x.replace_with(nodes[i])
        elif kind == 'take':
            args = [(), (a,), (a, b), (a, None)][k % 4]
            s = slice(*(args + (0, None)[len(args):]))
            gone = m[s]
            del m[s]
            g = x.take(*args)
            check([num.get(id(n)) for n in g] == gone, "%r: took %r, a list gives %r", op, g, gone)
            for i in gone:
                del up[i]
        elif kind == 'pop':
            args = () if k == 0 else (a,)
            w, i = expect(m.pop, *args)
            g, n = expect(x.pop, *args)
            check(g == w and (w != 'ok' or n is nodes[i]), "%r: %s, a list: %s", op, g, w)
            if w == 'ok':
                del up[i]
        elif kind == 'remove':
            i = m[a] if -len(m) <= a < len(m) else (r + 1) % len(nodes)
            w, _ = expect(m.remove, i)
            g, _ = expect(x.remove, nodes[i])
            check(g == w, "%r: %s, a list: %s", op, g, w)
            if w == 'ok':
                del up[i]
        elif kind == 'clear':
            if k:
                continue
            for i in m:
                del up[i]
            m.clear()
            x.clear()
        elif kind == 'reverse':
            m.reverse()
            x.reverse()
        elif kind == 'parent':
            if t not in up:
                if k:
                    del x.parent
                else:
                    x.parent = None
                check(x.parent is None and x.is_root() and x.root() is x, "the parent is not unset")
        verify(op)
        big = max(big, len(up))
    return big > 2


# ------------------------------------------------------------------ copies and equality (bounded)

OTHER = [('html', '<p class="x">a &amp; b<br/><!-- c --><b>z</b>\n  text</p>'), ('html', '<lilypond>{ c4 d }</lilypond><img src="a.png">'),
         ('latex', '\\begin{x} a $b^2$ % c\n \\foo[y=1]{z} \\end{x}'), ('scheme', "(define (f x) (if (< x 1/2) #t \"a\\\"b\" 'c `(d ,e) #\\a 1.5 -3)) ; c\n"),
         ('lily', 'music = \\relative c\' { c4.*2/3 <d e\'>8( f) r2 \\tuplet 3/2 { a8 b c } }\n\\header { title = "x" }')]
SPACE = ['', ' ', '\n', '\n\n', '   ']


def gen_doc(rng):
    if rng.random() < .06:
        lang, text = rng.choice(OTHER)
    else:
        lang, text = 'lily', Gen(rng).document(rng.choice([1, 1, 2]))
    return dict(lang=lang, text=text, seed=rng.randint(0, 10**6))


def parse(M, lang, text, origin=True):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return M.get('quickly.dom.read').__dict__[{'lily': 'lily_document', 'html': 'htm_document', 'latex': 'tex_document', 'scheme': 'scm_document'}[lang]](text, origin)


def content(M, n):
    """The head value, or None."""
    return n.head if isinstance(n, M.get('quickly.dom.element').TextElement) else None


def alike(M, a, b):
    return type(a) is type(b) and content(M, a) == content(M, b) and list.__len__(a) == list.__len__(b) and all(alike(M, x, y) for x, y in zip(list.__iter__(a), list.__iter__(b)))


def dump(M, n):
    h = content(M, n)
    return (id(n), type(n), type(h), repr(h), sorted(getattr(n, '_space', {}).items()), getattr(n, '_modified', None), [dump(M, x) for x in n])


SP = ['space_' + n for n in ('before', 'after_head', 'between', 'before_tail', 'after')]


def spaces(n):
    return [[getattr(x, s) for s in SP] for x in [n, *n.descendants()]]


@bounded('C09', 'copies', gen=gen_doc, quick=5000, thorough=100000, seconds=60, case_s=30,
         functions=['node.Node.copy', 'node.Node.equals', 'dom.element.Element.copy', 'dom.element.Element.copy_with_origin', 'dom.element.Element._spacing', 'dom.element.TextElement.copy',
                    'dom.element.TextElement.copy_with_origin', 'dom.element.TextElement.body_equals', 'dom.element._SpaceProperty', 'dom.element.Element.copy_origin_from'],
         rule='documents from generated LilyPond text (and some HTML, LaTeX, Scheme), spacing set on random elements, copies then edited at random')
def b_copies(M, c):
    import random
    rng = random.Random(c['seed'])
    doc = parse(M, c['lang'], c['text'])
    El = M.get('quickly.dom.element')
    all_ = [doc, *doc.descendants()]
    plain = doc.write()
    # spacing
    sub = rng.choice(all_)
    ref = [[getattr(x, s) for s in SP] for x in all_]
    for i, x in enumerate(all_):
        if rng.random() < .15:
            k, v = rng.randrange(5), rng.choice(SPACE)
            if rng.random() < .9 or not hasattr(x, '_space'):
                setattr(x, SP[k], v)
                ref[i][k] = v
            else:
                delattr(x, SP[k])
                ref[i][k] = getattr(type(x)(), SP[k]) if not isinstance(x, El.TextElement) else getattr(x, SP[k])
            check([getattr(x, s) for s in SP] == ref[i], "spacing of %r", x)
    before, text = dump(M, doc), doc.write()
    places = [(p.pos, p.end, p.modified) for p in doc.points()]
    check(all(p.pos is None for p in doc.copy().points()), "a copy has an origin")
    for cp in (doc.copy(), doc.copy_with_origin()):
        check(alike(M, cp, doc), "the copy differs")
        check(cp.equals(doc) and doc.equals(cp), "the copy is not equal")
        ids = {id(x) for x in all_}
        cs = [cp, *cp.descendants()]
        check(not any(id(x) in ids for x in cs), "the copy shares nodes")
        check(cp.parent is None and all(k.parent is x for x in cs for k in x), "parents in the copy")
        check(spaces(cp) == ref, "the spacing differs")
        check(cp.write() == text, "the copy writes %r, not %r", cp.write(), text)
    check([(p.pos, p.end, p.modified) for p in cp.points()] == places, "origin of the copy with origin")
    check([getattr(x, '_modified', 0) for x in cs] == [getattr(x, '_modified', 0) for x in all_], "modified flags of the copy with origin")
    check(len(doc.copy(False)) == 0 and len(doc.copy_with_origin(False)) == 0 and content(M, doc.copy(False)) == content(M, doc), "a copy without children")
    cp = sub.copy()
    check(cp.parent is None and alike(M, cp, sub), "copy of a part")
    # change a copy
    cp = doc.copy()
    for _ in range(rng.randint(1, 3)):
        cs = [cp, *cp.descendants()]
        x = rng.choice(cs)
        k = rng.randrange(7)
        if k == 0 and len(x):
            del x[rng.randrange(len(x))]
        elif k == 1 and x is not cp:
            x.replace_with(rng.choice([El.Element, M.get('quickly.dom.base').Newline])())
        elif k == 2 and len(x) > 1:
            x[:] = reversed(x)
        elif k == 3:
            x.append(rng.choice(cs).copy())
        elif k == 4:
            same = [y for y in cs if type(y) is type(x) and isinstance(x, El.TextElement) and y is not x and y not in x.ancestors()]
            if same:
                x.head = rng.choice(same).head
        elif k == 5:
            setattr(x, rng.choice(SP), rng.choice(SPACE))
        else:
            ts = [y for y in cs if isinstance(y, El.TextElement)]
            if ts and isinstance(rng.choice(ts).head, str):
                y = rng.choice(ts)
                if isinstance(y.head, str) and type(y).check_head(y.head + 'x'):
                    try:
                        y.head = y.head + 'x'
                    except (TypeError, ValueError):
                        pass
        check(cp.equals(doc) == alike(M, cp, doc) == doc.equals(cp), "equality is %r, the trees %s", cp.equals(doc), "are alike" if alike(M, cp, doc) else "differ")
    check(dump(M, doc) == before, "the original changed with the copy")
    check(doc.write() == text, "the original writes something else")
    # two parts of the document
    for _ in range(6):
        a, b = rng.choice(all_), rng.choice(all_)
        check(a.equals(b) == alike(M, a, b), "equality of %r and %r is %r", a, b, a.equals(b))
        check(a.body_equals(b) == (content(M, a) == content(M, b)) if type(a) is type(b) else True, "body_equals")
    return len(all_) > 3

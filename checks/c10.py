"""C10: tree navigation."""
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec, Havoc
from pyvc import core
from checks.trees import trees, paths, random_shape, get, build, below, backward_key

LEVEL = 'proof'
NOTE = ('Proved for trees of any shape and size: descendants, forward, backward, ancestors, ancestors_with_index, the siblings, filter_descendants (loop contracts over an abstract tree; '
        'finiteness of the tree assumed). Trails, common ancestors, height, depth and the operators: bounded, every tree up to 6 nodes, every pair of nodes.')
ASSUMPTIONS = ['a tree is finite and no node occurs twice in it', 'list.index finds the position of the node itself (Node.__eq__ is identity)']


def reflected(M):
    """True if node > instance still walks backward from the instance."""
    N = M.get('quickly.node')
    class A(N.Node): pass
    class A2(A): pass
    r = A(A(), A2(), A2())
    return [id(n) for n in r[0] > A2()] != [id(r[1]), id(r[2])]


PROBE = {'reflected-comparison': reflected}

# ------------------------------------------------------------------ abstract trees

class It:
    """Ghost: an iterator over the not yet visited part of the children of some node."""
    def __init__(self, W, reverse, size=None):
        self.W, self.reverse = W, reverse
        self.size = W.nat('size') if size is None else size      # all nodes still to come, descendants included

    def __pv_iter__(self):
        return self

    __iter__ = __pv_iter__

    def __next__(self):
        return self.W.advance(self)


class G:
    """Ghost: a node with any number of children."""
    def __init__(self, W, name, parent=None, index=None):
        self.W, self.name = W, name
        self.count = W.nat('children of ' + name)
        self.size = W.nat('size below ' + name)         # number of descendants
        W.E.assume(self.size >= self.count)
        W.E.assume(W.E.Or(self.count > 0, self.size == 0))
        self.parent = parent
        self.pos = index

    def __repr__(self):
        return '<' + self.name + '>'

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.count

    def __pv_iter__(self):
        return self.W.start(self, False)

    __iter__ = __pv_iter__

    def __pv_reversed__(self):
        return self.W.start(self, True)

    # contracts used by the callers
    def descendants(self, reverse=False):
        return self.W.block(self, reverse)

    def right_siblings(self):
        return self.W.siblings(self, False)

    def left_siblings(self):
        return self.W.siblings(self, True)


class Token:
    """Stands for any number of nodes yielded by a callee under its contract."""
    def __init__(self, node):
        self.node = node


class Walk:
    """Ghost specification of a walk: ``todo`` is what is still to be visited, in order.

    Its items: a node (must be yielded next), ('below', node) (all its
    descendants), an iterator It (what it will yield, with descendants), an
    unknown rest, ('up', node) (the following siblings of the node, then what
    follows its parent).
    """
    def __init__(self, E, reverse, upto=None):
        self.E, self.reverse, self.upto = E, reverse, upto
        self.todo = []
        self.n = 0

    def nat(self, name):
        E = self.E
        x = core.mk(E.fresh_int(name), True)
        E.assume(x >= 0)
        return x

    def node(self, *a):
        self.n += 1
        return G(self, 'node%d' % self.n, *a)

    def clean(self):
        """Forget a finished part at the front."""
        while self.todo and isinstance(self.todo[0], tuple) and self.todo[0][0] == 'below':
            self.E.prove("descendants are visited unless the node has none", self.todo[0][1].count == 0)
            self.todo.pop(0)

    # events
    def start(self, node, reverse):
        self.E.prove("iterates over the children of the node just visited", bool(self.todo) and self.todo[0] == ('below', node))
        self.E.prove("direction", reverse == self.reverse)
        self.todo[0] = it = It(self, reverse, node.size)
        return it

    def block(self, node, reverse):
        self.E.prove("iterates over the descendants of the node just visited", bool(self.todo) and self.todo[0] == ('below', node))
        self.E.prove("direction", reverse == self.reverse)
        return iter([Token(node)])

    def siblings(self, node, reverse):
        self.clean()
        self.E.prove("siblings of the node or the ancestor reached", bool(self.todo) and self.todo[0] == ('up', node))
        self.E.prove("direction", reverse == self.reverse)
        it = It(self, reverse)
        self.todo[0:1] = [it, ('up', node.parent)]
        return it

    def advance(self, it):
        self.clean()
        E = self.E
        E.prove("walks the part that is next in document order", bool(self.todo) and self.todo[0] is it)
        if it.size == 0:
            self.todo.pop(0)
            raise StopIteration
        c = self.node()
        rest = self.nat('size')
        E.assume(it.size == 1 + c.size + rest)
        it.size = rest
        self.todo[0:0] = [c, ('below', c)]
        return c

    def yielded(self, n):
        E = self.E
        if isinstance(n, Token):
            E.prove("the descendants of the node just visited", self.todo[0] == ('below', n.node))
            self.todo.pop(0)
            return None
        self.clean()
        E.prove("yields the next node in document order", bool(self.todo) and self.todo[0] is n)
        self.todo.pop(0)
        sent = E.choice('sent%d' % self.n, [None, False, True])
        if sent is False:
            self.todo.pop(0)        # its descendants are skipped
        return sent

    def finish(self):
        self.clean()
        while self.todo and isinstance(self.todo[0], tuple) and self.todo[0][0] == 'up':
            n = self.todo[0][1]
            self.E.prove("stops at the root or the given ancestor", n.parent is None or n is self.upto)
            self.todo.pop(0)
        self.E.prove("nothing is left to visit", not self.todo)

    def measure(self, loc_stack=None):
        m = 0
        for t in self.todo:
            if isinstance(t, It):
                m = m + 2 * t.size + 1
            elif isinstance(t, tuple) and t[0] == 'below':
                m = m + 2 * t[1].size
            elif isinstance(t, G):
                m = m + 2
        return m

    def drive(self, gen):
        sent = None
        while True:
            try:
                n = gen.send(sent)
            except StopIteration:
                break
            sent = self.yielded(n)
        self.finish()


class Rest:
    """Ghost: any number of further iterators on the stack."""


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


@unit('C10', 'descendants', functions=['node.Node.descendants'], random_runs=0)
def u_descendants(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    reverse = E.choice('reverse', [False, True])
    W = Walk(E, reverse)
    root = W.node()
    W.todo = [('below', root)]
    inner = {}

    def havoc_outer(loc):
        # any state of the walk
        W.todo = [loc['gen']]
        k = E.choice('stack', ['empty', 'one', 'more'])
        del loc['stack'][:]
        if k == 'more':
            loc['stack'].append(Rest())
        if k != 'empty':
            loc['stack'].append(It(W, reverse))
        W.todo += loc['stack'][::-1]

    def inv(loc):
        W.clean()
        return [("what is left is what the iterators yield", same(W.todo, [loc['gen']] + loc['stack'][::-1])),
                ("every iterator in the right direction", all(not isinstance(t, It) or t.reverse == reverse for t in W.todo))]

    def fresh_outer(name, v):
        return It(W, reverse) if name == 'gen' else Havoc(name, v)

    def keep(name, v):
        return v if name == 'gen' else Havoc(name, v)

    def inv_inner(loc, entry):
        return inv(loc) + [("iterates the current iterator", loc['gen'] is entry[0]), ("no work is added", W.measure() <= entry[1])]
    E.loop(LoopSpec("walk", lambda site, loc: 'descendants' in site, inv, fresh=fresh_outer, on_havoc=havoc_outer, while_only=True,
                    variant=lambda loc: W.measure()))
    E.loop(LoopSpec("children", lambda site, loc: 'descendants' in site, inv_inner, fresh=keep, for_only=True, entry=lambda loc: (loc['gen'], W.measure()),
                    variant=lambda loc: W.measure(),
                    on_havoc=lambda loc: setattr(loc['gen'], 'size', W.nat('size'))))
    E.cover("precondition")
    W.drive(N.Node.descendants(root, reverse))


def step_unit(name, reverse):
    @unit('C10', name, functions=['node.Node.' + name], random_runs=0)
    def u(E):
        if not E.symbolic:
            return
        N = E.mod('quickly.node')
        W = Walk(E, reverse)
        kind = E.choice('upto', ['none', 'self', 'other'])

        def place():
            k = E.choice('place%d' % W.n, ['root', 'child', 'upto'])
            if k == 'upto' and W.upto is not None:
                n = W.upto
            else:
                n = W.node()
            n.parent = None if k == 'root' else W.node()
            return n
        start = place()
        W.upto = None if kind == 'none' else start if kind == 'self' else W.node()
        W.todo = [('up', start)]

        def up(loc):
            # the ancestor reached is arbitrary
            loc['node'] = n = place()
            W.todo = [('up', n)]

        def inv_up(loc):
            W.clean()
            return [("what is left follows the ancestor reached", W.todo == [('up', loc['node'])])]

        def inv_sib(loc, entry):
            W.clean()
            return [("what is left: the other siblings, then what follows the parent",
                     len(W.todo) == 2 and isinstance(W.todo[0], It) and W.todo[1] == ('up', entry[0].parent) and entry[1] is loc['node'])]
        E.loop(LoopSpec("up", lambda site, loc: name in site, inv_up, on_havoc=up, while_only=True))
        E.loop(LoopSpec("siblings", lambda site, loc: name in site, inv_sib, entry=lambda loc: (loc['node'], loc['node']), for_only=True,
                        variant=lambda loc: W.measure(), fresh=lambda n, v: v if n == 'node' else Havoc(n, v),
                        on_havoc=lambda loc: setattr(W.todo[0], 'size', W.nat('size'))))
        E.cover("precondition")
        if W.upto is None:
            W.drive(getattr(N.Node, name)(start) if E.choice('arg', [0, 1]) else getattr(N.Node, name)(start, None))
        else:
            W.drive(getattr(N.Node, name)(start, W.upto))
    return u


step_unit('forward', False)
step_unit('backward', True)


# ------------------------------------------------------------------ siblings

class Elem:
    """Ghost: the child at some index of some parent."""
    def __init__(self, P, i):
        self.P, self.i = P, i

    def __pv_is__(self, o):
        if isinstance(o, Elem) and o.P is self.P:
            return self.P.E.eq(self.i, o.i)
        return False

    @property
    def parent(self):
        return self.P


class Part:
    """Ghost: a run of children [lo, hi), possibly in reverse."""
    def __init__(self, P, lo, hi, reverse=False):
        self.P, self.lo, self.hi, self.reverse = P, lo, hi, reverse

    def __iter__(self):
        yield self

    def __pv_reversed__(self):
        return Part(self.P, self.lo, self.hi, not self.reverse)


class P:
    """Ghost: a parent with n children."""
    def __init__(self, E):
        self.E = E
        self.n = E.int('n', 1)

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n

    def index(self, node):
        self.E.prove("looks for one of the children", isinstance(node, Elem) and node.P is self)
        return node.i

    def norm(self, i):
        E = self.E
        E.prove("index in range", E.And(i >= -self.n, i < self.n))
        return i + self.n if i < 0 else i

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__pv_getslice__(i)
        return Elem(self, self.norm(i))

    __pv_getitem__ = __getitem__

    def __pv_getslice__(self, s):
        assert s.step in (None, 1)
        def clamp(x, default):
            if x is None:
                return default
            if x < 0:
                x = x + self.n
                return 0 if x < 0 else x
            return self.n if x > self.n else x
        return Part(self, clamp(s.start, 0), clamp(s.stop, self.n))


@unit('C10', 'siblings', functions=['node.Node.' + n for n in ('right_siblings', 'left_siblings', 'right_sibling', 'left_sibling', 'is_first', 'is_last')], random_runs=0)
def u_siblings(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node').Node
    p = P(E)
    k = E.int('k', 0)
    E.assume(k < p.n)
    me = Elem(p, k)
    E.cover("precondition")

    def parts(it):
        out = []
        for x in it:
            E.prove("children are yielded", isinstance(x, Part))
            out.append(x)
        return out
    r = parts(N.right_siblings(me))
    E.prove("the following siblings in order", len(r) == 1 and not r[0].reverse and E.And(E.eq(r[0].lo, k + 1), E.eq(r[0].hi, p.n)))
    l = parts(N.left_siblings(me))
    E.prove("the preceding siblings backwards", len(l) == 1 and l[0].reverse and E.And(E.eq(l[0].lo, 0), E.eq(l[0].hi, k)))
    s = N.right_sibling(me)
    E.prove("the next sibling, or none for the last", E.eq(k, p.n - 1) if s is None else E.eq(s.i, k + 1))
    s = N.left_sibling(me)
    E.prove("the previous sibling, or none for the first", E.eq(k, 0) if s is None else E.eq(s.i, k - 1))
    E.prove("is_first", E.Iff(N.is_first(me), E.eq(k, 0)))
    E.prove("is_last", E.Iff(N.is_last(me), E.eq(k, p.n - 1)))


class Root:
    parent = None


@unit('C10', 'siblings of a root', functions=['node.Node.right_siblings', 'node.Node.left_siblings', 'node.Node.is_root'], random_runs=1)
def u_no_siblings(E):
    N = E.mod('quickly.node').Node
    n = N()
    E.cover("precondition")
    E.prove("none", list(n.right_siblings()) == [] and list(n.left_siblings()) == [] and n.right_sibling() is None and n.left_sibling() is None)
    E.prove("is_root", n.is_root())
    E.prove("no ancestors", list(n.ancestors()) == [] and n.depth() == 0 and n.trail() == [] and n.root() is n)


# ------------------------------------------------------------------ ancestors

class C:
    """Ghost: a node with any number of ancestors."""
    def __init__(self, E, n):
        self.E, self.n = E, n
        self.known = False

    def __bool__(self):
        return True

    @property
    def parent(self):
        if not self.known:
            self.known = True
            self._p = C(self.E, self.n + 1) if self.E.choice('more%d' % self.n, [True, False]) else None
        return self._p

    def index(self, node):
        self.E.prove("index of the node in its parent", isinstance(node, C) and node.parent is self)
        return ('index', node)

    def ancestors(self):
        """Contract of Node.ancestors."""
        return Up(self)


class Up:
    def __init__(self, node):
        self.node = node

    def __pv_iter__(self):
        return self

    __iter__ = __pv_iter__

    def __next__(self):
        p = self.node.parent
        if p is None:
            raise StopIteration
        self.node = p
        return p


@unit('C10', 'ancestors', functions=['node.Node.ancestors'], random_runs=0)
def u_ancestors(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node').Node
    start = C(E, 0)
    st = dict(last=start)

    def havoc(loc):
        st['last'] = C(E, 100)
        loc['n'] = st['last'].parent
    E.loop(LoopSpec("up", lambda site, loc: 'ancestors' in site, lambda loc: [("the next is the parent of the last", loc['n'] is st['last'].parent)],
                    on_havoc=havoc, while_only=True))
    E.cover("precondition")
    for n in N.ancestors(start):
        E.prove("yields the parent of the last yielded node", n is st['last'].parent)
        st['last'] = n
    E.prove("ends at the root", st['last'].parent is None)


@unit('C10', 'ancestors with index, root', functions=['node.Node.ancestors_with_index', 'node.Node.root'], random_runs=0)
def u_ancestors_index(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node').Node
    start = C(E, 0)
    st = dict(last=start)
    its = []

    up = start.ancestors()
    start.ancestors = lambda: up
    def havoc_i(loc):
        st['last'] = loc['n'] = up.node = C(E, 100)
    E.loop(LoopSpec("up", lambda site, loc: 'ancestors_with_index' in site,
                    lambda loc: [("child and position", loc['n'] is st['last'] and up.node is st['last'])],
                    on_havoc=havoc_i, for_only=True))
    def havoc_r(loc):
        loc['root'] = up.node = C(E, 200)
    E.loop(LoopSpec("root", lambda site, loc: site.split(':')[-1].startswith('Node.root'),
                    lambda loc: [("the last one seen", loc['root'] is up.node)],
                    on_havoc=havoc_r, for_only=True))
    E.cover("precondition")
    if E.choice('which', [True, False]):
        for p, i in N.ancestors_with_index(start):
            E.prove("yields the parent of the last yielded node with the index of that node in it", p is st['last'].parent and i == ('index', st['last']))
            st['last'] = p
        E.prove("ends at the root", st['last'].parent is None)
    else:
        r = N.root(start)
        E.prove("the root has no parent, is the last of the ancestors", r is up.node and r.parent is None)


# ------------------------------------------------------------------ filtering

class Seq:
    """Ghost: a walk over any number of nodes (contract of descendants, forward, backward)."""
    def __init__(self, E):
        self.E = E
        self.n = 0
        self.last = None        # the last node, with the answer of the predicate and what happened to it
        self.tested = self.passed = False

    def __pv_iter__(self):
        return self

    __iter__ = __pv_iter__

    def step(self, sent):
        E = self.E
        if self.last is not None:
            E.prove("every node is tested", self.tested is not False)
            E.prove("a node is yielded exactly if the predicate holds", self.passed == (self.tested == 'yes'))
            E.prove("descendants of a node are skipped exactly if it was yielded", (sent is False) == (self.tested == 'yes'))
        self.n += 1
        self.tested = self.passed = False
        if E.choice('end%d' % self.n, [False, True]):
            self.last = None
            raise StopIteration
        self.last = object()
        return self.last

    def __next__(self):
        return self.step(None)

    def send(self, x):
        return self.step(x)

    def test(self, node):
        self.E.prove("tests the node just visited, once", node is self.last and self.tested is False)
        self.tested = self.E.choice('holds%d' % self.n, ['yes', 'no'])
        return self.tested == 'yes'


@unit('C10', 'filtering', functions=['node.Common.filter_descendants', 'node.Common.filter'], random_runs=0)
def u_filter(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    s = Seq(E)

    def again(loc):
        if E.choice('started', [False, True]):
            s.last, s.tested, s.passed = object(), 'no', False
        else:
            s.last, s.tested, s.passed = None, False, False

    def again_inner(loc):
        s.last, s.tested, s.passed = object(), False, False
        loc['node'] = s.last
    E.loop(LoopSpec("walk", lambda site, loc: 'filter_descendants' in site and ('node' not in loc or s.tested == 'no' or s.last is None),
                    lambda loc: [("the last node was rejected", s.last is None or s.tested == 'no')], on_havoc=again, while_only=True))
    E.loop(LoopSpec("accepted", lambda site, loc: 'filter_descendants' in site and s.tested is False,
                    lambda loc: [("the node at hand was not yet tested", loc['node'] is s.last and s.tested is False and s.passed is False)],
                    on_havoc=again_inner, while_only=True))
    E.cover("precondition")
    for node in N.Common.filter_descendants(s.test, s):
        E.prove("yields the node just accepted", node is s.last and s.tested == 'yes' and s.passed is False)
        s.passed = True
    E.prove("ends with the walk", s.last is None)


# ------------------------------------------------------------------ all small trees

def enum(tier):
    for n in range(1, 7 if tier == 'quick' else 8):
        for s in trees(n):
            yield dict(shape=s)


def gen(rng):
    return dict(shape=random_shape(rng, rng.randint(7, 25)), seed=rng.randint(0, 10**6))


def nodeclasses(N):
    class A(N.Node):
        pass

    class B(N.Node):
        def __init__(self, *c):
            super().__init__(*c)
            self.v = 0

        def body_equals(self, other):
            return self.v == other.v

    class A2(A):
        pass
    return A, B, A2


def collect(gen, skip=(), of=None):
    """The nodes yielded, sending False after the nodes in skip."""
    out = []
    try:
        n = next(gen)
        while True:
            out.append(n)
            n = gen.send(False if of[id(n)] in skip else [None, True][len(out) % 2])
    except StopIteration:
        return [of.get(id(n), n) for n in out]


@bounded('C10', 'small trees', enum=enum, gen=gen, quick=500, thorough=4000, seconds=60,
         rule='every tree up to 6 nodes (7 thorough), random trees up to 25 nodes; every node and pair of nodes; sets of skipped nodes; against paths in a nested list',
         functions=['node.Node.' + n for n in ('descendants', 'forward', 'backward', 'trail', 'common_ancestor', 'common_ancestor_with_trail', 'height', 'depth',
                    'root', 'ancestors', 'right_siblings', 'left_siblings', 'right_sibling', 'left_sibling', 'is_first', 'is_last', 'is_root')] +
                   ['node.Common.' + n for n in ('filter', 'filter_descendants', 'instances_of', '_get_predicate_iterator')])
def b_trees(M, c):
    import random
    N = M.get('quickly.node')
    A, B, A2 = nodeclasses(N)
    rng = random.Random(c.get('seed', 1))
    shape = c['shape']
    ps = list(paths(shape))
    kinds = [A, B, A2]
    def make(p, children):
        n = kinds[(len(p) + sum(p) * 2 + len(children)) % 3](*children)
        if type(n) is B:
            n.v = len(children) % 2
        return n
    root, m = build(shape, make)
    of = {id(n): p for p, n in m.items()}
    other = A(A(), B())
    P = lambda ns: [of.get(id(n), n) for n in ns]
    n_all = len(ps)
    skips = [()]
    if n_all <= 5:
        skips = [tuple(p for i, p in enumerate(ps) if k >> i & 1) for k in range(2 ** n_all)]
    else:
        skips += [tuple(rng.sample(ps, rng.randint(1, min(6, n_all)))) for _ in range(4)]
    pairs_max = 14
    some = ps if n_all <= pairs_max else rng.sample(ps, pairs_max)

    def minus(walk, skip):
        return [p for p in walk if not any(below(q, p) for q in skip)]

    for p in some:
        n = m[p]
        what = "%r in %r: " % (p, shape)
        desc = [q for q in ps if below(p, q)]
        rdesc = sorted(desc, key=lambda q: tuple(-i for i in q))
        following = [q for q in ps if q > p and not below(p, q)]
        preceding = sorted((q for q in ps if q < p and not below(q, p)), key=backward_key)
        anc = [p[:i] for i in range(len(p) - 1, -1, -1)]
        for skip in skips:
            check(collect(n.descendants(), skip, of) == minus(desc, [q for q in skip if below(p, q)]), what + "descendants, skipping %r", skip)
            check(collect(n.descendants(True), skip, of) == minus(rdesc, [q for q in skip if below(p, q)]), what + "descendants backwards, skipping %r", skip)
            check(collect(n.forward(), skip, of) == minus(following, [q for q in skip if q in following]), what + "forward, skipping %r", skip)
            check(collect(n.backward(), skip, of) == minus(preceding, [q for q in skip if q in preceding]), what + "backward, skipping %r", skip)
            pred = lambda k: of[id(k)] in skip
            chosen = lambda walk: [q for q in minus(walk, [s for s in skip if s in walk]) if q in skip]
            check(P(n.filter(pred)) == chosen(desc), what + "filter on %r", skip)
            check(P(n.filter_descendants(pred, n.forward())) == chosen(following), what + "filter forward on %r", skip)
            check(P(n.filter_descendants(pred, n.backward())) == chosen(preceding), what + "filter backward on %r", skip)
        for a in anc + [p]:
            inside = [q for q in following if below(a, q)] if a != p else []
            check(P(n.forward(m[a])) == inside, what + "forward up to %r", a)
            inside = [q for q in preceding if below(a, q)] if a != p else []
            check(P(n.backward(m[a])) == inside, what + "backward up to %r", a)
        check(P(n) == [p + (i,) for i in range(len(get(shape, p)))], what + "children")
        check(P(n.ancestors()) == anc, what + "ancestors")
        check([(of[id(a)], i) for a, i in n.ancestors_with_index()] == [(p[:k], p[k]) for k in range(len(p) - 1, -1, -1)], what + "ancestors with index")
        check(n.root() is root, what + "root")
        check(n.trail() == list(p), what + "trail")
        check(n.depth() == len(p), what + "depth")
        check(n.height() == max([len(q) - len(p) for q in desc], default=0), what + "height %d", n.height())
        sib = [p[:-1] + (i,) for i in range(len(get(shape, p[:-1])))] if p else []
        right = [q for q in sib if q > p]
        left = [q for q in sib if q < p][::-1]
        check(P(n.right_siblings()) == right and P(n.left_siblings()) == left, what + "siblings")
        check(P([n.right_sibling()]) == (right[:1] or [None]) and P([n.left_sibling()]) == (left[:1] or [None]), what + "sibling")
        check(n.is_root() == (not p), what + "is_root")
        if p:
            check(n.is_first() == (p[-1] == 0) and n.is_last() == (not right), what + "is_first, is_last")
        # queries
        for cls in (A, B, A2, (A2, B), (), object):
            sel = lambda walk: [q for q in walk if isinstance(m[q], cls)]
            check(P(n / cls) == sel([p + (i,) for i in range(len(n))]), what + "/ %r", cls)
            check(P(n // cls) == sel(desc), what + "// %r", cls)
            check(P(n << cls) == sel(anc), what + "<< %r", cls)
            check(P(n > cls) == sel(following), what + "> %r", cls)
            check(P(n < cls) == sel(preceding), what + "< %r", cls)
            check(P(n ^ cls) == [q for q in [p + (i,) for i in range(len(n))] if not isinstance(m[q], cls)], what + "^ %r", cls)
            tops = [q for q in sel(desc) if not any(below(r, q) for r in sel(desc))]
            check(P(n.instances_of(cls)) == tops, what + "instances_of %r", cls)
        for q in some:
            k = m[q]
            i = 0
            while i < min(len(p), len(q)) and p[i] == q[i]:
                i += 1
            check(n.common_ancestor(k) is m[p[:i]], what + "common ancestor with %r", q)
            check(n.common_ancestor_with_trail(k) == (m[p[:i]], list(p[i:]), list(q[i:])), what + "common ancestor with trails with %r: %r", q, n.common_ancestor_with_trail(k))
            check((n.trail() < k.trail()) == (ps.index(p) < ps.index(q)), what + "trail order with %r", q)
            same = lambda r: type(m[r]) is type(k) and (type(k) is not B or m[r].v == k.v)
            check(P(n // k) == [r for r in desc if same(r)], what + "// instance %r", q)
            if not (type(k) is not type(n) and isinstance(k, type(n))):     # the known finding, see PROBE
                check(P(n > k) == [r for r in following if same(r)], what + "> instance %r", q)
                check(P(n < k) == [r for r in preceding if same(r)], what + "< instance %r", q)
            check(P(n << k) == [r for r in anc if same(r)], what + "<< instance %r", q)
            check(P(n ^ k) == [r for r in P(n) if not same(r)], what + "^ instance %r", q)
        check(n.common_ancestor(other[0]) is None and n.common_ancestor_with_trail(other[0]) == (None, None, None), what + "unrelated node")
    for p, n in m.items():
        check(P(n) == [p + (i,) for i in range(len(get(shape, p)))], "walking changed the tree")
    return n_all > 2

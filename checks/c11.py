"""C11: node ranges."""
import itertools
from pyvc.engine import unit
from pyvc.bounded import bounded, check, Fail
from pyvc.instr import LoopSpec, Havoc
from pyvc import core
from checks.trees import trees, paths, random_shape, get, build, below, backward_key

LEVEL = 'proof'
NOTE = ('Proved for all positions and sizes: one iteration level (forward, backward, entering), membership against the trails (trails up to three levels), how setting or deleting a slice moves '
        'the boundaries and the position, enter and leave at any depth, making ranges (from nodes, from the current node), the trail to a node and going there, and the walks (forward, backward, descendants, nodes, children, ancestors) over levels with any number of '
        'children at any depth: what an iteration gives is yielded at once, a node whose children are wanted is entered, a finished level is left (loop contracts; finiteness of the tree assumed). '
        'Extraction and going on after an edit: bounded, every tree up to 5 nodes with every start and end, random trees and edits.')
ASSUMPTIONS = ['a tree is finite', 'the contracts of Node.trail, root, ancestors_with_index and common_ancestor_with_trail (C10) where ranges are made', 'contract of slice.indices (step 1): 0 <= start, stop <= length', 'list slice assignment replaces exactly the slice']


def start_gone(M):
    """True if the start boundary is still lost when everything from it to the end of its parent is deleted."""
    N = M.get('quickly.node')
    class A(N.Node): pass
    root = A(A(), A(), A())
    r = N.Range(root, [1], None)
    r.goto(root[1])
    del r[1:3]
    return list(r.copy().nodes()) != []


PROBE = {'start-removed': start_gone}


def starts(path, prefix):
    return path[:len(prefix)] == prefix


class Model:
    """A range as a set of paths; start/end are paths below the ancestor or None."""
    def __init__(self, shape, start, end):
        self.ps = [p for p in paths(shape) if p]
        self.start, self.end = start, end
        self.S = [q for q in self.ps if (start is None or q >= start) and (end is None or q <= end)]
        inS = set(self.S)
        self.V = {p[:i] for p in self.S for i in range(1, len(p) + 1)}
        self.visible = [p for p in self.ps if p in self.V]
        self.leaves = [p for p in self.ps if not get(shape, p)]
        self.inS = inS

    def complete(self, q):
        return all(p in self.inS for p in self.leaves if starts(p, q))


def collect(gen, skip, of):
    out = []
    try:
        n = next(gen)
        while True:
            out.append(n)
            n = gen.send(False if of.get(id(n)) in skip else [None, True][len(out) % 2])
    except StopIteration:
        return [of.get(id(n), n) for n in out]


def minus(walk, skip):
    skip = [q for q in skip if q in walk]
    return [p for p in walk if not any(below(q, p) for q in skip)]


def enum(tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        for s in trees(n):
            ps = list(paths(s))
            for start in [None] + ps:
                for end in [None] + ps:
                    yield dict(shape=s, start=start, end=end)


def gen(rng):
    s = random_shape(rng, rng.randint(6, 14))
    ps = list(paths(s))
    a, b = rng.choice([None] + ps), rng.choice([None] + ps)
    if a and b and a > b and rng.random() < .8:
        a, b = b, a
    return dict(shape=s, start=a, end=b)


def norm(c):
    return c['shape'], None if c['start'] is None else tuple(c['start']), None if c['end'] is None else tuple(c['end'])


FN = ['node.Range.' + n for n in (
    '__init__', 'from_nodes', 'start_node', 'end_node', 'copy', 'from_here', '__bool__', '__contains__', '_get_trail', '_trail_in_range', '_trail_intersects',
    'intersects', 'is_full', '__iter__', '__next__', 'reversed', 'trail', 'depth', 'in_range', '_goto_trail', 'goto', 'reset', 'enter', 'leave', 'extract_tree',
    'nodes', 'forward', 'backward', 'ancestors', 'children', 'descendants', '_Level.__next__', '_Level.reversed', '_Level.child', '_Level.start_in_range', '_Level.end_in_range')]


@bounded('C11', 'ranges', enum=enum, gen=gen, quick=1500, thorough=30000, seconds=60, functions=FN,
         rule='every tree up to 5 nodes (6 thorough) with every start and end, random trees up to 14 nodes; every node as position; against a set of paths')
def b_ranges(M, c):
    N = M.get('quickly.node')
    shape, start, end = norm(c)
    class A(N.Node): pass
    class B(N.Node): pass
    root, m = build(shape, lambda p, k: [A, B][(len(p) + sum(p)) % 2](*k))
    of = {id(n): p for p, n in m.items()}
    P = lambda ns: [of.get(id(n), n) for n in ns]
    L = lambda p: None if p is None else list(p)
    mod = Model(shape, start, end)
    R = lambda: N.Range(root, L(start), L(end))

    r = R()
    check(bool(r) == bool(mod.S), "truth %r with nodes %r", bool(r), mod.S)
    check(P(r.nodes()) == mod.S, "nodes %r, expected %r", P(R().nodes()), mod.S)
    if not mod.S:
        # only common ancestors of both boundaries may be passed
        for q in P(R().descendants()) + P(R().descendants(True)) + P(R().forward()):
            check(start and end and q in mod.ps and starts(start, q) and starts(end, q), "%r visited in an empty range", q)
        for q in mod.ps:
            check(m[q] not in R(), "%r in an empty range", q)
            if not (start and end and starts(start, q) and starts(end, q)):
                check(not R() & m[q] and not R().goto(m[q]), "%r intersects with an empty range", q)
        return False
    check(P(R().descendants()) == mod.visible, "descendants %r", P(R().descendants()))
    back = sorted(mod.visible, key=backward_key)
    check(P(R().descendants(True)) == back, "descendants backwards")
    check(P(R().forward()) == mod.visible, "forward")
    check(P(R().backward()) == back, "backward")
    top = [p for p in mod.visible if len(p) == 1]
    check(P(R()) == top and P(R().children()) == top, "iteration")
    check(P(R().reversed()) == top[::-1] and P(R().children(True)) == top[::-1], "reversed iteration")
    r = R()
    if start is not None:
        check(r.start_node() is m[start], "start node")
    else:
        check(r.start_node() is None, "start node")
    check(r.end_node() is (None if end is None else m[end]), "end node")
    check(r.ancestor() is root and r.node is root and r.trail() == [] and r.depth() == 0 and r.index == -1, "fresh range")
    check(r.is_full() == mod.complete(()) or not mod.ps, "is_full")
    for q in mod.ps:
        check((m[q] in r) == (q in mod.inS), "%r in range: %r", q, m[q] in r)
        check(r.intersects(m[q]) == (q in mod.V) == (r & m[q]), "%r intersects: %r", q, r & m[q])
    if mod.ps:
        check((root in r) == mod.complete(()), "ancestor in range: %r", root in r)
    stranger = A(A(), B())
    check(stranger not in r and stranger[0] not in r and not r & stranger[1] and not r.goto(stranger[0]), "unrelated node")
    r2 = R()
    for i, skip in enumerate([mod.S[::2], mod.S[1::3], mod.visible[1:2]]):
        check(collect(R().nodes(), skip, of) == minus(mod.S, skip), "nodes skipping %r", skip)
        check(collect(R().descendants(), skip, of) == minus(mod.visible, skip), "descendants skipping %r", skip)
        check(collect(R().descendants(True), skip, of) == minus(back, skip), "descendants backwards skipping %r", skip)
    for cls in (A, B, (A, B)):
        sel = lambda w: [q for q in w if isinstance(m[q], cls)]
        check(P(R() / cls) == sel(top) and P(R() // cls) == sel(mod.visible) and P(R() > cls) == sel(mod.visible) and P(R() < cls) == sel(back), "queries")
        check(P(R() ^ cls) == [q for q in top if not isinstance(m[q], cls)], "query ^")
        tops = [q for q in sel(mod.visible) if not any(below(x, q) for x in sel(mod.visible))]
        check(P(R().instances_of(cls)) == tops, "instances_of")
    for q in mod.ps:
        r = r2      # reused
        ok = r.goto(m[q])
        check(ok == (q in mod.V), "goto %r", q)
        if not ok:
            continue
        what = "at %r: " % (q,)
        n = m[q]
        check(r.node is n and r.trail() == list(q) and r.depth() == len(q) - 1 and r.index == q[-1], what + "position")
        check(r.in_range() == mod.complete(q), what + "in_range %r", r.in_range())
        sib = [p for p in mod.visible if p[:-1] == q[:-1]]
        check(r.start() == sib[0][-1] and r.end() == sib[-1][-1], what + "start, end")
        lo, hi = r.start(), r.end()
        for i in range(len(get(shape, q[:-1])) + 1):
            try:
                r.index = i
                check(lo <= i <= hi and r.node is m[q[:-1] + (i,)], what + "selecting %d", i)
            except ValueError:
                check(not lo <= i <= hi, what + "selecting %d refused", i)
        follow = [p for p in mod.visible if p > q and not below(q, p)]
        precede = sorted((p for p in mod.visible if p < q and not below(p, q)), key=backward_key)
        desc = [p for p in mod.visible if below(q, p)]
        anc = [q[:i] for i in range(len(q) - 1, -1, -1)]
        r.goto(n)
        check(P(r.forward()) == follow, what + "forward")
        r.goto(n)
        check(P(r.backward()) == precede, what + "backward")
        for a in anc:
            r.goto(n)
            check(P(r.forward(m[a])) == [p for p in follow if below(a, p)], what + "forward up to %r", a)
            check(r.node is m[a], what + "position after forward up to")
            r.goto(n)
            check(P(r.backward(m[a])) == [p for p in precede if below(a, p)], what + "backward up to %r", a)
        r.goto(n)
        check(P(r.descendants()) == desc and r.node is n, what + "descendants")
        check(P(r.descendants(True)) == sorted(desc, key=backward_key) and r.node is n, what + "descendants backwards")
        kids = [p for p in desc if len(p) == len(q) + 1]
        check(P(r.children()) == kids and r.node is n, what + "children")
        check(P(r.children(True)) == kids[::-1] and r.node is n, what + "children backwards")
        check(P(r / A) == [p for p in kids if isinstance(m[p], A)], what + "/")
        d = r.enter()
        check(r.node is n and r.index == q[-1], what + "position after entering")
        check(d == len(q) and P(r) == kids and r.leave() == d and r.node is n, what + "enter and leave")
        h = r.from_here()
        check(r.node is n, what + "from_here moves")
        check(h.ancestor() is n and P(h.descendants()) == desc and bool(h) == bool(desc), what + "from_here: %r", P(r.from_here().descendants()))
        h = r.from_here()
        check(all((m[p] in h) == (p in mod.inS) for p in desc), what + "membership from_here")
        check(P(h.nodes()) == [p for p in desc if p in mod.inS], what + "nodes from_here: %r, expected %r", P(r.from_here().nodes()), [p for p in desc if p in mod.inS])
        t = r.extract_tree()
        check(r.node is n, what + "extract_tree moves")
        check(iso(t) == restrict(shape, q, mod.V, m), what + "extracted tree %r", iso(t))
        check(not any(id(k) in of for k in [t] + list(t.descendants())), what + "the extracted tree shares nodes")
        check(all(k.parent is t2 for t2 in [t] + list(t.descendants()) for k in t2), what + "parents in the extracted tree")
        check(P(r.ancestors()) == anc, what + "ancestors")
        check(r.node is root, what + "position after ancestors")
        check(P(k for k in r2.copy().nodes()) == mod.S, "copy")
    for a in mod.ps:
        for b in mod.ps if len(mod.ps) < 8 else []:
            for fr in (False, True):
                x = m[a].range(m[b], fr)
                i = 0
                while not fr and i < min(len(a), len(b)) and a[i] == b[i]:
                    i += 1
                check(x.ancestor() is m[a[:i]] and x.start_trail == list(a[i:]) and x.end_trail == list(b[i:]), "range from nodes")
    for p in mod.ps[:2]:
        for other in (stranger, stranger[0]):
            for fr in (False, True):
                for x, y in ((m[p], other), (other, m[p])):
                    try:
                        x.range(y, fr)
                    except ValueError:
                        continue
                    check(False, "a range between two trees")
    check(P(root.descendants()) == mod.ps, "walking changed the tree")
    return len(mod.S) > 1


def iso(n):
    return (type(n).__name__, [iso(k) for k in n])


def restrict(shape, q, V, m):
    return (type(m[q]).__name__, [restrict(shape, q + (i,), V, m) for i in range(len(get(shape, q))) if q + (i,) in V])


# ------------------------------------------------------------------ edits through a range

def gen_edit(rng):
    s = random_shape(rng, rng.randint(2, 11))
    ps = list(paths(s))
    while True:
        a, b = (rng.choice([None] + ps) for i in '12')
        if a and b and a > b:
            a, b = b, a
        mod = Model(s, a, b)
        if mod.visible:
            break
    q = rng.choice(mod.visible)
    n = len(get(s, q[:-1]))
    op = rng.choice(['slice', 'slice', 'slice', 'del', 'delslice', 'set', 'node', 'insert'])
    c = dict(shape=s, start=a, end=b, at=q, op=op, entered=op not in ('set', 'node') and rng.random() < .15)
    if c['entered']:
        n = len(get(s, q))
    i = rng.randint(0, n)
    if op in ('slice', 'delslice'):
        c['i'], c['j'] = i, rng.randint(i, n) if rng.random() < .9 else rng.randint(0, n)
        if rng.random() < .15:
            c['i'] = None
        if rng.random() < .15:
            c['j'] = None
        elif rng.random() < .1:
            c['j'] -= n
    elif op == 'insert':
        c['i'] = c['j'] = i
    elif op in ('del', 'set'):
        if n == 0:
            return gen_edit(rng)
        c['i'] = rng.randrange(-n, n) if rng.random() < .3 else rng.randrange(n)
    if op in ('del', 'delslice') and rng.random() < .5 and not c['entered']:
        c['i'] = q[-1]          # the current node
        c['j'] = q[-1] + 1
    c['new'] = [random_shape(rng, rng.randint(1, 3)) for _ in range(rng.randint(0, 3) if op == 'slice' else 0 if op in ('del', 'delslice') else 1)]
    return c


def start_lost(c):
    """The known finding: the start node is removed together with everything after it in its parent."""
    shape, start, end = norm(c)
    at = tuple(c['at'])
    level = at if c['entered'] else at[:-1]
    if c['op'] in ('set', 'node', 'insert') or not start or len(start) <= len(level) or not starts(start, level):
        return False
    n = len(get(shape, level))
    if c['op'] == 'del':
        lo, hi, _ = slice(c['i'], c['i'] + 1 or None).indices(n)
    else:
        lo, hi, _ = slice(c['i'], c['j']).indices(n)
    return lo <= start[len(level)] and hi == n and lo > 0 and not (lo == 0)


@bounded('C11', 'edits', gen=gen_edit, quick=8000, thorough=200000, seconds=60,
         functions=['node.Range.__setitem__', 'node.Range.__delitem__', 'node.Range.__getitem__', 'node.Range.node', 'node.Range.copy'],
         rule='random trees up to 11 nodes, random non-empty ranges, one edit at a random position, then the walk goes on')
def b_edits(M, c):
    N = M.get('quickly.node')
    shape, start, end = norm(c)
    if start_lost(c):
        return False
    class A(N.Node): pass
    root, m = build(shape, lambda p, k: A(*k))
    of = {id(n): p for p, n in m.items()}
    L = lambda p: None if p is None else list(p)
    mod = Model(shape, start, end)
    r = N.Range(root, L(start), L(end))
    other = r.copy()
    at = tuple(c['at'])
    r.goto(m[at])
    level = m[at[:-1]]
    if c['entered']:
        r.enter()
        level = m[at]
    old = list(level)
    cur = m[at]
    new = [build(s, lambda p, k: A(*k))[0] for s in c['new']]
    keep = list(new)
    op = c['op']
    want = list(old)
    if op in ('slice', 'insert'):
        r[c['i']:c['j']] = iter(new)
        want[c['i']:c['j']] = new
    elif op == 'delslice':
        del r[c['i']:c['j']]
        del want[c['i']:c['j']]
    elif op == 'del':
        del r[c['i']]
        del want[c['i']]
    elif op == 'set':
        r[c['i']] = new[0]
        want[c['i']] = new[0]
    else:
        r.node = new[0]
        want[at[-1]] = new[0]
        check(r.node is new[0], "the new node is the current node")
    check(len(level) == len(want) and all(x is y for x, y in zip(level, want)), "children %r, expected %r", list(level), want)
    check(all(k.parent is level for k in level), "parents")
    check(all(r[i] is k and r[i - len(want)] is k for i, k in enumerate(want)) and [id(k) for k in r[:]] == [id(k) for k in want], "the nodes got by their index")
    alive = {id(n) for n in [root] + list(root.descendants())}
    inserted = {id(n) for k in new for n in [k] + list(k.descendants())}
    chain = {id(level)} | {id(n) for n in level.ancestors()}
    survivors = lambda walk: [of[id(n)] for n in walk if id(n) not in inserted and id(n) not in chain]
    still = [q for q in mod.S if id(m[q]) in alive and id(m[q]) not in chain]
    got = survivors(r.copy().nodes())
    check(got == still, "old nodes in the range %r, expected %r; trails %r %r", got, still, r.start_trail, r.end_trail)
    for q in mod.ps:
        if id(m[q]) in alive and id(m[q]) not in chain:
            check((m[q] in r) == (q in mod.inS), "membership of %r", q)
            check((r & m[q]) or q not in mod.V, "intersection with %r", q)
    if op in ('set', 'node'):
        # documented: all descendants are inside on the start boundary, outside on the end boundary
        i = c['i'] % len(old) if op == 'set' else at[-1]
        p = at[:-1] + (i,)
        if p in mod.V:
            check(new[0] in r, "the replacing node is in the range")
            outside = end is not None and starts(end, p)
            check(all((k in r) != outside for k in new[0].descendants()), "descendants of the replacing node")
    check(other.start_trail == L(start) and other.end_trail == L(end), "a copy changed")
    # the walk goes on
    gone = id(cur) not in alive
    if not gone and not c['entered']:
        check(r.node is cur, "the current node is still current")
    todo = [q for q in mod.visible if q > at and (c['entered'] or not below(at, q)) and id(m[q]) in alive and id(m[q]) not in chain]
    # partial nodes stay visible only for what is left in them: survivors on the walk
    got = survivors(r.forward())
    check(got == todo, "going on visits %r, expected %r", got, todo)
    return bool(still) and old != want


# ------------------------------------------------------------------ proofs

class Kids:
    """Ghost: a node with any number of children."""
    def __init__(self, E, n, what='node'):
        self.E, self.n, self.what = E, n, what
        self.set = None
        self.child = {}

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n

    def __pv_getitem__(self, i):
        self.E.prove("index inside the node", self.E.And(i >= -self.n, i < self.n))
        return ('child', i)

    __getitem__ = __pv_getitem__

    def __pv_setitem__(self, i, v):
        self.set = (i, v)

    __setitem__ = __pv_setitem__


def level(E, N, node, start, end, index, start_trail=None, end_trail=None, depth=0):
    l = object.__new__(N.Range._Level)
    for k, v in dict(node=node, start=start, end=end, index=index, start_trail=start_trail, end_trail=end_trail, depth=depth).items():
        object.__setattr__(l, k, v)
    return l


def bounds(E):
    n = E.int('n', 0)
    start, end, index = E.int('start', 0), E.int('end', -1), E.int('index', -1)
    E.assume(E.And(start <= n, end < n))
    E.assume(E.Or(index == -1, E.And(index >= start, index <= end)))
    return n, start, end, index


@unit('C11', 'one level', functions=['node.Range._Level.__next__', 'node.Range._Level.reversed'], random_runs=0)
def u_level(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    n, start, end, index = bounds(E)
    l = level(E, N, Kids(E, n), start, end, index)
    E.cover("precondition")
    if E.choice('forward', [True, False]):
        want = start if index == -1 else index + 1
        try:
            r = l.__next__()
        except StopIteration:
            E.prove("ends only after the end of the range", want > end)
            E.prove("the position stays", E.eq(l.index, index))
        else:
            E.prove("the next child in the range", E.And(E.eq(r[1], want), want <= end, E.eq(l.index, want)))
        return
    st = dict(next=end if index == -1 else index - 1)

    def havoc(loc):
        loc['index'] = st['next'] = core.mk(E.fresh_int('next'), True)
        object.__setattr__(l, 'index', core.mk(E.fresh_int('index'), True))
    E.loop(LoopSpec("backwards", lambda site, loc: 'reversed' in site,
                    lambda loc: [("the next one down", E.And(E.eq(loc['index'], st['next']), st['next'] <= end)), ("start is kept", E.eq(l.start, start))],
                    modifies=lambda loc: [(l, ('index',))], on_havoc=havoc, while_only=True, variant=lambda loc: loc['index'] - start + 1))
    for r in l.reversed():
        E.prove("the child before, in the range", E.And(E.eq(r[1], st['next']), r[1] >= start, r[1] <= end, E.eq(l.index, r[1])))
        st['next'] = st['next'] - 1
    E.prove("ends at the start of the range", st['next'] < start)


def trail(E, name, depth_choices=(None, 0, 1, 2, 3)):
    d = E.choice(name + '.length', list(depth_choices))
    return None if d is None else [E.int('%s%d' % (name, i), 0) for i in range(d)]


def lex(E, a, b):
    """a < b as trails"""
    if not b:
        return False
    if not a:
        return True
    return E.Or(a[0] < b[0], E.And(E.eq(a[0], b[0]), lex(E, a[1:], b[1:])))


@unit('C11', 'membership', functions=['node.Range._trail_in_range', 'node.Range._trail_intersects'], random_runs=0)
def u_member(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    start, end = trail(E, 'start'), trail(E, 'end')
    q = trail(E, 'q', (1, 2, 3))
    r = object.__new__(N.Range)
    object.__setattr__(r, 'start_trail', start)
    object.__setattr__(r, 'end_trail', end)
    E.cover("precondition")
    inside = E.And(E.Not(lex(E, q, start)) if start is not None else True, E.Not(lex(E, end, q)) if end is not None else True)
    E.prove("in the range exactly if not before the start and not after the end", E.Iff(r._trail_in_range(q), inside))
    k = len(q)
    part = E.And(E.Not(lex(E, q, start[:k])) if start is not None else True, E.Not(lex(E, end[:k], q)) if end is not None else True)
    got = r._trail_intersects(q)
    E.prove("intersects exactly if neither completely before the start nor after the end", E.Iff(got, part))
    E.prove("what is in the range intersects with it", E.Implies(inside, got))


@unit('C11', 'entering', functions=['node.Range._Level.child', 'node.Range._Level.__init__'], random_runs=0)
def u_child(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    n, m = E.int('n', 1), E.int('m', 0)
    depth = E.choice('depth', [0, 1])
    start, end = trail(E, 'start', (None, 0, 1, 2) if not depth else (None, 2, 3)), trail(E, 'end', (None, 0, 1, 2) if not depth else (None, 1, 2, 3))
    for t in (start, end):
        if t and len(t) > depth:
            E.assume(t[depth] < n)

    class Node(Kids):
        def __pv_getitem__(self, i):
            E.prove("index inside the node", E.And(i >= 0, i < n))
            k = Kids(E, m)
            k.i = i
            return k
        __getitem__ = __pv_getitem__
    node = Node(E, n)
    L = N.Range._Level
    l = L(node, start, end, depth)
    i = E.int('i', 0)
    s = start[depth] if start else 0
    e = n - 1 if end is None else end[depth] if len(end) > depth else -1
    E.prove("bounds from the trails", E.And(E.eq(l.start, s), E.eq(l.end, e)))
    E.prove("not yet at a child", E.eq(l.index, -1))
    E.assume(E.And(i >= l.start, i <= l.end))
    E.cover("precondition")
    if E.choice('given', [False, True]):
        c = l.child(i)
    else:
        object.__setattr__(l, 'index', i)
        c = l.child()
    E.prove("the child itself, one level deeper", E.And(E.eq(c.node.i, i), E.eq(c.depth, depth + 1), E.eq(c.index, -1)))
    # which grandchildren are in the range: compare trails of this level and deeper
    x = E.int('x', 0)
    E.assume(x < m)
    for t in (start, end):
        if t and len(t) > depth + 1:
            E.assume(E.Implies(E.eq(i, t[depth]), t[depth + 1] < m))
    q = (start[:depth] if start and depth else end[:depth] if end and depth else []) + [i, x]
    if start and end and depth:
        E.assume(E.eq(start[0], end[0]))
    part = E.And(E.Not(lex(E, q, start[:len(q)])) if start is not None else True, E.Not(lex(E, end[:len(q)], q)) if end is not None else True)
    if len(q) == depth + 2:
        E.prove("a grandchild is iterated exactly if it intersects with the range", E.Iff(E.And(x >= c.start, x <= c.end), part))


class Slice:
    """Ghost: a slice without step (contract of slice.indices)."""
    start = stop = step = None

    def __init__(self, E, lo, hi):
        self.E, self.lo, self.hi = E, lo, hi
        self.step = E.choice('step', [None, 1])

    def __pv_isinstance__(self, T):
        return T is slice or isinstance(T, tuple) and slice in T

    def indices(self, n):
        self.E.prove("indices of the node at this level", self.E.eq(n, self.n))
        return self.lo, self.hi, 1


class New:
    """Ghost: any number of new nodes."""
    def __init__(self, n):
        self.n = n

    def __pv_tuple__(self):
        return self

    def __pv_len__(self):
        return self.n

    def __bool__(self):
        raise core.Unsupported("truth of the new nodes")


@unit('C11', 'setting a slice', functions=['node.Range.__setitem__'], random_runs=0)
def u_setslice(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    depth = E.choice('depth', [0, 1])
    n, k = E.int('n', 0), E.int('new', 0)
    lo, hi = E.int('lo', 0), E.int('hi', 0)
    E.assume(E.And(lo <= n, hi <= n))
    prefix = [E.int('prefix', 0)] * depth
    sk, ek = E.choice('start trail', ['none', 'here', 'below']), E.choice('end trail', ['none', 'ends', 'here', 'below'])
    start, end = 0, -1
    st = et = None
    if sk != 'none':
        start = E.int('start', 0)
        E.assume(start < n)
        st = prefix + [start] + ([E.int('start2', 0)] if sk == 'below' else [])
    if ek == 'none':
        end = n - 1
    else:
        if ek != 'ends':
            end = E.int('end', 0)
            E.assume(end < n)
        et = prefix + ([end] if ek != 'ends' else []) + ([E.int('end2', 0)] if ek == 'below' else [])
    index = E.int('index', -1)
    E.assume(E.Or(index == -1, E.And(index >= start, index <= end)))

    class Leafy(Kids):
        """a descendant chain of some height"""
        def __pv_getitem__(self, i):
            E.prove("index inside the node", E.And(i >= -self.n, i < self.n))
            kids = E.choice('below%s' % self.what, [0, 2]) if len(self.what) < 6 else 0
            c = Leafy(E, kids, self.what + '.')
            c.i = i
            self.last = c
            return c
        __getitem__ = __pv_getitem__
    node = Leafy(E, n, '')
    l = level(E, N, node, start, end, index, st, et, depth)
    r = object.__new__(N.Range)
    object.__setattr__(r, '_stack', [None] * depth + [l])
    object.__setattr__(r, 'start_trail', st)
    object.__setattr__(r, 'end_trail', et)
    sl = Slice(E, lo, hi)
    sl.n = n
    value = New(k)
    E.cover("precondition")
    r[sl] = value
    E.prove("the nodes are set", node.set is not None and node.set[0] is sl and node.set[1] is value)
    removed = hi - lo if hi > lo else 0
    hi = lo + removed
    length = n + k - removed
    x = E.int('x', 0)       # any old child that is still there
    E.assume(E.And(x < n, E.Or(x < lo, x >= hi)))
    new = x if x < lo else x + k - removed
    E.prove("an old child is between the bounds exactly if it was", E.Iff(E.And(x >= start, x <= end), E.And(new >= l.start, new <= l.end)))
    if index != -1:
        want = index if index < lo else index + k - removed if index >= hi else lo + k - 1
        if length == 0:
            want = -1
        E.prove("the position stays at the same node, or just before what follows a removed one", E.eq(l.index, want))
    else:
        E.prove("the position stays", E.eq(l.index, -1))
    if sk != 'none' and not (l.start >= length and length > 0):    # else: the known finding
        E.prove("the start trail leads to the start of this level", E.eq(l.start, 0) if len(st) <= depth else E.eq(st[depth], l.start))
        E.prove("the start trail keeps its way to this level", st[:depth] == prefix if not depth else E.eq(st[0], prefix[0]))
        if start < lo or start >= hi:
            E.prove("a start node that is still there keeps its trail", len(st) == depth + (2 if sk == 'below' else 1))
    if sk == 'none':
        E.prove("no start boundary", r.start_trail is None)
    if ek != 'none':
        E.prove("the end trail leads to the end of this level", E.eq(l.end, -1) if len(et) <= depth else E.eq(et[depth], l.end))
        if depth:
            E.prove("the end trail keeps its way to this level", E.eq(et[0], prefix[0]))
        if ek != 'ends' and (end < lo or end >= hi):
            E.prove("an end node that is still there keeps its trail", len(et) == depth + (2 if ek == 'below' else 1))
    else:
        E.prove("no end boundary", r.end_trail is None)


# ------------------------------------------------------------------ walking

class Seen:
    """Ghost: a node that is (partly) in the range, with any number of children."""
    def __init__(self, T):
        self.n = core.mk(T.E.fresh_int('children'), True)
        T.E.assume(self.n >= 0)

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n


class LevelIt:
    """Ghost: iterates the rest of the current level of a Tour (contract of a level, see 'one level')."""
    def __init__(self, T, reverse):
        self.T, self.reverse = T, reverse

    def __pv_iter__(self):
        return self

    __iter__ = __pv_iter__

    def __next__(self):
        return self.T.advance(self)


class Tour:
    """Ghost: a Range, as its walking methods use it: enter, leave and the iteration of the current level.

    A walk in document order is exactly: what an iteration gives is yielded
    at once; a node with children whose children are wanted is entered at
    once and its level iterated; a level that has ended is left and the one
    below goes on; and so on until the level where the walk began (or, for
    forward and backward, the outermost level or ``upto``) has been left.
    """
    def __init__(self, E, reverse, within):
        self.E, self.reverse, self.within = E, reverse, within
        self.base = self.k = E.int('depth', 0)      # the levels below the current one
        self.left = self.nat()
        self.state = 'begin' if within else 'level'
        self.upto = self.current = None
        self.count = 0

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported("Range.%s in a walk" % name)

    def nat(self):
        x = core.mk(self.E.fresh_int('left'), True)
        self.E.assume(x >= 0)
        return x

    def settle(self):
        """A node without children, or skipped, was yielded: the level goes on."""
        if self.state == 'yielded':
            self.E.prove("a node with children is entered, unless the consumer skips them", self.E.Or(self.sent is False, self.current.n == 0))
            self.state = 'level'

    def __pv_iter__(self):
        self.E.prove("direction", not self.reverse)
        return LevelIt(self, False)

    __iter__ = __pv_iter__

    def reversed(self):
        self.E.prove("direction", self.reverse)
        return LevelIt(self, True)

    def advance(self, it):
        self.settle()
        self.E.prove("iterates a level when it is its turn", self.state == 'level')
        if self.left == 0:
            self.state = 'ended'
            raise StopIteration
        self.left = self.left - 1
        self.current = Seen(self)
        self.state = 'got'
        return self.current

    def enter(self):
        if self.state == 'begin':
            # from a node not yet entered, or already entered but not yet iterated
            if self.E.choice('entered', [False, True]) is False:
                self.k = self.k + 1
            self.base = self.k
        else:
            self.E.prove("enters the node just yielded", self.state == 'yielded')
            self.E.prove("a node whose children are skipped is not entered", self.sent is not False)
            self.k = self.k + 1
            if self.current.n == 0:
                self.left, self.state = 0, 'level'
                return self.k
        self.left = self.nat()
        self.state = 'level'
        return self.k

    def leave(self):
        self.settle()
        self.E.prove("a level is left when it has ended", self.state == 'ended')
        depth = self.k
        self.state = 'level'
        self.left = self.nat()
        self.at = object()
        if depth > 0:
            self.k = depth - 1
        else:
            self.state = 'done'
        if self.within:
            if depth == self.base:
                self.state = 'done'
        elif self.upto is not None and depth > 0:
            self.count += 1
            if self.E.choice('reached%d' % self.count, [False, True]):
                self.at, self.state = self.upto, 'done'
        return depth

    @property
    def node(self):
        return self.at

    def depth(self):
        return self.k

    def drive(self, gen):
        E, sent, n = self.E, None, 0
        while True:
            try:
                x = gen.send(sent)
            except StopIteration:
                break
            E.prove("yields what the iteration gives, at once", self.state == 'got' and x is self.current)
            n += 1
            self.sent = sent = E.choice('sent%d' % n, [None, False, True])
            self.state = 'yielded'
        E.prove("ends when the level of the start (or the last one, or the given ancestor) has been left", self.state == 'done')


def walk_unit(name, reverse):
    @unit('C11', 'walking: %s%s' % (name, ', backwards' if reverse and name == 'descendants' else ''), functions=['node.Range.' + name], random_runs=0)
    def u(E):
        if not E.symbolic:
            return
        N = E.mod('quickly.node')
        T = Tour(E, reverse, name == 'descendants')
        if not T.within and E.choice('upto', [False, True]):
            T.upto = object()
        site = lambda site, loc: name in site

        def inv(loc):
            T.settle()
            return [("a level is to be iterated", T.state == 'level'), ("at or above the level of the start", E.And(T.k >= 0, T.k >= T.base) if T.within else T.k >= 0)]

        def havoc(loc):
            T.k, T.left, T.state = T.nat(), T.nat(), 'level'
            if T.within:
                E.assume(T.k >= T.base)

        def inv_level(loc, entry):
            T.settle()
            return [("a level is iterated", T.state == 'level'), ("the same level", E.eq(T.k, entry))]

        def havoc_level(loc):
            T.left, T.state = T.nat(), 'level'
        keep = lambda n, v: v if isinstance(v, Tour) else Havoc(n, v)
        E.loop(LoopSpec("walk", site, inv, on_havoc=havoc, while_only=True, fresh=keep))
        E.loop(LoopSpec("level", site, inv_level, entry=lambda loc: T.k, for_only=True, on_havoc=havoc_level, fresh=keep, variant=lambda loc: T.left))
        E.cover("precondition")
        f = getattr(N.Range, name)
        if T.within:
            T.drive(f(T, True) if reverse else f(T) if E.choice('arg', [0, 1]) else f(T, False))
        elif T.upto is not None:
            T.drive(f(T, T.upto))
        else:
            T.drive(f(T))
    return u


walk_unit('forward', False)
walk_unit('backward', True)
walk_unit('descendants', False)
walk_unit('descendants', True)


# ------------------------------------------------------------------ entering and leaving

class Plain:
    """Ghost: a level of the stack."""
    def __init__(self, S, name):
        self.S, self.name = S, name
        self.index = core.mk(S.E.fresh_int('index'), True)
        S.E.assume(self.index >= -1)

    def child(self, index=None):
        self.S.E.prove("the level below the current node", True if index is None else self.S.E.eq(index, self.index))
        return ('level below', self)


class Stack:
    """Ghost: any number of levels."""
    def __init__(self, E):
        self.E = E
        self.hidden = E.int('depth', 0)     # unknown levels below the known ones
        self.known = [Plain(self, 'top')]

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.hidden + len(self.known)

    def __pv_getitem__(self, i):
        if i == -1:
            if not self.known:
                self.E.prove("never empty", self.hidden > 0)
                self.hidden = self.hidden - 1
                self.known.append(Plain(self, 'below'))
            return self.known[-1]
        raise core.Unsupported("level %r" % i)

    __getitem__ = __pv_getitem__

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported("the stack's " + name)

    def append(self, l):
        self.known.append(l)

    def __pv_delitem__(self, i):
        if i != -1:
            raise core.Unsupported("level %r" % i)
        self.pop()

    __delitem__ = __pv_delitem__

    def pop(self, i=-1):
        if i != -1:
            raise core.Unsupported("level %r" % i)
        self.E.prove("the outermost level stays", self.hidden + len(self.known) > 1)
        return self.known.pop() if self.known else None


@unit('C11', 'entering and leaving', functions=['node.Range.enter', 'node.Range.leave', 'node.Range.depth'], random_runs=0)
def u_enter(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    s = Stack(E)
    d = s.hidden
    top = s.known[0]
    index = top.index
    r = object.__new__(N.Range)
    object.__setattr__(r, '_stack', s)
    E.cover("precondition")
    E.prove("the depth", E.eq(r.depth(), d))
    if E.choice('enter', [True, False]):
        k = r.enter()
        if len(s.known) == 1:
            E.prove("an entered node is not entered again", E.And(E.eq(index, -1), s.known[0] is top, E.eq(k, d)))
        else:
            E.prove("the level below the current node", E.And(index > -1, s.known == [top, ('level below', top)]))
            E.prove("the depth after entering", E.eq(k, d + 1))
        E.prove("the position stays", E.eq(top.index, index))
        if len(s.known) == 2:
            E.prove("leaving gives the same depth", E.eq(r.leave(), k))
            E.prove("back at the node that was entered", E.And(s.known == [top], E.eq(s.hidden, d), E.eq(top.index, index)))
    else:
        k = r.leave()
        E.prove("the depth before leaving", E.eq(k, d))
        if d == 0:
            E.prove("back at the ancestor", E.And(s.known == [top], E.eq(top.index, -1), E.eq(s.hidden, 0)))
        else:
            E.prove("one level less", s.known == [] and E.eq(s.hidden, d))


@unit('C11', 'walking: children', functions=['node.Range.children'], random_runs=0)
def u_children(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    reverse = E.choice('reverse', [False, True])
    log, child = [], object()

    class R:
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Range.%s in children" % name)

        def enter(self):
            log.append('enter')
            return 1

        def leave(self):
            log.append('leave')
            return 1

        def __pv_iter__(self):
            log.append('level')
            return iter([child])
        __iter__ = __pv_iter__

        def reversed(self):
            log.append('level reversed')
            return iter([child])
    E.cover("precondition")
    r = R()
    got = []
    for n in N.Range.children(r, reverse):
        log.append('child')
        got.append(n)
    E.prove("the level of the node just entered, in the direction, then left", log == ['enter', 'level reversed' if reverse else 'level', 'child', 'leave'])
    E.prove("the children", len(got) == 1 and got[0] is child)


@unit('C11', 'walking: ancestors', functions=['node.Range.ancestors'], random_runs=0)
def u_ancestors(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')

    class Bottom:
        def __init__(self):
            self.index = E.int('index', -1)

    class R:
        """Ghost: a range at any depth (contract of leave, depth, node)."""
        def __init__(self):
            self.d = E.int('depth', 0)
            self.bottom = Bottom()
            self.due = None     # the node reached by leaving, not yet yielded

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Range.%s in ancestors" % name)

        def depth(self):
            return self.d

        def leave(self):
            E.prove("no ancestor is left out", self.due is None)
            if self.d == 0:
                k = 0
                if self.bottom.index != -1:
                    self.due = 'bottom'
                    self.bottom.index = -1
            else:
                k = self.d
                self.d = self.d - 1
                self.due = object()
            return k

        @property
        def _stack(self):
            if self.d == 0:
                return Last([self.bottom])
            raise core.Unsupported("levels")

        @property
        def node(self):
            if self.due is not None:
                return self.due
            return 'bottom' if self.d == 0 and E.eq(self.bottom.index, -1) else object()

    class Last(list):
        pass
    r = R()
    at = r.bottom.index

    def havoc(loc):
        r.d = core.mk(E.fresh_int('depth'), True)
        E.assume(r.d >= 0)
        r.due = None
    E.loop(LoopSpec("up", lambda site, loc: 'ancestors' in site,
                    lambda loc: [("the node reached was yielded", r.due is None), ("within the range", r.d >= 0), ("the position in the ancestor stays", E.eq(r.bottom.index, at))],
                    on_havoc=havoc, while_only=True, variant=lambda loc: r.d, fresh=lambda n, v: v if isinstance(v, R) else Havoc(n, v)))
    E.cover("precondition")
    last = None
    for n in N.Range.ancestors(r):
        E.prove("each node that is reached, once", n == 'bottom' if r.due is None else n is r.due)
        if r.due is None:
            E.prove("the ancestor comes last, and once", last is None and r.d == 0)
        last = n
        r.due = None
    E.prove("up to the ancestor", E.eq(r.d, 0))
    E.prove("the ancestor is yielded unless the walk began there", E.Iff(last == 'bottom', at > -1))
    E.prove("at the ancestor", E.eq(r.bottom.index, -1))


@unit('C11', 'walking: nodes', functions=['node.Range.nodes'], random_runs=0)
def u_nodes(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    below, after = object(), object()
    log = []
    trail = E.choice('start trail', ['none', 'empty', 'some'])

    class R:
        start_trail = None if trail == 'none' else [] if trail == 'empty' else [1]
        node = None

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Range.%s in nodes" % name)

        def __bool__(self):
            return filled

        def _goto_trail(self, t):
            log.append('goto')
            E.prove("starts at the start trail", t is R.start_trail)
            self.node = node

        def descendants(self, reverse=False):
            log.append('below')
            E.prove("direction", not reverse)
            return iter([below])

        def forward(self, upto=None):
            log.append('after')
            E.prove("up to the end of the range", upto is None)
            return iter([after])

    class T:
        pass
    t = T()
    t.E = E
    node = Seen(t)
    r = R()
    filled = E.choice('filled', [True, False])
    E.cover("precondition")
    gen, sent, got = N.Range.nodes(r), None, []
    while True:
        try:
            x = gen.send(sent)
        except StopIteration:
            break
        got.append(x)
        sent = E.choice('sent', [None, False, True]) if x is node else None
        if x is node:
            wanted = sent is not False
    if not filled:
        E.prove("nothing in an empty range", got == [])
    elif trail == 'some':
        E.prove("first the start node", len(got) > 1 and got[0] is node and got[-1] is after)
        E.prove("its descendants, unless it has none or they are skipped", len(got) == 3 and got[1] is below if wanted and node.n > 0 else len(got) == 2)
    else:
        E.prove("all that follows the ancestor", got == [after])
        E.prove("starts at the beginning", log == ['goto', 'after'])


@unit('C11', 'ends of a level', functions=['node.Range._Level.start_in_range', 'node.Range._Level.end_in_range'], random_runs=0)
def u_ends(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    depth = E.choice('depth', [0, 1])
    start, end = trail(E, 'start', (None, 0, 1, 2) if not depth else (None, 2, 3)), trail(E, 'end', (None, 0, 1, 2) if not depth else (None, 1, 2, 3))
    chain = []

    class Node(Kids):
        def __pv_getitem__(self, i):
            E.prove("follows the end trail", end is not None and E.eq(i, end[depth + chain.index(self)]))
            return chain[chain.index(self) + 1]
        __getitem__ = __pv_getitem__
    for i in range(1 + (max(0, len(end) - depth) if end is not None else 0)):
        chain.append(Node(E, E.int('n%d' % i, 0)))
        if end is not None and i < len(end) - depth:
            E.assume(end[depth + i] < chain[i].n)
    l = level(E, N, chain[0], 0, 0, -1, start, end, depth)
    E.cover("precondition")
    full = E.And(*[E.eq(i, 0) for i in start[depth:]]) if start else True
    E.prove("no child is before the start", E.Iff(l.start_in_range(), full))
    if end is None:
        full = True
    else:
        full = E.And(*([E.eq(t, n.n - 1) for t, n in zip(end[depth:], chain)] + [E.eq(chain[-1].n, 0)]))
    E.prove("no descendant is after the end", E.Iff(l.end_in_range(), full))


@unit('C11', 'trail to a node', functions=['node.Range._get_trail'], random_runs=0)
def u_trail(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    n = E.int('height', 0)
    inside = E.choice('inside', [True, False])
    me = E.choice('ancestor itself', [True, False]) if inside else False
    anc = object()

    class Walk:
        """Ghost: the ancestors of the node, with index."""
        at = 0

        def __pv_iter__(self):
            return self
        __iter__ = __pv_iter__

        def __next__(self):
            if self.at == n:
                raise StopIteration
            i, self.at = self.at, self.at + 1
            self.now = i
            return (anc if inside and bool(i == k) else object()), ('index', i)

    class X:
        def ancestors_with_index(self):
            return W

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Node.%s in _get_trail" % name)

    class R:
        def ancestor(self):
            return anc

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Range.%s in _get_trail" % name)
    k = E.int('ancestor at', 0)     # how far up the ancestor is
    E.assume(k < n)
    W = Walk()

    x = anc if me else X()
    if me:
        E.cover("precondition")
        E.prove("empty for the ancestor itself", N.Range._get_trail(R(), x) == [])
        return

    class Sofar:
        """Ghost: the first so many indices."""
        def __init__(self, n):
            self.n = n

    def sofar(t):
        """How many indices the trail has, if it has the right ones."""
        if not isinstance(t, list) or len(t) > 2:
            return None
        a = 0
        for v in t:
            if isinstance(v, Sofar) and v is t[0]:
                a = v.n
            elif isinstance(v, tuple) and bool(E.eq(v[1], a)):
                a = a + 1
            else:
                return None
        return a

    def gathered(loc):
        a = sofar(loc.get('trail'))
        if a is None:
            raise core.Unsupported("another way to gather the trail")
        return a

    def good(loc):
        return E.eq(gathered(loc), W.at)

    def havoc(loc):
        gathered(loc)
        W.at = core.mk(E.fresh_int('at'), True)
        E.assume(E.And(W.at >= 0, W.at <= n))
        loc['trail'][:] = [Sofar(W.at)]
    E.loop(LoopSpec("up", lambda site, loc: '_get_trail' in site,
                    lambda loc: [("the index of each ancestor so far, in turn", good(loc)),
                                 ("the ancestor was not passed", W.at <= k if inside else True), ("no more ancestors than there are", W.at <= n)],
                    on_havoc=havoc, for_only=True, variant=lambda loc: n - W.at, fresh=lambda m, v: v if m in ('trail', 'ancestor', 'self', 'node') else Havoc(m, v)))
    E.cover("precondition")
    r = N.Range._get_trail(R(), x)
    if inside:
        a = sofar(r[::-1]) if isinstance(r, list) else None
        E.prove("the indices from the ancestor down to the node", a is not None and E.eq(a, k + 1))
    else:
        E.prove("none outside the tree", r is None)


# ------------------------------------------------------------------ making ranges

@unit('C11', 'a range from here', functions=['node.Range.from_here', 'node.Range.__init__', 'node.Range.ancestor', 'node.Range.__bool__'], random_runs=0)
def u_from_here(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    n, m = E.int('n', 1), E.int('m', 0)
    depth = E.choice('depth', [0, 1])
    start, end = trail(E, 'start', (None, 1, 2) if not depth else (None, 2, 3)), trail(E, 'end', (None, 0, 1, 2) if not depth else (None, 1, 2, 3))
    for t in (start, end):
        if t and len(t) > depth:
            E.assume(t[depth] < n)

    class Node(Kids):
        def __pv_getitem__(self, i):
            E.prove("index inside the node", E.And(i >= 0, i < n))
            k = Kids(E, m)
            k.i = i
            return k
        __getitem__ = __pv_getitem__
    node = Node(E, n)
    l = N.Range._Level(node, start, end, depth)
    if start and end and depth:
        E.assume(E.eq(start[0], end[0]))
    i = E.int('i', -1)
    E.assume(E.Or(i == -1, E.And(i >= l.start, i <= l.end)))
    for t in (start, end):
        if t and len(t) > depth + 1:
            E.assume(E.Implies(E.eq(i, t[depth]), t[depth + 1] < m))
    object.__setattr__(l, 'index', i)
    r = object.__new__(N.Range)
    object.__setattr__(r, '_stack', [None] * depth + [l])
    object.__setattr__(r, 'start_trail', start)
    object.__setattr__(r, 'end_trail', end)
    E.cover("precondition")
    new = r.from_here()
    way = start[:depth] if start and depth else end[:depth] if end and depth else [E.int('p', 0)] * depth
    if i == -1:
        E.prove("from the node entered", new.ancestor() is node)
    else:
        E.prove("from the current node", E.eq(new.ancestor().i, i))
        way = way + [i]
    E.prove("at the beginning", E.And(len(new._stack) == 1, E.eq(new._stack[0].index, -1)))
    x, y = E.int('x', 0), E.int('y', 0)
    E.assume(x < (n if len(way) == depth else m))
    for q in ([x], [x, y]):
        E.prove("a descendant of the node intersects with the new range exactly if it does with this one", E.Iff(new._trail_intersects(q), r._trail_intersects(way + q)))
        E.prove("a descendant of the node is in the new range exactly if it is in this one", E.Iff(new._trail_in_range(q), r._trail_in_range(way + q)))
    a, b = new.start_trail, new.end_trail
    first = a[0] if a else 0
    last = new.ancestor().n - 1 if b is None else b[0] if b else -1
    E.prove("empty exactly without children between the bounds, or with the end before the start",
            E.Iff(new.__bool__(), E.And(first <= last, E.Not(lex(E, b, a)) if a and b else True)))
    E.prove("the trails are the new range's own", (a is None or a is not start) and (b is None or b is not end))


@unit('C11', 'going to a trail', functions=['node.Range._goto_trail', 'node.Range.reset', 'node.Range.goto'], random_runs=0)
def u_goto(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    t = trail(E, 'trail')

    class Lv:
        def __init__(self, parent, at):
            self.parent, self.at, self.index = parent, at, -1

        def child(self, index=None):
            return Lv(self, self.index if index is None else index)
    bottom = Lv(None, None)
    bottom.index = E.int('index', -1)
    stack = [bottom] + [object()] * E.choice('entered', [0, 1, 2])
    meets = E.choice('intersects', [True, False]) if t is not None else False

    class R(N.Range):
        def __init__(self):
            pass

        def _get_trail(self, node):
            E.prove("the trail of the node", node is me)
            return t

        def _trail_intersects(self, x):
            E.prove("whether its trail intersects", x is t)
            return meets
    me = object()
    r = R()
    object.__setattr__(r, '_stack', list(stack))
    before = bottom.index
    E.cover("precondition")
    if E.choice('goto', [True, False]):
        got = r.goto(me)
        E.prove("goes to a node of the tree that intersects with the range", got is meets)
        if not meets:
            E.prove("stays where it is", E.And(r._stack == stack, E.eq(bottom.index, before)))
            return
    else:
        r._goto_trail(t)
    s = r._stack
    E.prove("one level for each step", len(s) == max(1, len(t or ())) and s[0] is bottom)
    if not t:
        E.prove("at the ancestor", E.eq(bottom.index, -1))
    for k, i in enumerate(t or ()):
        E.prove("each level at the index of the trail", E.eq(s[k].index, i))
        if k:
            E.prove("each level that of the node before", E.And(s[k].parent is s[k - 1], E.eq(s[k].at, t[k - 1])))


@unit('C11', 'a range between nodes', functions=['node.Range.from_nodes'], random_runs=0)
def u_from_nodes(E):
    if not E.symbolic:
        return
    N = E.mod('quickly.node')
    roots = [Kids(E, E.int('n', 1)), Kids(E, E.int('m', 1))]
    common = Kids(E, E.int('k', 1))
    related = E.choice('same tree', [True, False])
    a, b, ta, tb = [0], [0, 0], [0, 0], [0, 0, 0]

    class X:
        def __init__(self, which):
            self.which = which

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("Node.%s in from_nodes" % name)

        def __bool__(self):
            return True

        def root(self):
            return roots[0] if related else roots[self.which]

        def trail(self):
            return (ta, tb)[self.which]

        def common_ancestor_with_trail(self, o):
            E.prove("the ancestor of both nodes", self.which == 0 and isinstance(o, X) and o.which == 1)
            return (common, a, b) if related else (None, None, None)
    s, e = E.choice('start', [True, False]), E.choice('end', [True, False])
    top = E.choice('from root', [False, True])
    start, end = X(0) if s else None, X(1) if e else None
    E.cover("precondition")
    try:
        r = N.Range.from_nodes(start, end, top)
    except ValueError:
        E.prove("refused only without nodes or with nodes of two trees", not s and not e or s and e and not related)
        return
    E.prove("refused without nodes, and with nodes of two trees", (s or e) and (related or not (s and e)))
    if s and e and not top:
        E.prove("from their youngest common ancestor", r.ancestor() is common and r.start_trail is a and r.end_trail is b)
    else:
        E.prove("from the root", r.ancestor() is (start or end).root())
        E.prove("to the nodes", (r.start_trail is ta if s else r.start_trail is None) and (r.end_trail is tb if e else r.end_trail is None))

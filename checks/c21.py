"""C21: building trees from flat lists of elements loses and duplicates nothing."""
from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = ('Proved for any number of elements, any depth of open heads and any outcome of the type tests: at every moment what has been yielded, the open heads from the outside in and the elements being placed are '
        'consecutive and together exactly the elements read, an element is only ever added to the innermost open head, it is added if and only if one of the remaining signatures of that head starts with its type, '
        'and the head is closed exactly when no signature is left (loop contracts on the three loops of build_tree; the list of open heads is abstracted to its top and the rest). '
        'The number of signatures of a single head and the number of children it already has are enumerated (up to 2 signatures of up to 3 types, up to 2 children) in the proof. '
        'That the elements of random real trees are grouped as an independent recursive grouping does is checked at run time (bounded), as are the add_argument() conversions of the LilyPond elements.')
ASSUMPTIONS = ['a fresh element handed to build_tree is not already part of the result (no element is given twice)']


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


def fresh_bool(E, name):
    return core.SBool(E.fresh_int(name) > 0)


class T:
    """Ghost element type."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


COMMENT = T('Comment')


class Ghost:
    """Ghost element: stands for the elements numbered first to last, in order."""
    def __init__(self, E, first, last, name, sigs=(), kids=()):
        self.E, self.first, self.last, self.name, self.sigs, self.kids = E, first, last, name, sigs, kids
        self.types = {}
        self.added = []

    def is_a(self, t):
        if t not in self.types:
            self.types[t] = fresh_bool(self.E, '%s is %s' % (self.name, t))
        return self.types[t]

    def __pv_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if not all(isinstance(x, T) for x in ts):
            raise core.Unsupported("type test")
        return self.E.Or(*[self.is_a(x) for x in ts])

    def signatures(self):
        return list(self.sigs)

    def __iter__(self):
        return iter(self.kids)

    def __xor__(self, t):
        return [k for k in self.kids if not bool(k.is_a(t))]

    def __len__(self):
        return len(self.kids)

    def __bool__(self):
        return True

    def add_argument(self, node):
        if not isinstance(node, Ghost):
            raise core.Unsupported("argument")
        self.E.prove("an element is added right after the elements already below the head", node.first == self.last + 1)
        self.last = node.last
        self.added.append(node)

    def __getattr__(self, name):
        if name.startswith('__pv_'):
            raise AttributeError(name)
        raise core.Unsupported("element attribute %s" % name)


SIGS = [[1], [2], [3], [1, 2], [2, 2], [2, 1], [3, 1]]


def shapes(shape, label):
    return [tuple(T('%s%d.%d' % (label, i, j)) for j in range(n)) for i, n in enumerate(shape)]


def waiting(E, sigs, kids):
    """The signatures that remain after the children, or [] if the head needs nothing more."""
    for k in kids:
        sigs = [s[1:] for s in sigs if bool(k.is_a(s[0])) and len(s) > 1]
    return sigs


def build_proof(comments, placing):
    """placing: prove the contract of the loop that places one element; else of the rest, using it."""
    def u(E):
        El = E.mod('quickly.dom.element')
        if not E.symbolic:
            return
        st = dict(out=0, n=0, cur=None, head=None)
        E.ghost['local_objects'] = All()

        class Nodes:
            """The elements given: any number."""
            def __iter__(self):
                return self

            def __pv_iter__(self):
                return self

            def __next__(self):
                if E.choice('next', ['end', 'node']) == 'end':
                    st['cur'] = None
                    raise StopIteration
                i = st['n']
                sigs = shapes(E.choice('signatures', [[]] + SIGS), 's') if not placing else []
                kids = [Ghost(E, i, i, 'child%d' % k) for k in range(E.choice('children', [0, 1, 2]) if sigs else 0)]
                n = Ghost(E, i, i, 'node', sigs, kids)
                st['n'] = i + 1
                st['cur'] = n
                return n

        nodes = Nodes()

        def entry(g):
            if not (isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], Ghost)):
                raise core.Unsupported("open heads")
            return g[0]

        def chain(items, start, end):
            """The conditions that items are consecutive."""
            at, out = start, []
            for x in items:
                out.append(E.And(x.first == at, x.last >= x.first))
                at = x.last + 1
            return E.And(*out, at == end)

        def lists(loc, *names):
            for n in names:
                if not isinstance(loc.get(n), list):
                    raise core.Unsupported("no list %s" % n)

        def some(name):
            return Ghost(E, fresh(E, name + ' first'), fresh(E, name + ' last'), name)

        def havoc_stack(stack, label):
            """Any number of open heads: only the innermost one is told apart."""
            if placing and label != 'while placing':
                # what leads to the loop makes no difference: the state in it is arbitrary
                k = E.choice('open heads %s %d' % (label, count()), ['one'])
            else:
                k = E.choice('open heads %s %d' % (label, count()), ['none', 'one', 'more'])
            if k == 'none':
                stack[:] = []
            else:
                top = (some('head'), shapes(E.choice('remaining %d' % count(), SIGS if placing and label == 'while placing' else SIGS[:1]), 'r'))
                stack[:] = [top] if k == 'one' else [(some('outer heads'), Opaque()), top]

        def count():
            st['count'] = st.get('count', 0) + 1
            return st['count']

        class Opaque:
            def __iter__(self):
                raise core.Unsupported("second open head used at once")
            __bool__ = __len__ = __getitem__ = __iter__

        # -- the loop over the elements
        def inv(loc):
            lists(loc, 'stack')
            out = [("everything read is yielded or below an open head, in order", chain([entry(g) for g in loc['stack']], st['out'], st['n']))]
            n = st['cur']
            if n is not None:
                w = waiting(E, n.sigs, [k for k in n.kids if not (comments and bool(k.is_a(COMMENT)))]) if n.sigs else []
                on_top = bool(loc['stack']) and loc['stack'][-1][0] is n
                if w:
                    out.append(("an element that needs arguments is opened, and knows which", E.And(on_top, *([list(map(tuple, loc['stack'][-1][1])) == w] if on_top else []))))
                else:
                    out.append(("an element that needs no arguments is not opened", not on_top))
            return out

        def havoc(loc):
            lists(loc, 'stack')
            st['cur'] = None
            st['n'] = fresh(E, 'elements read')
            st['out'] = fresh(E, 'elements yielded')
            E.assume(st['out'] >= 0)
            havoc_stack(loc['stack'], 'at element')
        E.loop(LoopSpec("elements", lambda site, loc: loc.get('__it__') is nodes, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))

        # -- placing an element
        def place_inv(loc):
            lists(loc, 'stack', 'pending')
            stack, pending = loc['stack'], loc['pending']
            out = [("yielded, open and pending elements are consecutive",
                    chain([entry(g) for g in stack] + [p if isinstance(p, Ghost) else bad() for p in reversed(pending)], st['out'], st['n']))]
            h = st['head']
            if h:
                (parent, sigs), below, node, rest = h
                fits = [s[1:] for s in sigs if bool(node.is_a(s[0]))]
                left = [s for s in fits if s]
                top = stack[-1] if len(stack) == below + 1 else None
                added = len(parent.added) == 1 and parent.added[0] is node
                if comments and bool(node.is_a(COMMENT)):
                    out.append(("a comment goes below the innermost open head", E.And(added, top is not None and top[0] is parent and list(map(tuple, top[1])) == sigs, same(pending, rest))))
                elif left:
                    out.append(("an argument goes below its head, which needs more", E.And(added, top is not None and top[0] is parent and list(map(tuple, top[1])) == left, same(pending, rest))))
                elif fits:
                    out.append(("the last argument closes the head", E.And(added, top is None, len(stack) == below, same(pending, rest + [parent]))))
                else:
                    out.append(("an element that is no argument closes the head", E.And(not parent.added, top is None, len(stack) == below, same(pending, rest + [node, parent]))))
            else:
                # entry: an element that needs nothing more, or the innermost open head at the end
                n = st['cur']
                if n is not None:
                    out.append(("the element itself is placed", same(pending, [n])))
            return out

        def bad():
            raise core.Unsupported("pending")

        def same(a, b):
            return len(a) == len(b) and all(x is y for x, y in zip(a, b))

        def place_havoc(loc):
            lists(loc, 'stack', 'pending')
            havoc_stack(loc['stack'], 'while placing')
            k = E.choice('pending %d' % count(), [0, 1, 2] if bool(loc['stack']) == placing or not loc['stack'] else [0])
            if placing and not (k and loc['stack']):
                E.assume(False)     # the loop ends: see the other proof
            loc['pending'][:] = [some('pending%d' % i) for i in range(k)]
            st['head'] = None
            if loc['stack'] and loc['pending']:
                st['next_head'] = (loc['stack'][-1][0], list(loc['stack'][-1][1])), len(loc['stack']) - 1, loc['pending'][-1], loc['pending'][:-1]
            else:
                st['next_head'] = None
            st['cur'] = None
            st['sizes'] = [fresh(E, 'number of outer heads'), fresh(E, 'number of pending elements')]

        def place_where(site, loc):
            return loc.get('__it__') is None and 'pending' in loc

        def variant(loc):
            # called right after the assumptions of the invariant, and at the end of the iteration
            st['head'] = st.pop('next_head', None) or st['head']
            return 2 * len(loc['stack']) + len(loc['pending'])
        E.loop(LoopSpec("placing", place_where, place_inv, on_havoc=place_havoc, variant=variant, while_only=True, fresh=lambda n, v: v))

        # -- closing the heads that are open at the end
        def end_inv(loc):
            lists(loc, 'stack')
            return [("nothing is lost at the end", chain([entry(g) for g in loc['stack']], st['out'], st['n']))]

        def end_havoc(loc):
            lists(loc, 'stack')
            st['cur'] = None
            st['out'] = fresh(E, 'elements yielded')
            havoc_stack(loc['stack'], 'at end')
            st['head'] = None
        E.loop(LoopSpec("closing", lambda site, loc: loc.get('__it__') is None and 'pending' not in loc, end_inv, on_havoc=end_havoc, while_only=True, fresh=lambda n, v: v))

        E.cover("precondition")
        for y in El.build_tree(nodes, COMMENT) if comments else El.build_tree(nodes):
            if not isinstance(y, Ghost):
                raise core.Unsupported("yielded object")
            E.prove("elements are yielded in order, none left out or repeated", y.first == st['out'])
            st['out'] = y.last + 1
        E.prove("all elements are yielded", st['out'] == st['n'])
    return u


class All:
    def __contains__(self, x):
        return True


for _c in (False, True):
    for _p in (False, True):
        unit('C21', 'build_tree' + (', placing an element' if _p else '') + (', with comments' if _c else ''), functions=['dom.element.build_tree'], random_runs=0)(build_proof(_c, _p))


# ---------------------------------------------------------------- real elements (bounded)

def gen(rng):
    """Types: each with signatures; a list of elements, some with children."""
    n = rng.choice([2, 3, 4])
    types = []
    for i in range(n):
        k = rng.choice([0, 0, 1, 1, 2]) if i else 0
        types.append([[sorted(rng.sample(range(-1, n), rng.choice([1, 1, 2]))) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(k)])
    nodes = []
    for _ in range(rng.randint(0, rng.choice([3, 6, 12, 40]))):
        t = rng.randint(-1, n - 1)
        kids = [rng.randint(-1, n - 1) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        nodes.append((t, kids))
    return dict(types=types, nodes=nodes, comments=rng.random() < .7)


def group(nodes, needs, fits, comment):
    """Independent recursive grouping: yields (node, arguments)."""
    queue = list(nodes)         # (node, None) to be built, or (node, args) that is finished

    def take():
        n, args = queue.pop(0)
        if args is not None:
            return n, args
        sigs = needs(n)
        args = []
        while sigs and queue:
            m = queue[0][0]
            if comment(m):
                args.append(queue.pop(0))
                continue
            m = take()
            rest = [s[1:] for s in sigs if fits(m[0], s[0])]
            if not rest:
                queue.insert(0, m)
                break
            args.append(m)
            sigs = [s for s in rest if s]
        return n, args
    while queue:
        yield take()


@bounded('C21', 'real elements', gen=gen, quick=6000, thorough=300000, seconds=60, functions=['dom.element.build_tree', 'dom.element.Element.add_argument'],
         rule='random element types and signatures, random lists of elements (with and without children and comments), compared with an independent recursive grouping')
def b_real(M, c):
    El, B = M.get('quickly.dom.element'), M.get('quickly.dom.base')
    classes = {}

    class X(El.Element):
        pass
    classes[-1] = B.Comment if c['comments'] else type('C', (X,), {})
    for i, sigs in enumerate(c['types']):
        classes[i] = type('T%d' % i, (X,), {})
    for i, sigs in enumerate(c['types']):
        if sigs:
            def signatures(self, sigs=sigs):
                return [tuple(classes[k[0]] if len(k) == 1 else tuple(classes[j] for j in k) for k in s) for s in sigs]
            classes[i].signatures = signatures
    make = lambda t: classes[t]('x') if t == -1 and c['comments'] else classes[t]()
    nodes = []
    for t, kids in c['nodes']:
        n = make(t)
        if t >= 0:
            n.extend(make(k) for k in kids)
        nodes.append(n)
    own = [list(n) for n in nodes]
    index = {id(n): i for i, n in enumerate(nodes)}
    isc = lambda n: c['comments'] and isinstance(n, B.Comment)

    def needs(i):
        n = nodes[i]
        sigs = list(n.signatures())
        for k in own[i]:
            if not isc(k):
                sigs = [s[1:] for s in sigs if isinstance(k, s[0]) and len(s) > 1]
        return sigs
    want = list(group([(i, None) for i in range(len(nodes))], needs, lambda i, t: isinstance(nodes[i], t), lambda i: isc(nodes[i])))
    got = list(El.build_tree(iter(nodes), B.Comment) if c['comments'] else El.build_tree(iter(nodes)))

    def tree(n):
        i = index.get(id(n))
        check(i is not None, "an unknown element in the result")
        check(len(n) >= len(own[i]) and all(a is b for a, b in zip(n, own[i])), "the children of an element changed: %r", n)
        rest = list(n)[len(own[i]):]
        check(all(k.parent is n for k in rest), "wrong parent in %r", n)
        return i, [tree(k) for k in rest]

    def norm(x):
        return x[0], [norm(a) if a[1] is not None else (a[0], []) for a in x[1]]
    trees = [tree(n) for n in got]
    flat = []
    def walk(t):
        flat.append(t[0])
        for k in t[1]:
            walk(k)
    for t in trees:
        walk(t)
    check(flat == list(range(len(nodes))), "elements lost, repeated or out of order: %r of %d", flat, len(nodes))
    check(trees == [norm(w) for w in want], "grouped as %r instead of %r", trees, [norm(w) for w in want])
    return any(t[1] for t in trees)


def gen_doc(rng):
    from checks.lygen import Gen
    return dict(text=Gen(rng, max_depth=rng.choice([2, 3, 4])).document(rng.choice([2, 5])))


@bounded('C21', 'documents', gen=gen_doc, quick=1500, thorough=60000, seconds=60, functions=['dom.element.build_tree', 'dom.element.Element.add_argument', 'lang.lilypond.MusicBuilder.__iter__'],
         rule='random LilyPond documents: the tokens of the elements handed to build_tree are the tokens of its result, in order (also where an argument is converted)')
def b_docs(M, c):
    import io, contextlib
    El, R = M.get('quickly.dom.element'), M.get('quickly.dom.read')
    real = El.build_tree
    calls = []

    def tokens(nodes):
        out = []
        def walk(n):
            out.extend((t.pos, t.text) for t in getattr(n, 'head_origin', ()))
            for k in n:
                walk(k)
            out.extend((t.pos, t.text) for t in getattr(n, 'tail_origin', ()))
        for n in nodes:
            walk(n)
        return out

    def build_tree(nodes, ignore_type=None):
        nodes = list(nodes)
        before = tokens(nodes)
        result = list(real(iter(nodes), ignore_type))
        calls.append((before, tokens(result), len(nodes), len(result)))
        return iter(result)
    out = io.StringIO()
    El.build_tree = build_tree
    try:
        with contextlib.redirect_stdout(out):
            R.lily_document(c['text'], True)
    finally:
        El.build_tree = real
    if out.getvalue():
        return False
    for before, after, n, m in calls:
        check(before == after, "tokens %r became %r: %r", before, after, c['text'])
    return any(n > m for _, _, n, m in calls)

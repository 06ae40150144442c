"""C22: the other end of a slur, beam or other spanner."""
import random
from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check

LEVEL = 'proof'
NOTE = ('Proved for each kind of spanner, each direction and any surroundings: the search goes forward from a start and backward from a stop, through the nearest surrounding assignment, \\new, score or document and '
        'not outside of it, every element that is passed by is not the other end (another kind, the same direction, another spanner id, or only one of both has an id), and what is returned is; nothing is returned only if '
        'all elements (or, with a limit, that many) were looked at. The elements are abstract, their number is unbounded (one element is decided on like any other: induction over the elements passed); limits up to 2. '
        'That forward() and backward() visit every element in order is C10. Random documents are compared with an independent search through the flattened document (bounded).')
ASSUMPTIONS = ['Node.forward(), Node.backward() and << yield the elements as C10 says',
               'Node.equals() is an equality of the spanner ids (C10)',
               'filter() and itertools.islice()']

preload = ['quickly.dom.lily']

KINDS = ['Slur', 'PhrasingSlur', 'Beam', 'Ligature', 'TextSpanner', 'TrillSpanner', 'Melisma']


def other_end(E, kind):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    cls = getattr(L, kind)
    other = L.Beam if kind != 'Beam' else L.Slur
    head = E.choice('head', ['start', 'stop'])
    with_id = E.choice('spanner id', [False, True])
    limit = E.choice('limit', [0, 1, 2])
    inside = E.choice('inside', [True, False])
    st = dict(seen=[], ended=False)

    class Ghost:
        def __pv_isinstance__(self, t):
            return any(issubclass(self.typ, x) for x in (t if isinstance(t, tuple) else (t,)))

        def __pv_type__(self):
            return self.typ

        def __bool__(self):
            return True

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise core.Unsupported("attribute " + name)

    class Id(Ghost):
        typ = L.Int

        def __init__(self, value):
            self.value = value

        def equals(self, n):
            if not isinstance(n, Id):
                raise core.Unsupported("comparing an id with something else")
            return self.value == n.value

        def __eq__(self, n):
            if n is None or n is self:
                return n is self
            raise core.Unsupported("comparing ids")
        __hash__ = object.__hash__

    class Parent(Ghost):
        def __init__(self, typ):
            self.typ = typ

    class Upto(Ghost):
        typ = L.New

    class Spanner(Ghost):
        def __init__(self, typ, head, sid):
            self.typ, self.head = typ, head
            self.sid = sid
            self.parent = Parent(L.Articulations if sid is None else L.SpannerId)

        def left_sibling(self):
            if self.sid is None:
                raise core.Unsupported("what precedes a spanner without id")
            return self.sid

    class Note(Ghost):
        typ = L.Note
        head = 'c'
        parent = Parent(L.MusicList)

    opposite = 'stop' if head == 'start' else 'start'

    class Nodes:
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            seen = st['seen']
            if seen:
                E.prove("an element that is passed by is not the other end", not seen[-1].match)
                if not limit and len(seen) == 2:
                    E.assume(False)     # the same situation: induction
            if limit:
                E.prove("the limit is respected", len(seen) < limit)
            k = E.choice('element %d' % len(seen), ['end', 'match', 'direction', 'kind', 'id', 'only one has an id', 'another element'])
            if k == 'end':
                st['ended'] = True
                raise StopIteration
            sid = Id('a') if with_id else None
            if k == 'match':
                n = Spanner(cls, opposite, sid)
            elif k == 'direction':
                n = Spanner(cls, head, sid)
            elif k == 'kind':
                n = Spanner(other, opposite, sid)
            elif k == 'id':
                if not with_id:
                    E.assume(False)
                n = Spanner(cls, opposite, Id('b'))
            elif k == 'only one has an id':
                n = Spanner(cls, opposite, None if with_id else Id('a'))
            else:
                n = Note()
            n.match = k == 'match'
            seen.append(n)
            return n

    upto = Upto()

    class Self(Spanner):
        def __lshift__(self, types):
            types = types if isinstance(types, tuple) else (types,)
            E.prove("the search stays in the assignment, \\new, score or document", set(types) == {L.Assignment, L.New, L.Document, L.Score})
            return iter([upto, Upto()] if inside else [])

        def go(self, direction, limit):
            E.prove("searches forward from a start, backward from a stop", direction == (head == 'start'))
            E.prove("searches in what surrounds the spanner", limit is (upto if inside else None))
            return Nodes()

        def forward(self, upto=None):
            return self.go(True, upto)

        def backward(self, upto=None):
            return self.go(False, upto)

    E.cover("precondition")
    me = Self(cls, head, Id('a') if with_id else None)
    found = L.Spanner.find_parallel(me, limit) if limit else L.Spanner.find_parallel(me)
    seen = st['seen']
    if found is None:
        E.prove("nothing is found only if all elements were looked at", st['ended'] or limit and len(seen) == limit)
        E.prove("nothing is found if there is none", not any(n.match for n in seen))
    else:
        E.prove("what is found is the other end", bool(seen) and found is seen[-1] and found.match)


for _k in KINDS:
    def _mk(kind):
        @unit('C22', 'the other end of a %s' % kind, functions=['dom.lily.Spanner.find_parallel'], random_runs=0)
        def u(E):
            other_end(E, kind)
    _mk(_k)


# ---------------------------------------------------------------- documents (bounded)

MARKS = [('(', ')'), ('\\(', '\\)'), ('[', ']'), ('\\startTextSpan', '\\stopTextSpan'), ('\\startTrillSpan', '\\stopTrillSpan')]
EVENTS = [('\\[', '\\]'), ('\\melisma', '\\melismaEnd')]


def gen(rng):
    def note(depth):
        k = rng.random()
        if k < .12 and depth:
            return '{ ' + music(depth - 1) + ' }'
        if k < .2 and depth:
            return '\\new %s { %s }' % (rng.choice(['Staff', 'Voice']), music(depth - 1))
        if k < .25 and depth:
            return '<< ' + music(depth - 1) + ' >>'
        if k < .33:
            return rng.choice(rng.choice(EVENTS))
        if k < .4:
            t = '<' + ' '.join(rng.choice('cdefg') + marks(.4) for _ in range(rng.randint(1, 3))) + '>' + rng.choice(['', '4'])
        else:
            t = rng.choice('cdefgab') + rng.choice(['', '', '4', "'8."])
        return t + marks(.6)

    def marks(p):
        t = ''
        while rng.random() < p:
            m = rng.choice(rng.choice(MARKS[:3] if rng.random() < .8 else MARKS))
            if m[-1] in '()' and rng.random() < .4:
                m = '\\=' + rng.choice(['1', '2', '12', '0', '"x"', '"y"', '""', '#\'a', '#1']) + m
            t += rng.choice(['', '', '-', '^', '_']) + m
            p *= .6
            if m.startswith('\\s'):
                break
        return t

    def music(depth):
        return ' '.join(note(depth) for _ in range(rng.randint(1, 7)))

    parts = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        m = '{ ' + music(2) + ' }'
        parts.append('x%s = %s' % (rng.choice('abc'), m) if k < .3 else '\\score { %s \\layout { } }' % m if k < .5 else '\\new Staff ' + m if k < .6 else m)
    return dict(text='\n'.join(parts), limit=rng.choice([1, 2, 3, 5, 10, 30]))


@bounded('C22', 'documents with spanners', gen=gen, quick=4000, thorough=200000, seconds=60, functions=['dom.lily.Spanner.find_parallel'],
         rule='random documents with slurs, beams and other spanners, with and without ids, nested in contexts, scores and assignments: the other end of each is compared with a search through the flattened document')
def b_docs(M, c):
    import io, contextlib
    L, read = M.get('quickly.dom.lily'), M.get('quickly.dom.read')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        d = read.lily_document(c['text'])
    if out.getvalue():
        return False
    order = []
    scopes = {}

    def key(n):
        return (type(n).__name__, getattr(n, 'head', None), tuple(key(k) for k in n))

    def walk(n, scope):
        start = len(order)
        order.append(n)
        index[id(n)] = start
        scopes[id(n)] = scope
        inner = n if type(n).__name__ in ('Assignment', 'New', 'Score', 'Document') else scope
        for k in n:
            walk(k, inner)
        ends[id(n)] = len(order)
    index, ends = {}, {}
    walk(d, None)
    before = (key(d), [id(n) for n in order])

    def sid(n):
        if type(n.parent).__name__ != 'SpannerId':
            return None
        return key(list(n.parent)[0]) if len(n.parent) == 2 else 'malformed'
    spanners = [n for n in order if type(n).__name__ in KINDS]
    if any(sid(n) == 'malformed' for n in spanners):
        return False
    count = 0
    for n in spanners:
        scope = scopes[id(n)]
        i = index[id(n)]
        seq = order[i + 1:ends[id(scope)]] if n.head == 'start' else order[index[id(scope)] + 1:i][::-1]
        want = next((m for m in seq if type(m) is type(n) and m.head != n.head and sid(m) == sid(n)), None)
        got = n.find_parallel()
        check(got is want, "%r: the other end of %s %d is %s, should be %s", c['text'], n, spanners.index(n),
              got is not None and spanners.index(got), want is not None and spanners.index(want))
        count += want is not None
        got = n.find_parallel(c['limit'])
        if n.head == 'start':
            # (backward, elements may be counted in any order of parents and children)
            want = next((m for m in seq[:c['limit']] if type(m) is type(n) and m.head != n.head and sid(m) == sid(n)), None)
            check(got is want, "%r: the other end of %s %d, limited to %d, is %s", c['text'], n, spanners.index(n), c['limit'], got)
        else:
            check(got is None or got is want, "%r: the other end of %s %d, limited to %d, is %s", c['text'], n, spanners.index(n), c['limit'], got)
    check((key(d), [id(n) for n in order]) == before, "the document was changed")
    return count > 0

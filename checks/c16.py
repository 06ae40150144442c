"""C16: whitespace requests and indenting."""
from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec
from checks.lygen import Gen

LEVEL = 'proof'
NOTE = ('Proved: collapsing gives one of the requests, and none is wider (any number of requests, builtin max by its documentation), grouped or not; combine_text keeps every text in order and writes between two '
        'texts the widest of everything requested between them, for any number of fragments, grouped or not; Element.points hands every text and every request of an element and all its children on, in order '
        '(induction over the tree); what one element requests (_SpaceProperty); the bookkeeping of indent levels (Indenter) keeps the column of every open level and closes exactly the levels that are left, for any number of levels. '
        'That a whole document is written, indented and indented again as stated is checked at run time on random documents, random whitespace wishes and random trees (bounded).')
ASSUMPTIONS = ['whitespace requests consist of newlines and spaces', 'builtin max(iterable, key=..., default=...) returns the first element with the greatest key']


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


def fresh_bool(E, name):
    return core.SBool(E.fresh_int(name) > 0)


class All:
    def __contains__(self, x):
        return True


# ---------------------------------------------------------------- collapsing requests (proof)

class Space:
    """Ghost: a string of any number of newlines and spaces."""
    def __init__(self, E, name):
        self.E, self.name = E, name
        self.nl, self.sp = E.int(name + ' newlines', 0), E.int(name + ' spaces', 0)

    def count(self, c):
        if c == '\n':
            return self.nl
        if c == ' ':
            return self.sp
        raise core.Unsupported("count(%r)" % (c,))

    def __getattr__(self, n):
        if n.startswith('__pv_'):
            raise AttributeError(n)
        raise core.Unsupported("whitespace attribute %s" % n)

    def at_least(self, other):
        E = self.E
        return E.Or(self.nl > other.nl, E.And(self.nl == other.nl, self.sp >= other.sp))


@unit('C16', 'collapsing any number of requests', functions=['dom.util.collapse_whitespace', 'dom.util.whitespace_key'], random_runs=0)
def u_collapse(E):
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    m, w = Space(E, 'result'), Space(E, 'any request')
    empty = E.choice('requests', ['none', 'some']) == 'none'
    earlier = E.choice('the other request', ['earlier', 'later']) == 'earlier'

    class Requests:
        def __pv_max__(self, key=None, default=None):
            if empty:
                return default
            if key is None:
                raise core.Unsupported("max without key")
            a, b = key(m), key(w)
            E.assume(a > b if earlier else a >= b)
            return m

        def __iter__(self):
            raise core.Unsupported("requests iterated")
        __pv_iter__ = __iter__
    E.cover("precondition")
    r = U.collapse_whitespace(Requests())
    if empty:
        E.prove("nothing requested", r == '')
        return
    E.prove("one of the requests is returned", r is m)
    E.prove("no request has more newlines, or as many and more spaces", m.at_least(w))


@unit('C16', 'collapsing grouped requests', functions=['dom.util.collapse_whitespace', 'dom.util.whitespace_key'], random_runs=0)
def u_group(E):
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    a, b, c = Space(E, 'a'), Space(E, 'b'), Space(E, 'c')
    f = U.collapse_whitespace
    E.cover("precondition")
    x = f([a, b, c])
    E.prove("grouping the first two makes no difference", f([f([a, b]), c]) is x)
    E.prove("grouping the last two makes no difference", f([a, f([b, c])]) is x)
    E.prove("it is one of the requests, and none is wider", E.And(x is a or x is b or x is c, x.at_least(a), x.at_least(b), x.at_least(c)))


# ---------------------------------------------------------------- combining texts (proof)

class Piece:
    """Ghost: a request, a text, or several (a tuple of parts). Requests are ('s', name), texts ('t', name)."""
    def __init__(self, *parts, truth=True):
        self.parts, self.truth = parts, truth

    def __bool__(self):
        return bool(self.truth)

    def __pv_join__(self, sep, parts):
        if sep:
            raise core.Unsupported("join with %r" % sep)
        return join(parts)

    def __getattr__(self, n):
        if n.startswith('__pv_'):
            raise AttributeError(n)
        raise core.Unsupported("text attribute %s" % n)


def parts(x):
    if isinstance(x, str):
        if x:
            raise core.Unsupported("text %r" % x)
        return ()
    if not isinstance(x, Piece):
        raise core.Unsupported("text %r" % (x,))
    return x.parts


def join(ps):
    return Piece(*(q for p in ps for q in parts(p)))


def widest(ps):
    """Contract of collapse_whitespace: requests may be grouped, the empty one makes no difference."""
    out = []
    for p in core_iter(ps):
        for q in parts(p):
            if q[0] == 'w':
                out.extend(q[1])
            elif q[0] == 's':
                out.append(q)
            else:
                raise core.Unsupported("text as whitespace")
    return Piece(('w', tuple(out))) if out else ''


def core_iter(x):
    from pyvc.instr import citer
    return citer(x)


def norm(x):
    """Parts, with a single request as the widest of one."""
    return tuple(('w', (q,)) if q[0] == 's' else q for q in parts(x))


def S(name):
    return Piece(('s', name))


def combine_spec(frags):
    """Texts with the widest of all requests between them."""
    out, ws = [], []
    for b, t, a in frags:
        ws.append(b)
        if t:
            out.append(widest(ws))
            out.append(t)
            ws = []
        ws.append(a)
    return norm(join(out[:1])), norm(join(out[1:])), norm(widest(ws))


@unit('C16', 'combining any number of texts', functions=['dom.util.combine_text'], random_runs=0)
def u_combine(E):
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    E.patch(U, 'collapse_whitespace', widest)
    E.ghost['local_objects'] = All()
    st = dict(frag=None, result=None, ws=None)

    class Fragments:
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            k = E.choice('next', ['end', 'text', 'empty'])
            if k == 'end':
                st['frag'] = None
                raise StopIteration
            t = Piece(('t', 'text')) if k == 'text' else ''
            st['frag'] = S('before'), t, S('after')
            return st['frag']
    frags = Fragments()

    def lists(loc):
        for n in ('result', 'whitespace'):
            if not isinstance(loc.get(n), list):
                raise core.Unsupported("no list %s" % n)
        return loc['result'], loc['whitespace']

    def inv(loc):
        result, ws = lists(loc)
        f = st['frag']
        if f is None:
            if st['result'] is None:
                return [("nothing at the start", not result and not ws)]
            return []
        b, t, a = f
        old, oldws = st['result'], st['ws']
        if t:
            new, rest = old + [widest(oldws + [b]), t], [a]
        else:
            new, rest = old, oldws + [b, a]
        return [("texts are added in order, with the widest request since the last text before them", [norm(x) for x in result if x] == [norm(x) for x in new if x] and len(result) == len(new)),
                ("the requests since the last text are kept", norm(widest(ws)) == norm(widest(rest)))]

    def havoc(loc):
        result, ws = lists(loc)
        result[:] = E.choice('texts so far', [[], [S('first'), Piece(('t', 'rest'))]])
        ws[:] = E.choice('requests so far', [[], [S('pending')]])
        st['result'], st['ws'], st['frag'] = list(result), list(ws), None
    E.loop(LoopSpec("fragments", lambda site, loc: loc.get('__it__') is frags, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = U.combine_text(frags)
    old, ws = st['result'], st['ws']
    ok = isinstance(r, tuple) and len(r) == 3
    E.prove("what was requested before the first text is kept apart", ok and norm(r[0]) == norm(join(old[:1])))
    E.prove("all texts and the whitespace between them", ok and norm(r[1]) == norm(join(old[1:])))
    E.prove("what was requested after the last text is kept", ok and norm(r[2]) == norm(widest(ws)))


@unit('C16', 'combining grouped texts', functions=['dom.util.combine_text'], random_runs=0)
def u_combine_group(E):
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    E.patch(U, 'collapse_whitespace', widest)
    n = E.choice('number of texts', [0, 1, 2, 3, 4])
    frags = [(S('before%d' % i), Piece(('t', 'text%d' % i)) if E.choice('text %d' % i, [True, False]) else '', S('after%d' % i)) for i in range(n)]
    i = E.choice('group start', range(n + 1))
    j = E.choice('group end', range(n + 1))
    E.assume(i <= j)
    E.cover("precondition")
    all_ = U.combine_text(iter(frags))
    E.prove("texts and widest requests", tuple(norm(x) for x in all_) == combine_spec(frags))
    group = U.combine_text(frags[i:j])
    both = U.combine_text(frags[:i] + [group] + frags[j:])
    E.prove("combining a group first makes no difference", tuple(norm(x) for x in both) == tuple(norm(x) for x in all_))


# ---------------------------------------------------------------- the wishes of one element (proof)

@unit('C16', 'wishes of one element', functions=['dom.element._SpaceProperty.__get__', 'dom.element._SpaceProperty.__set__', 'dom.element._SpaceProperty.__delete__', 'dom.element.Element._spacing'], random_runs=0)
def u_wishes(E):
    """For every history of setting and deleting: all states an element can get
    in are found (from every state, every operation), and in every one each
    property has the value last given to it, or its default."""
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    E.assumed("the value of a spacing property is only compared with its default (two other values, and two of the five properties, stand for all)")
    names = E.choice('properties', [('space_before', 'space_after'), ('space_between', 'space_before'), ('space_after_head', 'space_before_tail')])

    class G(El.Element):
        space_before = space_between = space_after_head = 'd'
        space_after = space_before_tail = ''
    default = {n: getattr(G(), n) for n in names}
    values = ['', 'd', 'x']
    E.prove("the defaults", default == {n: 'd' if n in ('space_before', 'space_between', 'space_after_head') else '' for n in names})

    def state(path):
        g, want = G(), dict(default)
        for n, v in path:
            if v is None:
                delattr(g, n)
                want[n] = default[n]
            else:
                setattr(g, n, v)
                want[n] = v
        return g, want
    seen, todo, good, spacing = {}, [()], True, True
    while todo:
        path = todo.pop()
        g, want = state(path)
        good = good and all(getattr(g, n) == want[n] for n in names)
        h = g.copy()
        spacing = spacing and all(getattr(h, n) == want[n] for n in names)
        d = getattr(g, '_space', None)
        if d is not None and not isinstance(d, dict):
            raise core.Unsupported("the wishes are not in a dict")
        key = (None if d is None else tuple(d.items()), tuple(want.items()))
        if key in seen:
            continue
        seen[key] = path
        if len(seen) > 500:
            raise core.Unsupported("too many states")
        if good:
            todo += [path + ((n, v),) for n in names for v in values + [None]]
    if all(k[0] is None for k in seen):
        raise core.Unsupported("the wishes are not in a dict")
    E.cover("histories")
    E.prove("every property has the value last given to it, or its default", good)
    E.prove("a copy gets the same wishes", spacing)
    E.prove("more than one state", len(seen) > 8)
    other = G()
    E.prove("other elements keep theirs", all(getattr(other, n) == default[n] for n in names))


# ---------------------------------------------------------------- points of a tree (proof)

@unit('C16', 'whitespace wishes between the texts of an element', functions=['dom.element.Element.points'], random_runs=0)
def u_points(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    if not hasattr(El.Element, '_points'):
        raise core.Unsupported("no _points")
    E.patch(El, 'collapse_whitespace', widest)
    E.ghost['local_objects'] = All()
    st = dict(last=None, ws=[], piece=None, ys=[])

    class Wish(str):
        """A request that is a str, and a ghost."""
    def wish(name):
        w = Wish()
        w.parts = (('s', name),)
        return w

    def point(name):
        return El.Point(name + '.pos', name + '.end', name + '.text', name + '.modified', S(name + ' before'), S(name + ' after'))

    class Pieces:
        n = 0

        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            k = E.choice('next', ['end', 'wish', 'point'])
            if k == 'end':
                st['piece'] = None
                raise StopIteration
            st['ys'] = []
            st['piece'] = wish('wish') if k == 'wish' else point('new')
            return st['piece']
    pieces = Pieces()
    global parts

    class G(El.Element):
        def _points(self):
            return pieces

    real_parts = parts

    def same(p, q):
        return isinstance(p, El.Point) and p[:4] == q[:4]

    def names(loc):
        if 'last' not in loc or not isinstance(loc.get('spaces'), list):
            raise core.Unsupported("no last, spaces")
        return loc['last'], loc['spaces']

    def wishes(l):
        return norm_all(widest([x if isinstance(x, Piece) else Piece(*getattr(x, 'parts', ())) for x in l]))

    def norm_all(x):
        return frozenset(norm(x)[0][1]) if parts(x) else frozenset()

    def inv(loc):
        last, spaces = names(loc)
        p, ys = st['piece'], st['ys']
        if p is None and st['last'] == 'entry':
            return [("start", last is None and not spaces)]
        if p is None:
            return []
        old, ws = st['last'], st['ws']
        if isinstance(p, str):
            return [("a wish is kept until the next text", last is old and wishes(spaces) == wishes(ws + [p]) and not ys)]
        out = [("the wishes are handed over", not spaces), ("the text itself is not changed", same(last, p))]
        if old is None:
            out.append(("wishes before the first text are kept", E.And(not ys, wishes([last.space_before]) == wishes(ws + [p.space_before]), last.space_after is p.space_after)))
        else:
            out.append(("the previous text is handed out once", len(ys) == 1 and same(ys[0], old)))
            out.append(("with all wishes between the texts", len(ys) == 1 and wishes([ys[0].space_after, last.space_before]) == wishes([old.space_after] + ws + [p.space_before])
                        and ys[0].space_before is old.space_before and last.space_after is p.space_after))
        return out

    def havoc(loc):
        last, spaces = names(loc)
        loc['last'] = st['last'] = E.choice('text before', [None, 'some']) and point('last')
        spaces[:] = E.choice('wishes so far', [[], [S('earlier')]])
        st['ws'] = list(spaces)
        st['piece'] = None

    def widest_(ps):
        return widest([x if isinstance(x, Piece) or not getattr(x, 'parts', None) else Piece(*x.parts) for x in core_iter(ps)])
    E.patch(El, 'collapse_whitespace', widest_)
    st['last'] = 'entry'
    E.loop(LoopSpec("pieces", lambda site, loc: loc.get('__it__') is pieces, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    for y in El.Element.points(G()):
        st['ys'].append(y)
    old = st['last']
    st_ys = st['ys']
    if old is None:
        E.prove("no text, no points", not st_ys)
    else:
        E.prove("the last text is handed out", len(st_ys) == 1 and same(st_ys[0], old))
        E.prove("with the wishes after it", len(st_ys) == 1 and wishes([st_ys[0].space_after]) == wishes([old.space_after] + st['ws']) and st_ys[0].space_before is old.space_before)


@unit('C16', 'pieces of an element', functions=['dom.element.Element._points'], random_runs=0)
def u_pieces(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    if not hasattr(El.Element, '_points'):
        raise core.Unsupported("no _points")
    E.ghost['local_objects'] = All()
    head = E.choice('head', [None, 'head point'])
    tail = E.choice('tail', [None, 'tail point'])
    st = dict(prev=None, n=None, ys=[], state='entry')

    class Child:
        def __init__(self, name):
            self.name = name

        def _points(self):
            yield 'texts of', self

        def __getattr__(self, n):
            if n.startswith('__pv_'):
                raise AttributeError(n)
            raise core.Unsupported("child attribute %s" % n)

    class It:
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            st['ys'] = []
            if E.choice('next', ['end', 'child']) == 'end':
                st['n'] = None
                st['state'] = 'end'
                raise StopIteration
            st['n'] = Child('child')
            return st['n']
    it = It()

    class G(El.Element):
        space_before, space_after = 'before', 'after'

        def head_point(self):
            return head

        def tail_point(self):
            return tail

        def concat_space(self, a, b):
            return 'between', a, b

        def __pv_iter__(self):
            return it

        def __pv_len__(self):
            raise core.Unsupported("len")

        def __pv_getitem__(self, i):
            raise core.Unsupported("index")
        __pv_getslice__ = __pv_getitem__

    def inv(loc):
        if 'prev' not in loc:
            raise core.Unsupported("no prev")
        n = st['n']
        if st['state'] == 'entry':
            return [("first the text of the head, or the wish before it", loc['prev'] is None and st['ys'] == [head or 'before'])]
        if n is None:
            return []
        return [("the wish between the children, then all texts of the child",
                 loc['prev'] is n and st['ys'] == ([('between', st['prev'], n)] if st['prev'] else []) + [('texts of', n)])]

    def havoc(loc):
        loc['prev'] = st['prev'] = E.choice('child before', [None, 'some']) and Child('previous')
        st['state'] = 'loop'
        st['n'] = None
    E.loop(LoopSpec("children", lambda site, loc: loc.get('__it__') is it, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    for y in El.Element._points(G()):
        st['ys'].append(y)
    E.prove("last the text of the tail, or the wish after it", st['ys'] == [tail or 'after'])


# ---------------------------------------------------------------- indent levels (proof)

class Levels:
    """Ghost list of the columns of indent levels: an unknown number, one of which (number k) is told apart.

    Supports what a stack supports: append, the last one, deleting the last ones.
    """
    def __init__(self, E, n, k, col):
        self.E, self.n, self.k, self.col = E, n, k, col
        self.top = None         # column of the last one, if it was appended here

    def __pv_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def at(self, i):
        """The column of number i."""
        E = self.E
        if bool(i == self.k):
            return self.col
        if self.top is not None and bool(i == self.n - 1):
            return self.top
        return fresh(E, 'column')

    def __getitem__(self, i):
        E = self.E
        if isinstance(i, slice):
            raise core.Unsupported("slice of the levels")
        i = E.ite(i < 0, i + self.n, i) if not isinstance(i, int) else (i if i >= 0 else self.n + i)
        if not bool(E.And(i >= 0, i < self.n)):
            raise IndexError
        return self.at(i)
    __pv_getitem__ = __getitem__

    def append(self, x):
        i = self.n
        self.n = self.n + 1
        self.top = x
        if bool(self.k == i):
            self.col = x

    def __delitem__(self, i):
        E = self.E
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None or i.start is None:
                raise core.Unsupported("deleting levels")
            a = i.start
            a = E.ite(a < 0, a + self.n, a)
            a = E.ite(a < 0, 0, E.ite(a > self.n, self.n, a))
            if bool(a < self.n):
                self.top = None
            self.n = a
            return
        i = E.ite(i < 0, i + self.n, i)
        if not bool(E.And(i >= 0, i < self.n)):
            raise IndexError
        self.top = None
        if bool(i <= self.k):
            self.k = -1 if bool(i == self.k) else self.k - 1
        self.n = self.n - 1
    __pv_getslice__ = __getitem__

    def __getattr__(self, n):
        if n.startswith('__pv_'):
            raise AttributeError(n)
        raise core.Unsupported("levels.%s" % n)


class Opened:
    """Ghost list of the levels opened in the current line."""
    def __init__(self, E, m):
        self.E, self.m = E, m
        self.last = None
        self.i = None
        self.level = None

    def __bool__(self):
        return bool(self.m > 0)

    def __pv_len__(self):
        return self.m

    def append(self, x):
        self.m = self.m + 1

    def pop(self, *a):
        if a or not bool(self.m > 0):
            raise core.Unsupported("pop")
        self.m = self.m - 1

    def clear(self):
        self.m = 0

    def __iter__(self):
        self.i = 0
        return self
    __pv_iter__ = __iter__

    def __next__(self):
        if bool(self.i >= self.m):
            raise StopIteration
        self.i = self.i + 1
        E = self.E

        class Level:
            def get_align_pos(self):
                return E.choice('aligned', [None, 'pos'])
        return Level()

    def __getitem__(self, i):
        raise core.Unsupported("opened levels")
    __pv_getitem__ = __getitem__


def indenter(E, I):
    """An Indenter in any state, with ghost lists; d open levels of which number k has column c (if it is assigned)."""
    x = I.Indenter.__new__(I.Indenter)
    x.indent_width, x.start_indent, x.max_align_indent = E.int('indent width', 0), E.int('start indent', 0), E.int('max align', 0)
    n, closed, opened = E.int('levels', 0), E.int('closed levels', 0), E.int('opened levels', 0)
    E.assume(closed <= n)
    k, c = E.int('level', 0), E.int('column', 0)
    x._indent_stack = Levels(E, n, k, c)
    x._dedenters = 0 - closed
    x._indenters = Opened(E, opened)
    x._can_dedent = fresh_bool(E, 'line starts with a tail')
    x._whitespace = []

    class Output:
        """Ghost: the lines."""
        def __init__(self):
            self.new = []

        def append(self, b):
            self.new.append(b)

        def __getitem__(self, i):
            if i != -1:
                raise core.Unsupported("lines")
            return self.new[-1] if self.new else self.old
        __pv_getitem__ = __getitem__

        class old:
            indent = 'old indent'
            line = None

            @staticmethod
            def offset(pos):
                r = fresh(E, 'offset')
                E.assume(r >= 0)
                return r
    x._output = Output()
    return x, n - closed, opened, k, c


def state(x):
    s, o = x._indent_stack, x._indenters
    if not isinstance(s, Levels) or not isinstance(o, Opened):
        raise core.Unsupported("other lists")
    return s.n + x._dedenters, o.m, s


@unit('C16', 'starting a new line', functions=['dom.indent.Indenter.create_new_block', 'dom.indent.Indenter.current_indent'], random_runs=0)
def u_block(E):
    I = E.mod('quickly.dom.indent')
    if not E.symbolic:
        return
    x, d, m, k, c = indenter(E, I)
    E.ghost['local_objects'] = All()
    s = x._indent_stack
    st = dict(cols=None)

    class Block:
        def __init__(self, indent):
            self.indent, self.line = indent, []
    E.patch(I, '_Block', Block)

    def inv(loc):
        i = x._indenters.i
        return [("one level per opened element, in order", s.n == d + (0 if i is None else i)),
                ("the columns of the levels that were open are kept", E.Implies(k < d, E.And(s.k == k, s.col == c)))]

    def havoc(loc):
        if 'new_indent' in loc:
            loc['new_indent'] = fresh(E, 'new indent')
        x._indenters.i = fresh(E, 'i')
        E.assume(x._indenters.i >= 0)
        E.assume(x._indenters.i <= m)
        s.n = fresh(E, 'number of levels')
        s.top = None
        # the level told apart may have been opened in between
        s.k, s.col = E.ite(k < d, k, k), E.ite(k < d, c, fresh(E, 'its column'))
    E.loop(LoopSpec("opened levels", lambda site, loc: loc.get('__it__') is x._indenters, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    x.create_new_block()
    d2, m2, s2 = state(x)
    E.prove("no level is lost or added", d2 + m2 == d + m)
    E.prove("closed levels are removed, opened ones have a column", E.And(x._dedenters == 0, m2 == 0))
    E.prove("a level that was open keeps its column", E.Implies(k < d, E.And(s2.k == k, s2.col == c)))
    E.prove("one line is started", len(x._output.new) == 1)
    b = x._output.new[-1] if x._output.new else None
    E.prove("a line in the innermost level gets its column", E.Implies(E.And(k == s2.n - 1, k < d), b is not None and b.indent == c))
    E.prove("a line outside all levels starts at the left", E.Implies(d2 == 0, b is not None and b.indent == x.start_indent))


@unit('C16', 'entering and leaving a level', functions=['dom.indent.Indenter.enter_indent', 'dom.indent.Indenter.leave_indent'], random_runs=0)
def u_levels(E):
    I = E.mod('quickly.dom.indent')
    if not E.symbolic:
        return
    E.patch(I, '_IndentLevel', lambda node: 'level')
    x, d, m, k, c = indenter(E, I)
    E.cover("precondition")
    if E.choice('operation', ['enter', 'leave']) == 'enter':
        x.enter_indent('node')
        d2, m2, s = state(x)
        E.prove("one more level", E.And(d2 == d, m2 == m + 1))
    else:
        E.assume(d + m > 0)
        x.leave_indent()
        d2, m2, s = state(x)
        E.prove("the innermost level is left", E.And(d2 + m2 == d + m - 1, E.Implies(m > 0, d2 == d)))
    E.prove("nothing else changes", E.And(s.k == k, s.col == c, not x._output.new))


@unit('C16', 'writing texts', functions=['dom.indent.Indenter.output_head', 'dom.indent.Indenter.output_tail', 'dom.indent.Indenter.output_space', 'dom.indent.Indenter.add_whitespace'], random_runs=0)
def u_texts(E):
    I = E.mod('quickly.dom.indent')
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    x, d, m, k, c = indenter(E, I)
    E.ghost['local_objects'] = All()

    class Block:
        def __init__(self, indent):
            self.indent, self.line = indent, []

    first = E.choice('line so far', ['empty', 'text'])
    blk = Block(E.int('indent'))
    blk.line.extend(['text so far'] if first == 'text' else [])
    x._output.new.append(blk)
    x._indenters.align_indices = ()
    x._whitespace = list(E.choice('earlier requests', [[], ['one']]))
    x.add_whitespace('two')
    E.prove("a request is added to the others", x._whitespace[-1:] == ['two'] and len(x._whitespace) in (1, 2))
    space = E.choice('widest', ['', ' ', '\n', '\n\n', '  ', '\n '])
    asked = list(x._whitespace)

    def collapse(ws):
        E.prove("all requests are taken into account", list(ws) == asked)
        return space
    E.patch(U, 'collapse_whitespace', collapse)

    def create_new_block():
        # contract, proved for create_new_block
        s = x._indent_stack
        open_ = s.n + x._dedenters
        s.top = None
        s.n = open_ + x._indenters.m
        x._dedenters = 0
        x._indenters.m = 0
        b = Block(fresh(E, 'new line indent'))
        b.expected = (s.n, b.indent)
        E.assume(E.Implies(E.And(k < d, k == s.n - 1), b.indent == c))
        E.assume(E.Implies(s.n == 0, b.indent == x.start_indent))
        x._can_dedent = s.n > 0
        x._output.append(b)
    x.create_new_block = create_new_block
    override = E.choice('override', [None, 0])
    kind = E.choice('text', ['head', 'tail'])

    class Last:
        align_indices = ()
    E.patch(Opened, '__getitem__', lambda self, i: Last)
    E.patch(Opened, '__pv_getitem__', lambda self, i: Last)
    before = blk.indent
    E.cover("precondition")
    if kind == 'head':
        x.output_head('TEXT', 0, override)
    else:
        x.output_tail('TEXT')
    lines = x._output.new
    E.prove("requests are used once", not x._whitespace)
    newlines, blanks = space.count('\n'), space.count(' ')
    E.prove("a new line for every newline", len(lines) == 1 + newlines)
    written = ''.join('\n' * (i > 0) + ''.join(b.line) for i, b in enumerate(lines))
    E.prove("exactly the widest request, then the text, is written", written == ('text so far' if first == 'text' else '') + space + 'TEXT')
    d2, m2, s = state(x)
    E.prove("no level is lost or added", d2 + m2 == d + m)
    E.prove("a level that is still open keeps its column", E.Implies(E.And(k < d, k < s.n), E.And(s.k == k, s.col == c)))
    b = lines[-1]
    start = space[-1:] == '\n' or (newlines == 0 and first == 'empty' and not blanks)
    if kind == 'head':
        E.prove("a head forbids dedenting the line", E.Not(x._can_dedent))
        if newlines and override is None:
            E.prove("the line of a head has the column of its level", b.indent == b.expected[1])
    elif newlines:
        E.prove("the line of a tail has the column of its level", E.Implies(E.And(k < d, k == s.n - 1), b.indent == c))
    else:
        # a closing text in a line of closing texts
        E.prove("a line that starts with tails ends up in the column of the level of the last one",
                E.Or(b.indent == before, E.And(x._dedenters == 0, E.Implies(E.And(k < d, k == s.n - 1), b.indent == c), E.Implies(s.n == 0, b.indent == x.start_indent))))


# ---------------------------------------------------------------- documents and trees (bounded)

def width(s):
    return s.count('\n'), s.count(' ')


def widest_str(ws):
    return max(ws, key=width, default='')


def wishes(n):
    """Texts (tuples) and requests (strings) of a node, from its spacing attributes."""
    yield n.space_before
    head, tail = n.write_head(), n.write_tail()
    if head:
        yield head,
        if tail or len(n):
            yield n.space_after_head
    prev = None
    for k in n:
        if prev is not None:
            yield n.concat_space(prev, k)
        yield from wishes(k)
        prev = k
    if tail:
        yield n.space_before_tail
        yield tail,
    yield n.space_after


def pieces(x):
    """(whitespace, text) pairs; the first whitespace is ''."""
    out, ws = [], []
    for p in wishes(x):
        if isinstance(p, tuple):
            out.append((widest_str(ws) if out else '', p[0]))
            ws = []
        else:
            ws.append(p)
    return out


def check_indented(x, text, start=0):
    """text is what x writes, with spaces added at the start of lines only."""
    i = 0
    def blanks():
        nonlocal i
        while text[i:i + 1] == ' ':
            i += 1
    blanks()
    for ws, t in pieces(x):
        for c in ws:
            check(text[i:i + 1] == c, "expected %r at %d in %r", c, i, text)
            i += 1
            if c == '\n':
                blanks()
        check(text.startswith(t, i), "expected %r at %d in %r", t, i, text)
        i += len(t)
    check(text[i:] in ('\n', '') if pieces(x) else not text.strip(), "more text at %d in %r", i, text)


SPACES = ['', ' ', '\n', '\n\n', '  ']
PROPS = ['space_before', 'space_after', 'space_between', 'space_after_head', 'space_before_tail']


def gen_doc(rng):
    return dict(text=Gen(rng, max_depth=rng.choice([2, 3, 4])).document(rng.choice([2, 5])), origin=rng.random() < .5,
                wishes=[(rng.randint(0, 9999), rng.choice(PROPS), rng.choice(SPACES)) for _ in range(rng.choice([0, 0, 1, 3, 10, 30]))],
                indent=[rng.choice([2, 2, 4, 0, 1]), rng.choice([0, 0, 3]), rng.choice([16, 16, 0, 4])])


def columns(x, text, L):
    """The column of every line that starts with the head of an element, by the innermost element that indents it."""
    out = {}
    for n in [x] + list(x.descendants()):
        if not getattr(n, 'head_origin', None) or n.indent_override() is not None:
            continue
        pos = n.head_origin[0].pos
        line = text.rfind('\n', 0, pos) + 1
        if text[line:pos].strip(' '):
            continue
        for p in n.ancestors():
            if p.indent_children():
                out.setdefault(id(p), set()).add(pos - line)
                break
        else:
            out.setdefault(None, set()).add(pos - line)
    return out


@bounded('C16', 'documents', gen=gen_doc, quick=1500, thorough=60000, seconds=60,
         functions=['dom.element.Element.write', 'dom.element.Element.points', 'dom.element.Element.write_indented', 'dom.indent.Indenter.write', 'dom.indent.Indenter.output_node'],
         rule='random documents, with random whitespace wishes: written and indented text compared with the texts and wishes of the tree; indenting again; columns of lines in the same brackets')
def b_docs(M, c):
    import io, contextlib
    R, L = M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x = R.lily_document(c['text'], c['origin'])
    if out.getvalue():
        return False
    nodes = [x] + list(x.descendants())
    for i, p, s in c['wishes']:
        setattr(nodes[i % len(nodes)], p, s)
    want = ''.join(ws + t for ws, t in pieces(x))
    w = x.write()
    check(w == want, "written as %r instead of %r", w, want)
    width_, start, align = c['indent']
    wi = x.write_indented(width_, start, align)
    check_indented(x, wi)
    if not c['wishes'] and width_:
        with contextlib.redirect_stdout(out):
            y = R.lily_document(wi, True)
        check(y.write_indented(width_, start, align) == wi, "indented again: %r instead of %r", y.write_indented(width_, start, align), wi)
        for k, cols in columns(y, wi, L).items():
            check(len(cols) == 1 and (k is not None or cols == {start}), "columns %r in the same brackets: %r", cols, wi)
    return len(nodes) > 3


def gen_tree(rng):
    def node(d):
        head = rng.choice(['', 'a', 'bb', '(', '{{', 'x\n y'])
        indents = bool(head) and rng.random() < .6
        return dict(head=head, tail=rng.choice(['', ')', '}}']) if indents else '', indents=indents, override=rng.choice([None] * 6 + [0, 1]), align=rng.choice([[], [], [0], [1, 0]]),
                    spaces=[rng.choice(['', ' ', '\n', '\n', '\n\n']) for _ in PROPS], kids=[node(d - 1) for _ in range(rng.choice([0, 1, 2, 3]) if d else 0)])
    return dict(tree=node(rng.choice([1, 2, 3])), indent=[rng.choice([2, 2, 4]), rng.choice([0, 0, 3]), rng.choice([16, 16, 0, 4])])


@bounded('C16', 'trees', gen=gen_tree, quick=6000, thorough=300000, seconds=60, functions=['dom.indent.Indenter.write', 'dom.indent.Indenter.output_node', 'dom.element.Element.write'],
         rule='random trees of elements with random texts, whitespace wishes, indent levels and alignment')
def b_trees(M, c):
    El = M.get('quickly.dom.element')
    import re
    n = [0]
    owner = {}

    class X(El.Element):
        __slots__ = ('h', 't', 'd', 'al', 'ov')

        def indent_override(self):
            return self.ov

        def write_head(self):
            return self.h

        def write_tail(self):
            return self.t

        def indent_children(self):
            return self.d

        def indent_align_indices(self):
            return tuple(self.al)

    def make(s):
        x = X(*map(make, s['kids']))
        n[0] += 1
        x.h = s['head'] and '%s%d' % (s['head'], n[0])
        x.t = s['tail'] and '%s%d' % (s['tail'], n[0])
        x.d, x.al, x.ov = s['indents'], s['align'], s['override']
        for p, v in zip(PROPS, s['spaces']):
            setattr(x, p, v)
        return x
    x = make(c['tree'])
    text = x.write_indented(*c['indent'])
    check_indented(x, text)
    inside = {}
    def walk(x, p):
        if x.h:
            inside[x.h.split('\n')[0]] = p, x.ov
        if x.t:
            inside[x.t] = p, None
        for k in x:
            walk(k, x if x.d else p)
    walk(x, None)
    cols = {}
    for i, line in enumerate(text.split('\n')):
        m = re.match(r' *([a-wz({]+\d+)', line) or re.match(r' *(?:[)}]+\d+ *)*?([)}]+\d+)(?!\d| *[)}])', line)
        if m and m[1] in inside:
            p, ov = inside[m[1]]
            col = len(line) - len(line.lstrip(' '))
            if ov is not None:
                check(not i or col == ov, "column %r instead of %r: %r", col, ov, text)
            else:
                cols.setdefault(id(p) if p is not None else None, set()).add(col)
    for k, v in cols.items():
        check(len(v) == 1 and (k is not None or v == {c['indent'][1]}), "columns %r in the same brackets: %r", v, text)
    return len(text.split('\n')) > 4


def gen_newlines(rng):
    return dict(text=Gen(rng, max_depth=rng.choice([2, 3])).document(rng.choice([2, 5])), most=rng.choice([10, 10, 1, 2]),
                wishes=[(rng.randint(0, 9999), rng.choice(PROPS), rng.choice(SPACES)) for _ in range(rng.choice([0, 3, 10]))])


@bounded('C16', 'newlines of the original text', gen=gen_newlines, quick=500, thorough=20000, seconds=30, functions=['dom.util.add_newlines'],
         rule='random documents with random requests: what starts a line in the text requests a new line, no request gets smaller, and nothing else changes')
def b_newlines(M, c):
    import io, contextlib
    R, U = M.get('quickly.dom.read'), M.get('quickly.dom.util')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x = R.lily_document(c['text'], True)
    if out.getvalue():
        return False
    text = c['text']
    nodes = [x] + list(x.descendants())
    for i, p, s in c['wishes']:
        setattr(nodes[i % len(nodes)], p, s)
    before = [{p: getattr(n, p) for p in PROPS} for n in nodes]
    texts = [t for ws, t in pieces(x)]
    U.add_newlines(x, text, max_blank_lines=c['most'])
    check([t for ws, t in pieces(x)] == texts and len(nodes) == 1 + len(list(x.descendants())), "texts changed")
    for n, b in zip(nodes, before):
        for p in PROPS:
            if p not in ('space_before', 'space_before_tail'):
                check(getattr(n, p) == b[p], "%s of %r changed", p, n)
            else:
                check(width(getattr(n, p)) >= width(b[p]), "%s of %r was %r, is now %r", p, n, b[p], getattr(n, p))
        for p, o in (('space_before', getattr(n, 'head_origin', None)), ('space_before_tail', getattr(n, 'tail_origin', None))):
            if o:
                pos = o[0].pos
                left = text[:pos].rstrip(' \t\n')
                count = min(text.count('\n', len(left), pos), c['most'])
                if left and count:
                    check(getattr(n, p).count('\n') >= count, "%s of %r is %r after %d newlines in %r", p, n, getattr(n, p), count, text)
    return len(nodes) > 3


def gen_combine(rng):
    def frags(d):
        return [frags(d - 1) if d and rng.random() < .3 else [rng.choice(SPACES), rng.choice(['', 'a', 'b', 'c d']), rng.choice(SPACES)] for _ in range(rng.randint(0, 4))]
    return dict(frags=frags(2), spaces=[rng.choice(SPACES + [' \n', '\n ', '\n\n\n', '     ']) for _ in range(rng.randint(0, 5))])


@bounded('C16', 'combining', gen=gen_combine, quick=4000, thorough=100000, seconds=20, functions=['dom.util.combine_text', 'dom.util.collapse_whitespace'],
         rule='random texts and requests in random groups: the same text as without groups, the widest request between texts')
def b_combine(M, c):
    U = M.get('quickly.dom.util')
    got = U.collapse_whitespace(iter(c['spaces']))
    check(got == '' if not c['spaces'] else got in c['spaces'] and width(got) == max(map(width, c['spaces'])), "collapsed %r to %r", c['spaces'], got)
    flat = []
    def walk(fs):
        out = []
        for f in fs:
            if len(f) == 3 and isinstance(f[1], str):
                flat.append(tuple(f))
                out.append(tuple(f))
            else:
                out.append(U.combine_text(walk(f)))
        return out
    b, t, a = U.combine_text(walk(c['frags']))
    ws, out = [], []
    for x, y, z in flat:
        ws.append(x)
        if y:
            out.append((widest_str(ws), y))
            ws = []
        ws.append(z)
    check(width(b) == width(out[0][0] if out else ''), "before: %r in %r", b, c['frags'])
    check(t == ''.join((ws_ if i else '') + y for i, (ws_, y) in enumerate(out)), "combined %r to %r", c['frags'], t)
    check(width(a) == width(widest_str(ws)), "after: %r in %r", a, c['frags'])
    return len(out) > 1

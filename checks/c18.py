"""C18: references resolve to the nearest preceding definition, through includes."""
import posixpath

from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = ('Proved for documents of any size, any nesting and any arrangement of includes: preceding_nodes() yields exactly the nodes before the starting node in the expansion of the includes, nearest first, each once and with the scope '
        'it is found in; an include is replaced by the contents of the included document exactly if that can be found and is a LilyPond document, and the search goes on in the including document before the include '
        '(loop contracts on the four nested loops; the stack of suspended documents is abstracted to its top and the rest). find_assignment() gives the value of the first assignment of that name in that order, or nothing. '
        'ancestors() yields exactly the ancestors that can hold assignments, up to the document. include_scope() gives a scope for the first url where a document is found that is not '
        'the document itself nor one of the documents that include it (any number of them): with finitely many documents the chain of includes is finite, so that lookup terminates. '
        'The order of the candidate urls, url joining and the parsed documents are checked at run time against an independent recursive expansion (bounded).')
ASSUMPTIONS = ['there are finitely many documents, and a document with a different url (or without url) is a different document',
               'Node.ancestors_with_index() yields parent and index, innermost first (see C10)']


# ---------------------------------------------------------------- proofs

class All:
    def __contains__(self, x):
        return True


class Ghost:
    def __getattr__(self, name):
        if name.startswith('__pv_') or name == 'at_run':
            raise AttributeError(name)
        raise core.Unsupported("%s of a ghost %s" % (name, type(self).__name__))

    def __bool__(self):
        return True


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


class Opaque(Ghost):
    """Something that is only passed on."""


class Scopes:
    """Ghost scopes, made as they are looked at."""
    def __init__(self, E, L, wait):
        self.E, self.L, self.wait = E, L, wait
        self.n = 0

    def new(self, parent=0, node=0):
        self.n += 1
        return Scope(self, self.n, parent, node)


class Scope(Ghost):
    def __init__(self, world, number, parent, node):
        self.world, self.number, self._parent, self._node = world, number, parent, node

    @property
    def parent(self):
        if self._parent == 0:
            self._parent = self.world.new() if self.world.E.choice('parent of scope %d' % self.number, [True, False]) else None
        return self._parent

    @property
    def node(self):
        if self._node == 0:
            self._node = Opaque() if self.world.E.choice('node of scope %d' % self.number, [True, False]) else None
        return self._node

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def include_scope(self, url, node=None):
        E = self.world.E
        if not isinstance(node, Child) or not isinstance(url, Opaque):
            raise core.Unsupported("include_scope")
        E.prove("the file to include is that of the include", url is node.filename)
        E.prove("the include belongs to the document of the scope", node.gen.scope is self)
        node.asked = True
        if not E.choice('found', [True, False]):
            node.itself()
            return None
        s = self.world.new(self, node)
        s.includes = node
        return s

    def document(self):
        return Doc(self)


class Doc(Ghost):
    def __init__(self, scope):
        self.scope = scope

    def get_transform(self, wait=False):
        E, node = self.scope.world.E, self.scope.includes
        if wait is not self.scope.world.wait:
            E.prove("waits for a transformation exactly if requested", False)
        k = E.choice('transform', ['none', 'other', 'document'])
        if k == 'none':
            node.itself()
            return None
        if k == 'other':
            node.itself()
            return Dom(self, False, None)
        size = fresh(E, 'size')
        E.assume(E.And(size >= 0, node.start + size <= node.gen.end))
        node.gen.at = node.start + size
        node.dom = Dom(self, True, (node.start, node.start + size))
        return node.dom


class Dom(Ghost):
    def __init__(self, doc, document, interval):
        self.doc, self.document, self.interval = doc, document, interval

    def __pv_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        L = self.doc.scope.world.L
        if ts == (L.Document,):
            return self.document
        raise core.Unsupported("type of a document")

    def __pv_reversed__(self):
        if not self.document:
            raise core.Unsupported("nodes of something else")
        return Gen(self.doc.scope.world, self.doc.scope, *self.interval)


class Child(Ghost):
    """A node in a document."""
    def __init__(self, gen, start, include):
        self.gen, self.start, self.include = gen, start, include
        self.filename = Opaque()
        self.asked = False
        self.dom = None

    def itself(self):
        """The node is one of the nodes of the expansion itself."""
        self.gen.world.E.assume(self.start < self.gen.end)

    def __pv_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        L = self.gen.world.L
        if L.Include in ts:
            return self.include
        raise core.Unsupported("type of a node")


class Gen(Ghost):
    """Nodes of one document, backwards; they (with what they include) have the numbers from at up to end."""
    def __init__(self, world, scope, at, end):
        self.world, self.scope, self.at, self.end = world, scope, at, end

    def __iter__(self):
        return self

    __pv_iter__ = __iter__

    def __next__(self):
        E = self.world.E
        if E.choice('next node', ['end', 'node']) == 'end':
            E.assume(self.at == self.end)
            raise StopIteration
        n = Child(self, self.at, E.choice('include', [True, False]))
        if not n.include or self.scope is None:
            n.itself()
        self.at = self.at + 1
        self.world.child = n
        return n


class Siblings(Ghost):
    """The nodes of an ancestor before some index."""
    def __init__(self, anc, interval):
        self.anc, self.interval = anc, interval

    def __pv_reversed__(self):
        return Gen(self.anc.world, self.anc.scope, *self.interval)


class Ancestor(Ghost):
    def __init__(self, anc, interval):
        self.anc, self.interval = anc, interval

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.step is None and k.stop is self.anc.index:
            return Siblings(self.anc, self.interval)
        raise core.Unsupported("part of an ancestor")


class Index(Ghost):
    pass


class Ancestors(Ghost):
    """The ancestors of the node where a document is searched; what precedes in them is numbered upwards."""
    def __init__(self, world, scope, at):
        self.world, self.scope, self.at = world, scope, at
        self.index = None

    def __iter__(self):
        return self

    __pv_iter__ = __iter__

    def __next__(self):
        E, w = self.world.E, self.world
        if E.choice('next ancestor', ['end', 'ancestor']) == 'end':
            w.searched = True
            raise StopIteration
        self.index = Index()
        end = fresh(E, 'end of ancestor')
        E.assume(end >= self.at)
        a = Ancestor(self, (self.at, end))
        self.at = end
        w.level_end = end
        return a, self.index


@unit('C18', 'preceding nodes, with includes', functions=['dom.lily.Lookup.preceding_nodes'], random_runs=0)
def u_preceding(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    wait = Opaque()
    w = Scopes(E, L, wait)
    w.out = 0
    w.searched = False
    w.child = None
    node, scope = Opaque(), w.new()
    w.where = (node, scope)      # where the search is, or has to go on
    me = L.Lookup(node, scope, wait)

    def ancestors(self):
        E.prove("the search is in the document and from the place where it has to be", E.And(self.node is w.where[0]))
        E.prove("the search waits as requested", self.wait is wait)
        w.searched = False
        return Ancestors(w, w.where[1], w.out)
    E.patch(L.Lookup, 'ancestors', ancestors)

    def chain(gens, end):
        at, out = w.out, []
        for g in gens:
            out.append(E.And(g.at == at, g.end >= g.at))
            at = g.end
        return E.And(*out, at == end)

    def stacked(loc):
        st = loc.get('stack')
        if not isinstance(st, list) or not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Gen) for x in st):
            raise core.Unsupported("suspended documents")
        return st

    def place(loc, gen):
        st = stacked(loc)
        return [("what is left of the document and of the suspended ones is what still has to be searched", chain([gen] + [g for s, g in reversed(st)], w.level_end)),
                ("the scope is that of the document that is searched", loc.get('scope') is gen.scope),
                ("the suspended documents have their own scope", all(s is g.scope for s, g in st))]

    def havoc_stack(loc, where):
        st = stacked(loc)
        w.count = getattr(w, 'count', 0) + 1
        k = E.choice('suspended %s %d' % (where, w.count), ['none', 'one', 'more'])
        some = lambda: Gen(w, w.new(Opaque(), Opaque()), fresh(E, 'at'), fresh(E, 'end'))
        g = some()
        if k == 'one':
            g.scope = w.where[1]
        st[:] = [] if k == 'none' else [(g.scope, g)]
        if k == 'more':
            rest = some()
            rest.scope = w.where[1]
            st.insert(0, (rest.scope, rest))

    # -- the documents, outwards
    def outer_inv(loc):
        lk = loc.get('lookup')
        if not isinstance(lk, L.Lookup):
            raise core.Unsupported("lookup")
        if w.searched:
            s = w.where[1]
            w.next = (s.node, s.parent)
            w.where = w.next
            w.searched = False
            E.prove("the search goes on only if a document includes this one", w.where[0] is not None and w.where[1] is not None)
        return [("the search goes on in the including document, before the include", E.And(loc.get('scope') is w.where[1], lk.node is w.where[0])),
                ("the search goes on as requested", lk.wait is wait)]

    def outer_havoc(loc):
        w.out = fresh(E, 'yielded')
        n, s = Opaque(), w.new()
        w.where = (n, s)
        w.searched = False
        loc['scope'] = s
        loc['lookup'] = L.Lookup(n, s, wait) if E.choice('level', ['later', 'first']) == 'later' else me
        if loc['lookup'] is me:
            w.where = (node, s)
    E.loop(LoopSpec("documents", lambda site, loc: 'lookup' in loc and not isinstance(loc.get('gen'), Gen), outer_inv, on_havoc=outer_havoc, while_only=True, fresh=lambda n, v: v))

    # -- the ancestors in one document
    def anc_inv(loc):
        it = loc['__it__']
        return [("everything before in the inner ancestors is yielded", w.out == it.at), ("the scope is that of the document", loc.get('scope') is it.scope)]

    def anc_havoc(loc):
        it = loc['__it__']
        w.out = fresh(E, 'yielded')
        it.at = w.out
        loc['gen'] = None
        loc['stack'] = None
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Ancestors), anc_inv, on_havoc=anc_havoc, for_only=True, fresh=lambda n, v: v))

    # -- the included documents
    def inner_inv(loc):
        g = loc['gen']
        if not isinstance(g, Gen):
            raise core.Unsupported("nodes")
        return place(loc, g)

    def inner_havoc(loc):
        w.out = fresh(E, 'yielded')
        havoc_stack(loc, 'in documents')
        g = Gen(w, w.new(Opaque(), Opaque()), fresh(E, 'at'), fresh(E, 'end'))
        if not loc['stack']:
            g.scope = w.where[1]
        loc['gen'] = g
        loc['scope'] = g.scope
        w.child = None
    E.loop(LoopSpec("included", lambda site, loc: isinstance(loc.get('gen'), Gen), lambda loc: inner_inv(loc) + bottom(loc, loc['gen']), on_havoc=inner_havoc, while_only=True, fresh=lambda n, v: v))

    def bottom(loc, g):
        """The outermost of the suspended documents (or the current one) is the one whose ancestors are walked."""
        st = stacked(loc)
        return [("the outermost document is the one of which the ancestors are searched", (st[0][1] if st else g).scope is w.where[1])]

    # -- the nodes
    def node_inv(loc):
        it = loc['__it__']
        if loc.get('gen') is not it:
            raise core.Unsupported("other nodes")
        return place(loc, it) + bottom(loc, it)

    def node_havoc(loc):
        w.out = fresh(E, 'yielded')
        it = loc['__it__']
        it.at = fresh(E, 'at')
        w.child = None
    E.loop(LoopSpec("nodes", lambda site, loc: isinstance(loc.get('__it__'), Gen), node_inv, on_havoc=node_havoc, for_only=True, fresh=lambda n, v: v))

    E.cover("precondition")
    for y in L.Lookup.preceding_nodes(me):
        if not (isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], Child)):
            raise core.Unsupported("yielded")
        n, s = y
        E.prove("the nearest node that was not yielded is yielded", n.start == w.out)
        E.prove("an include is yielded only if nothing could be included", n.dom is None and (n.asked or not n.include))
        E.prove("a node is yielded with the scope of its document", s is n.gen.scope)
        w.out = w.out + 1
    s = w.where[1]
    E.prove("the search ends when the outermost document is finished", w.searched and (s.parent is None or s.node is None))


@unit('C18', 'preceding nodes, one document', functions=['dom.lily.Lookup.preceding_nodes'], random_runs=0)
def u_single(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    w = Scopes(E, L, Opaque())
    w.out, w.searched, w.where = 0, False, (Opaque(), None)
    me = L.Lookup(w.where[0], None, w.wait)

    def ancestors(self):
        E.prove("the search is from the node", self.node is w.where[0])
        return Ancestors(w, None, w.out)
    E.patch(L.Lookup, 'ancestors', ancestors)

    def anc_havoc(loc):
        w.out = fresh(E, 'yielded')
        loc['__it__'].at = w.out
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Ancestors),
                    lambda loc: [("everything before in the inner ancestors is yielded", w.out == loc['__it__'].at)], on_havoc=anc_havoc, for_only=True, fresh=lambda n, v: v))

    def node_havoc(loc):
        w.out = fresh(E, 'yielded')
        loc['__it__'].at = w.out
    E.loop(LoopSpec("nodes", lambda site, loc: isinstance(loc.get('__it__'), Gen),
                    lambda loc: [("the nodes walked are yielded", E.And(w.out == loc['__it__'].at, loc['__it__'].end == w.level_end, w.out <= w.level_end))], on_havoc=node_havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    for y in L.Lookup.preceding_nodes(me):
        if not (isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], Child)):
            raise core.Unsupported("yielded")
        n, s = y
        E.prove("the nearest node that was not yielded is yielded", n.start == w.out)
        E.prove("no scope", s is None)
        w.out = w.out + 1
    E.prove("all ancestors are searched", w.searched)


@unit('C18', 'finding the assignment', functions=['dom.lily.Lookup.find_assignment', 'dom.lily.Reference.get_value_with_scope', 'dom.lily.Reference.get_value'], random_runs=0)
def u_find(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    wanted = fresh(E, 'wanted')
    scope, wait = Opaque(), Opaque()
    st = dict(cur=None, ended=False)

    class Node(Ghost):
        def __init__(self):
            self.assignment = E.choice('assignment', [True, False])
            self.name = fresh(E, 'name') if self.assignment and E.choice('named', [True, False]) else None
            self.value, self.scope = Opaque(), Opaque()

        def __pv_isinstance__(self, t):
            if t is L.Assignment:
                return self.assignment
            raise core.Unsupported("type of a node")

        def get_name(self):
            if not self.assignment:
                raise core.Unsupported("name of a node")
            return self.name

        def get_value(self):
            return self.value

        def match(self):
            return self.name == wanted if self.name is not None else False

    class Walk(Ghost):
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            if E.choice('next', ['end', 'node']) == 'end':
                st['cur'], st['ended'] = None, True
                raise StopIteration
            st['cur'] = Node()
            return st['cur'], st['cur'].scope

    def preceding_nodes(self):
        E.prove("the search starts at the reference, in the scope, waiting as requested", self.node is ref and self.scope is scope and self.wait is wait)
        return Walk()
    E.patch(L.Lookup, 'preceding_nodes', preceding_nodes)
    ref = L.IdentifierRef('x')
    E.patch(L.IdentifierRef, 'get_name', lambda self: wanted)

    def havoc(loc):
        st['cur'] = None
    E.loop(LoopSpec("nodes", lambda site, loc: isinstance(loc.get('__it__'), Walk), lambda loc: [("no assignment with that name was passed over", E.Not(st['cur'].match()) if st['cur'] else True)],
                    on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    how = E.choice('how', ['both', 'value'])
    r = L.Reference.get_value_with_scope(ref, scope, wait) if how == 'both' else L.Reference.get_value(ref, scope, wait)
    if r is None:
        E.prove("nothing is found only if no preceding node defines the name", st['ended'])
    else:
        c = st['cur']
        E.prove("the nearest definition of the name is found", c is not None and c.match())
        E.prove("its value is given, with its scope", (isinstance(r, tuple) and len(r) == 2 and r[0] is c.value and r[1] is c.scope) if how == 'both' else r is c.value)


@unit('C18', 'ancestors to search', functions=['dom.lily.Lookup.ancestors'], random_runs=0)
def u_ancestors(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    st = dict(cur=None, yielded=True, ended=False)

    class Anc(Ghost):
        def __init__(self):
            self.kind = E.choice('kind', ['document', 'block', 'other'])

        def __pv_isinstance__(self, t):
            if t is L.HandleAssignments:
                return self.kind != 'other'
            if t is L.Document:
                return self.kind == 'document'
            raise core.Unsupported("type of an ancestor")

    class Walk(Ghost):
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            E.prove("the search stops at the document", st['cur'] is None or st['cur'][0].kind != 'document')
            if E.choice('next', ['end', 'node']) == 'end':
                st['ended'] = True
                raise StopIteration
            st['cur'] = (Anc(), Opaque())
            st['yielded'] = False
            return st['cur']

    class Me(Ghost):
        def ancestors_with_index(self):
            return Walk()

    def ok():
        return st['cur'] is None or st['yielded'] == (st['cur'][0].kind != 'other')

    def havoc(loc):
        st['cur'], st['yielded'] = None, True
    E.loop(LoopSpec("ancestors", lambda site, loc: isinstance(loc.get('__it__'), Walk),
                    lambda loc: [("an ancestor was yielded exactly if it can hold assignments", ok()), ("the search stopped at the document", st['cur'] is None or st['cur'][0].kind != 'document')],
                    on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    for y in L.Lookup(Me()).ancestors():
        if not (isinstance(y, tuple) and len(y) == 2):
            raise core.Unsupported("yielded")
        E.prove("the ancestor is yielded with its index", st['cur'] is not None and y[0] is st['cur'][0] and y[1] is st['cur'][1] and not st['yielded'])
        st['yielded'] = True
    E.prove("the last ancestor is not left out", ok())
    E.prove("the search ends at the document or the root", st['ended'] or st['cur'][0].kind == 'document')


class GDoc(Ghost):
    """A document: its url is a number, 0 for no url."""
    def __init__(self, E, name):
        self.ident, self._url = fresh(E, name), fresh(E, name + ' url')
        E.assume(self._url >= 0)
        self.E = E

    @property
    def url(self):
        return Url(self.E, self._url)

    def __pv_is__(self, other):
        return self.ident == other.ident if isinstance(other, GDoc) else False

    def __eq__(self, other):
        return self.__pv_is__(other)

    __hash__ = None

    def __bool__(self):
        raise core.Unsupported("truth of a document")


class Url(Ghost):
    def __init__(self, E, n):
        self.E, self.n = E, n

    def __bool__(self):
        return bool(self.n > 0)

    def __eq__(self, other):
        return self.n == other.n if isinstance(other, Url) else False

    __hash__ = None

    def __pv_is__(self, other):
        if other is None:
            return self.n == 0
        raise core.Unsupported("identity of a url")


def same_document(E, a, b):
    return E.Or(a.ident == b.ident, E.And(a._url == b._url, a._url > 0))


@unit('C18', 'no document includes itself', functions=['dom.scope.Scope._includes'], random_runs=0)
def u_includes(E):
    S = E.mod('quickly.dom.scope')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    st = dict(cur=None)

    class Me(Ghost):
        """A scope with any number of ancestors."""
        def __init__(self):
            self.doc = GDoc(E, 'document')
            self.passed = False

        def document(self):
            return self.doc

        @property
        def parent(self):
            self.passed = True
            return Me() if E.choice('parent', [True, False]) else None
    doc = GDoc(E, 'wanted')
    me = Me()

    def inv(loc):
        s = st['cur']
        return [("no scope with the same document was passed over", E.Not(same_document(E, s.doc, doc)) if s is not None else True)] + took(loc)

    def took(loc):
        # the scope that is looked at in the next iteration
        s = loc.get('scope')
        if s is not None and not isinstance(s, Me):
            raise core.Unsupported("scope")
        st['cur'] = s
        return []

    def havoc(loc):
        loc['scope'] = Me() if E.choice('scope', [True, False]) else None
        st['cur'] = None
    st['cur'] = None
    E.loop(LoopSpec("scopes", lambda site, loc: 'scope' in loc, inv, on_havoc=havoc, while_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = S.Scope._includes(me, doc)
    if r:
        E.prove("a document counts as included only if a scope has it", st['cur'] is not None and same_document(E, st['cur'].doc, doc))
    else:
        E.prove("no scope has the document", st['cur'] is None or E.Not(same_document(E, st['cur'].doc, doc)))


@unit('C18', 'including', functions=['dom.scope.Scope.include_scope'], random_runs=0)
def u_include(E):
    S = E.mod('quickly.dom.scope')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    st = dict(cur=None, ended=False)
    asked, node, factory = Opaque(), Opaque(), Opaque()

    class U(Ghost):
        """A candidate url: with a document or not, that includes us or not."""
        def __init__(self):
            k = E.choice('candidate', ['nothing', 'ours', 'document'])
            self.kind = k
            self.doc = None if k == 'nothing' else GDoc(E, 'document')

    class Urls(Ghost):
        def __iter__(self):
            return self
        __pv_iter__ = __iter__

        def __next__(self):
            if E.choice('next', ['end', 'url']) == 'end':
                st['ended'], st['cur'] = True, None
                raise StopIteration
            st['cur'] = U()
            return st['cur']

    me = S.Scope(Opaque(), None, factory)
    me.include_path = ['/lib']
    me.relative_include = E.choice('relative', [True, False])

    def urls(self, url):
        E.prove("the url that is asked for is looked up", self is me and url is asked)
        return Urls()
    E.patch(S.Scope, 'urls', urls)

    def get_document(self, u):
        if not isinstance(u, U) or u is not st['cur']:
            raise core.Unsupported("url")
        return u.doc
    E.patch(S.Scope, 'get_document', get_document)
    E.patch(S.Scope, '_includes', lambda self, doc: st['cur'].kind == 'ours')

    def havoc(loc):
        st['cur'] = None
    E.loop(LoopSpec("urls", lambda site, loc: isinstance(loc.get('__it__'), Urls), lambda loc: [("no usable document was passed over", st['cur'] is None or st['cur'].kind != 'document')],
                    on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    r = me.include_scope(asked, node)
    if r is None:
        E.prove("nothing is included only if no url has a usable document", st['ended'])
    else:
        E.prove("the first usable document is included", st['cur'] is not None and st['cur'].kind == 'document' and r.document() is st['cur'].doc)
        E.prove("the new scope knows where it is included", r.parent is me and r.node is node and r.factory is factory and type(r) is type(me))
        E.prove("the new scope inherits the settings", r.include_path is me.include_path and r.relative_include is me.relative_include)


# ---------------------------------------------------------------- arrangements of documents (bounded)

FILES = ['/w/a.ly', '/w/b.ly', '/w/c.ly', '/w/sub/b.ly', '/w/sub/d.ly', '/lib/b.ly', '/lib/e.ly']
NAMES = ['xa', 'xa', 'xb', ['xa', 'part'], ['xb', 2]]
INCS = ['a.ly', 'b.ly', 'c.ly', 'sub/b.ly', 'sub/d.ly', '../b.ly', '../a.ly', 'd.ly', 'e.ly', '/w/c.ly', '/w//a.ly', './b.ly', 'b.ly#1', 'a.ly?x', 'none.ly', './/sub/../c.ly', '']


def gen(rng):
    few = rng.sample(INCS, 4)

    def items(d, k):
        out = []
        for _ in range(rng.randint(0, k)):
            r = rng.random()
            if r < .4:
                n[0] += 1
                v = rng.random()
                out.append(['def', rng.choice(NAMES), n[0]] if v < .6 or d > 2 else ['defm', rng.choice(NAMES), items(d + 1, 2)])
            elif r < .6:
                out.append(['inc', rng.choice(few)])
            elif r < .8 or d > 2:
                out.append(['ref', rng.choice(NAMES)])
            else:
                out.append(['block', rng.choice(['header', 'score', 'paper', 'music', 'with']), items(d + 1, 3)])
        return out
    n = [0]
    files = {f: items(0, 7) for f in ['/w/a.ly'] + rng.sample(FILES[1:], rng.randint(1, 4))}
    files['/w/a.ly'].append(['ref', rng.choice(NAMES[:3])])
    if rng.random() < .15:
        files[rng.choice(sorted(files))] = []
    return dict(tails=rng.random() < .3, files=files, relative=rng.random() < .8, path=rng.choice([[], ['/lib'], ['/lib/', '/w/sub']]))


def name_text(n):
    return n if isinstance(n, str) else '.'.join(map(str, n))


def text(items, music=False):
    """The text of the items, and the items that are read from that."""
    out = []
    for i in items:
        if i[0] == 'def':
            if not music:
                out.append('%s = %s\n' % (name_text(i[1]), ['%d' % i[2], '"v%d"' % i[2], '{ c4-"%d" }' % i[2]][i[2] % 3]))
        elif i[0] == 'defm':
            if not music:
                out.append('%s = { c4 %s }\n' % (name_text(i[1]), text([x for x in i[2] if x[0] == 'ref'], True)))
        elif i[0] == 'inc':
            out.append('\\include "%s"\n' % i[1])
        elif i[0] == 'ref':
            out.append('\\%s\n' % name_text(i[1]))
        else:
            k = i[1]
            out.append({'music': '{ c4 %s }\n', 'score': '\\score { { c4 } %s }\n', 'header': '\\header { %s }\n', 'paper': '\\paper { %s }\n', 'with': '\\new Staff \\with { %s } { c }\n'}[k]
                       % text(i[2], k in ('music', 'score')))
    return ' '.join(out)


@bounded('C18', 'arrangements', gen=gen, quick=2500, thorough=100000, seconds=60, case_s=10,
         functions=['dom.lily.Lookup.preceding_nodes', 'dom.lily.Lookup.ancestors', 'dom.lily.Lookup.find_assignment', 'dom.lily.Reference.get_value', 'dom.lily.Reference.get_value_with_scope',
                    'dom.lily.IdentifierRef.get_name', 'dom.scope.Scope.include_scope', 'dom.scope.Scope.urls', 'dom.scope.Scope.ancestors', 'dom.scope.Scope.get_document'],
         rule='random sets of up to 5 documents in three directories with definitions, references and (cyclic, aliased, missing, nested) includes; every reference of every document reached from the root '
              'is compared with an independent recursive expansion')
def b_arrangements(M, c):
    import parce, io, contextlib
    L, SC = M.get('quickly.dom.lily'), M.get('quickly.dom.scope')
    LL = M.get('quickly.lang.lilypond')
    docs = {}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for f, items in c['files'].items():
            docs[f] = parce.Document(LL.LilyPond.root, text(items), url=f, transformer=True)
            docs[f].get_transform(True)
    if out.getvalue():
        return False
    tree = {f: d.get_transform(True) or L.Document() for f, d in docs.items()}

    if c['tails']:
        # a comment after a value
        for d in tree.values():
            for a in d // L.Assignment:
                a.append(L.MultilineComment(' after '))

    def factory(filename):
        n = posixpath.normpath(filename)
        if n not in docs:
            raise (FileNotFoundError, PermissionError, IsADirectoryError, NotADirectoryError)[len(n) % 4](filename)
        return docs[n]
    root = SC.Scope(docs['/w/a.ly'], factory=factory)
    root.include_path = c['path']
    root.relative_include = c['relative']

    # -- the model: a chain is a tuple of (file, include node in the file before)
    def resolve(filename, chain):
        """The file that is included by a document at the end of the chain, or None."""
        dirs = ([posixpath.dirname(chain[-1][0])] if c['relative'] else []) + [posixpath.dirname(chain[0][0])] + c['path']
        if not filename:
            return
        for d in dirs:
            p = posixpath.normpath(posixpath.join(d, filename))
            if p in docs and p not in [f for f, _ in chain]:
                return p

    def before(node):
        """The nodes of the document that precede the node, in its ancestors that can have assignments, backwards."""
        while node.parent is not None:
            p = node.parent
            if isinstance(p, L.HandleAssignments):
                i = [k for k, x in enumerate(p) if x is node][0]
                yield from reversed(list(p)[:i])
            if isinstance(p, L.Document):
                return
            node = p

    def expand(nodes, chain):
        for n in nodes:
            if isinstance(n, L.Include):
                name = next((x.head for x in n if isinstance(x, L.String)), None)
                f = resolve(name, chain)
                if f:
                    yield from expand(reversed(list(tree[f])), chain + ((f, n),))
                    continue
            yield n, chain

    def preceding(node, chain):
        while True:
            yield from expand(before(node), chain)
            if len(chain) == 1:
                return
            node, chain = chain[-1][1], chain[:-1]

    def parts(node):
        """The name of an assignment or reference."""
        heads = [node.head] if isinstance(node, L.IdentifierRef) and node.head else []
        for i in ([node] if isinstance(node, L.IdentifierRef) else [x for x in node if isinstance(x, L.Identifier)]):
            heads += [x.head for x in i if isinstance(x, (L.Symbol, L.String, L.Int))]
        return heads

    def lookup(ref, chain):
        for n, ch in preceding(ref, chain):
            if isinstance(n, L.Assignment) and parts(n) == parts(ref):
                i = [k for k, x in enumerate(n) if isinstance(x, L.EqualSign)][0]
                return n[i + 1], ch

    def chain_of(scope):
        r = []
        while scope:
            r.append((scope.document().url, scope.node))
            scope = scope.parent
        return tuple(reversed(r))

    seen = [0, 0]

    def visit(scope, chain, depth):
        doc = tree[chain[-1][0]]
        for ref in doc // L.IdentifierRef:
            seen[0] += 1
            want = lookup(ref, chain)
            got = ref.get_value_with_scope(scope)
            if want is None:
                check(got is None and ref.get_value(scope) is None, "%r in %r finds %r instead of nothing", ref, chain, got)
                continue
            seen[1] += 1
            check(got is not None, "%r in %r finds nothing instead of %r", ref, chain, want[0])
            check(got[0] is want[0] and ref.get_value(scope) is want[0], "%r in %r finds %r (%r) instead of %r", ref, chain, got[0], got[1], want[0])
            g = chain_of(got[1])
            check([u for u, _ in g] == [u for u, _ in want[1]] and all(a[1] is b[1] for a, b in zip(g, want[1])), "%r in %r: found in %r instead of %r", ref, chain, g, want[1])
        for ref in doc // L.IdentifierRef:
            # without a scope: only this document
            want = next((n for n in before(ref) if isinstance(n, L.Assignment) and parts(n) == parts(ref)), None)
            got = ref.get_value_with_scope()
            check(got is None if want is None else got is not None and got[0].parent is want and got[1] is None, "%r without a scope finds %r instead of %r", ref, got, want)
        if depth < 3:
            for inc in doc // L.Include:
                if seen[0] > 60:
                    return
                name = next((x.head for x in inc if isinstance(x, L.String)), None)
                f = resolve(name, chain)
                s = scope.include_scope(name, inc)
                check((s.document().url if s else None) == f, "%r in %r includes %r instead of %r", name, chain, s, f)
                if s:
                    check(s.parent is scope and s.node is inc and s.document() is docs[f], "wrong included scope")
                    visit(s, chain + ((f, inc),), depth + 1)
    visit(root, (('/w/a.ly', None),), 0)
    return seen[1] > 0

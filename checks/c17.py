"""C17: variables of a document or block behave like a dictionary."""
from fractions import Fraction

from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = ('Proved: for a block with any number of children of any kind, and any name, find_assignment() gives the first assignment with that name, and nothing exactly if there is none, without changing anything; '
        'variables() lists the names of all assignments in order (loop contracts). '
        'Proved over that contract, for arbitrary integers and arbitrary texts and numbers, all units, booleans and elements: after set_variable() and the attributes, get_variable() gives the value back, '
        'exactly one assignment is appended if there was none, otherwise none is and only the value of the existing one is replaced (comments around the value, enumerated up to two before and one behind it, stay); '
        'after unsetting just that assignment is gone. Names of up to three parts (any texts and integers) read back as given. '
        'Assumed: an assignment has at most one Identifier. If a name is assigned more than once, all operations act on the first assignment. '
        'That the written text reads back is checked at run time (bounded).')
ASSUMPTIONS = ['an Assignment has at most one Identifier child, as the parser and Assignment.with_name() make it',
               'list.append, list.remove (by identity) and the iteration over the children do what Python says (see C09 for Node)']


# ---------------------------------------------------------------- proofs

class All:
    def __contains__(self, x):
        return True


class Ghost:
    def __getattr__(self, name):
        if name.startswith('__pv_') or name == 'at_run':
            raise AttributeError(name)
        raise core.Unsupported("%s of a ghost %s" % (name, type(self).__name__))

    def __bool__(self):
        return True


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


class Name(Ghost):
    """Any name: a text, a tuple of one part or a tuple of more parts."""
    def __init__(self, E, kind, ident):
        self.E, self.kind, self.ident = E, kind, ident

    def __pv_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if not all(x in (str, tuple, list) for x in ts):
            raise core.Unsupported("type of a name")
        return (str if self.kind == 'text' else tuple) in ts

    def __pv_len__(self):
        if self.kind == 'text':
            raise core.Unsupported("length of a text")
        if self.kind == 'one':
            return 1
        n = fresh(self.E, 'parts')
        self.E.assume(n >= 2)
        return n

    def __pv_getitem__(self, i):
        if self.kind == 'one' and i in (0, -1):
            return Name(self.E, 'text', self.ident)
        raise core.Unsupported("part of a name")

    __getitem__ = __pv_getitem__

    def __len__(self):
        n = self.__pv_len__()
        if isinstance(n, int):
            return n
        raise core.Unsupported("length of a name")

    def __eq__(self, other):
        if not isinstance(other, Name):
            return False
        if self.kind != other.kind:
            return False
        return self.ident == other.ident

    def __ne__(self, other):
        return self.E.Not(self.__eq__(other)) if isinstance(self.__eq__(other), core.SBool) else not self.__eq__(other)

    def __hash__(self):
        raise core.Unsupported("hash of a name")


class GIdentifier(Ghost):
    def __init__(self, name):
        self.name = name

    def get_name(self):
        return self.name


class Child(Ghost):
    """Any child of the block."""
    def __init__(self, E, L, assignment, name):
        self.E, self.L, self.assignment, self.name = E, L, assignment, name

    def __pv_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if self.L.Assignment in ts:
            return self.assignment
        if any(issubclass(self.L.Assignment, x) for x in ts):
            raise core.Unsupported("type of a child")
        return False if self.assignment else (_ for _ in ()).throw(core.Unsupported("type of a child"))

    def __truediv__(self, t):
        if not self.assignment or t is not self.L.Identifier:
            raise core.Unsupported("children of a child")
        return [GIdentifier(self.name)] if self.name is not None else []

    def get_name(self):
        if not self.assignment:
            raise core.Unsupported("name of a child")
        return self.name


class Block(Ghost):
    """A block with any children."""
    def __init__(self, E, L, st, only=None):
        self.E, self.L, self.st, self.only = E, L, st, only

    def __iter__(self):
        return self

    __pv_iter__ = __iter__

    def __next__(self):
        E, st = self.E, self.st
        k = E.choice('next', ['end', 'assignment', 'no name', 'other'] if self.only is None else ['end', 'assignment', 'no name'])
        if k == 'end':
            st['cur'] = None
            st['ended'] = True
            raise StopIteration
        c = Child(E, self.L, k != 'other', Name(E, E.choice('name', ['text', 'more']), fresh(E, 'name')) if k == 'assignment' else None)
        st['cur'] = c
        return c

    def __truediv__(self, t):
        if t is not self.L.Assignment:
            raise core.Unsupported("children of the block")
        if self.st.setdefault('iterations', 0):
            raise core.Unsupported("second iteration")
        self.st['iterations'] = 1
        return Block(self.E, self.L, self.st, t)


@unit('C17', 'finding an assignment', functions=['dom.lily.HandleAssignments.find_assignment'], random_runs=0)
def u_find(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    st = dict(cur=None, ended=False)
    block = Block(E, L, st)
    kind = E.choice('wanted', ['text', 'one', 'more'])
    name = Name(E, kind, fresh(E, 'wanted'))
    plain = Name(E, 'text' if kind == 'one' else kind, name.ident)

    def match(c):
        return c is not None and c.assignment and c.name is not None and c.name == plain

    def inv(loc):
        return [("no assignment with that name was passed over", E.Not(match(st['cur'])))]

    def havoc(loc):
        st['cur'] = None
    E.loop(LoopSpec("children", lambda site, loc: isinstance(loc.get('__it__'), Block), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.cover("precondition")
    found = L.HandleAssignments.find_assignment(block, name)
    if found is None:
        E.prove("nothing is found only if no child is an assignment with that name", st['ended'])
    else:
        if not isinstance(found, Child):
            raise core.Unsupported("result")
        E.prove("the assignment found is the first with that name", found is st['cur'])
        E.prove("what is found is an assignment with that name", match(found))


@unit('C17', 'the names of the variables', functions=['dom.lily.HandleAssignments.variables'], random_runs=0)
def u_names(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    for n in (0, 1, 2, 3):
        kids = [Child(E, L, True, Name(E, 'text', fresh(E, 'name%d' % i))) if E.choice('named%d' % i, [True, False]) else Child(E, L, False, None) for i in range(n)]

        class Some(Ghost):
            def __truediv__(self, t):
                if t is not L.Assignment:
                    raise core.Unsupported("children of the block")
                return [k for k in kids if k.assignment]
        got = L.HandleAssignments.variables(Some())
        want = [k.name for k in kids if k.assignment]
        E.prove("the names of all assignments, in order", len(got) == len(want) and all(a is b for a, b in zip(got, want)))
        if E.choice('more than %d' % n, [False, True]) is False:
            break
    E.cover("precondition")


class Text(Ghost):
    """Any text."""
    def __pv_isinstance__(self, t):
        return any(x in (str, object) for x in (t if isinstance(t, tuple) else (t,)))

    def __eq__(self, other):
        if other is self:
            return True
        raise core.Unsupported("comparing a text")
    __hash__ = None


class Real(Ghost):
    """Any floating point number."""
    def __pv_isinstance__(self, t):
        return any(x in (float, object) for x in (t if isinstance(t, tuple) else (t,)))

    def __eq__(self, other):
        if other is self:
            return True
        raise core.Unsupported("comparing a number")
    __hash__ = None


def isint(v):
    return isinstance(v, core.SNum) and v.isint or type(v) is int


KINDS = ['int', 'true', 'false', 'text', 'float', 'int unit', 'float unit', 'music', 'markup', 'scheme', 'comment scheme']


def new_value(E, L, S, kind):
    """(value to set, check of what is read)"""
    if kind in ('int', 'int unit'):
        n = E.int('value')
        if kind == 'int':
            return n, lambda v: isint(v) and v == n
        u = E.choice('unit', ['mm', 'cm', 'in', 'pt'])
        return (n, u), lambda v: isinstance(v, tuple) and len(v) == 2 and E.And(v[0] == n, v[1] == u)
    if kind in ('true', 'false'):
        b = kind == 'true'
        return b, lambda v: v is b
    if kind == 'text':
        t = Text()
        return t, lambda v: v is t
    if kind == 'float':
        r = Real()
        return r, lambda v: v is r
    if kind == 'float unit':
        r = Real()
        u = E.choice('unit', ['mm', 'cm', 'in', 'pt'])
        return (r, u), lambda v: isinstance(v, tuple) and len(v) == 2 and v[0] is r and v[1] == u
    node = {'music': lambda: L.MusicList(L.Note('c')), 'markup': lambda: L.Markup('markup', L.MarkupWord('x')), 'scheme': lambda: L.Scheme('#', S.Identifier('x')),
            'comment scheme': lambda: L.Scheme('#', S.Identifier('x'), S.Identifier('y'))}[kind]()
    return node, lambda v: v is node


def assignment(E, L, names):
    """Any assignment that the parser or with_name() can make, up to two comments before the value and one after it; no value at all."""
    before = [L.MultilineComment(' c%d ' % i) for i in range(E.choice('comments before', [0, 1, 2]))]
    after = [L.SinglelineComment(' c')] if E.choice('comments after', [0, 1]) else []
    early = [L.MultilineComment(' e ')] if E.choice('comments before the equal sign', [0, 1]) else []
    value = {'int': lambda: [L.Int(3)], 'scheme': lambda: [L.Scheme('#', L.Symbol('x'))], 'symbol': lambda: [L.Symbol('x')], 'none': lambda: []}[E.choice('old value', ['int', 'scheme', 'symbol', 'none'])]()
    if not value:
        after = []
    a = L.Assignment(L.Identifier(L.Symbol('n')), *early, L.EqualSign(), *before, *value, *after)
    return a, value[0] if value else None


class Found(Ghost):
    """A block where find_assignment() has the contract proved above."""
    def __init__(self, E, L, name, existing):
        self.E, self.L, self.wanted = E, L, name
        self.first = existing
        self.appended, self.removed = [], []

    def find_assignment(self, name):
        if name is not self.wanted:
            raise core.Unsupported("another name")
        return self.first

    def append(self, node):
        self.appended.append(node)
        if self.first is None and isinstance(node, self.L.Assignment) and self.L.Assignment.get_name(node) is self.wanted:
            self.first = node

    def remove(self, node):
        self.removed.append(node)
        if node is self.first:
            # the next assignment with that name, if any
            self.first = self.E.ghost['next']

    def __getattr__(self, name):
        f = getattr(self.L.HandleAssignments, name, None)
        if name in ('get_variable', 'set_variable', 'unset_variable'):
            return lambda *a: f(self, *a)
        return super().__getattr__(name)


def variable(E, L, name):
    """An attribute of any block class."""
    v = L._Variable("doc")
    v.name = name
    return v


def u_set(E, via, exists):
    L, S, B = E.mod('quickly.dom.lily'), E.mod('quickly.dom.scm'), E.mod('quickly.dom.base')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    name = Text()
    # a name that is found again: see the names below
    made = []

    def with_name(n):
        i = L.Identifier()
        made.append((i, n))
        return i
    E.patch(L.Identifier, 'with_name', staticmethod(with_name))
    E.patch(L.Identifier, 'get_name', lambda self: name if any(self is i and n is name for i, n in made) else None)
    old, value = assignment(E, L, None) if exists else (None, None)
    block = Found(E, L, name, old)
    before = list(old) if exists else []
    kind = E.choice('kind', KINDS)
    new, read = new_value(E, L, S, kind)
    E.cover("precondition")
    var = variable(E, L, name)

    def get():
        return block.get_variable(name) if via == 'method' else type(var).__get__(var, block)
    if via == 'method':
        L.HandleAssignments.set_variable(block, name, new)
    else:
        type(var).__set__(var, block, new)
    E.prove("nothing is removed", not block.removed)
    if exists:
        E.prove("setting an existing variable adds no assignment", not block.appended)
        now = list(old)
        E.prove("only the value of the assignment is replaced",
                len(now) == len(before) + (value is None) and all(a is b for a, b in zip([n for n in before if n is not value],
                [n for n in now if any(n is b for b in before)])) and not any(n is value for n in now) if value is not None else all(a is b for a, b in zip(before, now)))
    else:
        E.prove("exactly one assignment is appended", len(block.appended) == 1 and isinstance(block.appended[0], L.Assignment))
    E.prove("reading gives the value back", read(get()))
    # again, with another value
    other = L.Int(5)
    n = len(block.appended)
    if via == 'method':
        L.HandleAssignments.set_variable(block, name, other)
    else:
        type(var).__set__(var, block, other)
    E.prove("setting it again adds no assignment", len(block.appended) == n and not block.removed)
    E.prove("setting it again gives the new value", get() == 5)


for _via in ('method', 'attribute'):
    for _e in (True, False):
        unit('C17', 'setting %s variable, by %s' % ('an existing' if _e else 'a new', _via),
             functions=['dom.lily.HandleAssignments.set_variable', 'dom.lily.HandleAssignments.get_variable', 'dom.lily.create_element_from_value', 'dom.lily.create_value_from_element',
                        'dom.lily.Assignment.with_name', 'dom.lily.Assignment.get_value', 'dom.lily.Assignment.set_value', 'dom.lily._Variable.__set__', 'dom.lily._Variable.__get__'],
             random_runs=0)(lambda E, v=_via, e=_e: u_set(E, v, e))


@unit('C17', 'unsetting a variable', functions=['dom.lily.HandleAssignments.unset_variable', 'dom.lily.HandleAssignments.get_variable', 'dom.lily._Variable.__delete__', 'dom.lily._Variable.__set__'], random_runs=0)
def u_unset(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    E.ghost['next'] = None      # (assigned once)
    name = Text()
    old = assignment(E, L, None)[0] if E.choice('exists', [True, False]) else None
    block = Found(E, L, name, old)
    kids = list(old) if old is not None else []
    var = variable(E, L, name)
    E.cover("precondition")
    how = E.choice('how', ['unset', 'delete', 'none'])
    if how == 'unset':
        L.HandleAssignments.unset_variable(block, name)
    elif how == 'delete':
        type(var).__delete__(var, block)
    else:
        type(var).__set__(var, block, None)
    E.prove("just that assignment is removed", not block.appended and (len(block.removed) == 1 and block.removed[0] is old if old is not None else not block.removed))
    E.prove("it reads as absent", block.get_variable(name) is None and type(var).__get__(var, block) is None)
    E.prove("the removed assignment is as it was", old is None or len(old) == len(kids) and all(a is b for a, b in zip(old, kids)))
    E.prove("the attribute of the class is the attribute itself", type(var).__get__(var, None, L.Header) is var)


@unit('C17', 'reading a variable', functions=['dom.lily.HandleAssignments.get_variable', 'dom.lily.Assignment.get_value', 'dom.lily.create_value_from_element'], random_runs=0)
def u_get(E):
    L, S = E.mod('quickly.dom.lily'), E.mod('quickly.dom.scm')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    name = Text()
    kind = E.choice('value', ['int', 'int unit', 'float', 'float unit', 'string', 'symbol', 'fraction', 'scheme number', 'scheme string', 'scheme true', 'scheme list', 'music', 'absent'])
    n, t, r = E.int('number'), Text(), Real()
    com = [L.MultilineComment(' c ')] if E.choice('comment', [True, False]) else []
    num = lambda w: lambda v: isint(v) and v == w
    if kind == 'absent':
        block = Found(E, L, name, None)
        E.cover("precondition")
        E.prove("an absent variable reads as nothing", block.get_variable(name) is None)
        E.prove("reading changes nothing", not block.appended and not block.removed)
        return
    node, ok = {
        'int': lambda: (L.Int(n, *com), num(n)),
        'int unit': lambda: (L.Int(n, *com, L.Unit('mm')), lambda v: isinstance(v, tuple) and len(v) == 2 and E.And(v[0] == n, v[1] == 'mm')),
        'float': lambda: (L.Float(r, *com), lambda v: v is r),
        'float unit': lambda: (L.Float(r, *com, L.Unit('in')), lambda v: isinstance(v, tuple) and v[0] is r and v[1] == 'in'),
        'string': lambda: (L.String(t, *com), lambda v: v is t),
        'symbol': lambda: (L.Symbol(t, *com), lambda v: v is t),
        'fraction': lambda: (L.Fraction((3, 4)), lambda v: v == Fraction(3, 4)),
        'scheme number': lambda: (L.Scheme('#', *com, S.Number(n)), num(n)),
        'scheme string': lambda: (L.Scheme('#', *com, S.String(t)), lambda v: v is t),
        'scheme true': lambda: (L.Scheme('#', S.Bool(True), *com), lambda v: v is True),
        'scheme list': lambda: (L.Scheme('#', *com, S.List(S.Number(1))), None),
        'music': lambda: (L.MusicList(*com), None)}[kind]()
    ok = ok or (lambda v: v is node)
    cs = [L.MultilineComment(' d ') for _ in range(E.choice('comments', [0, 1, 2]))]
    a = L.Assignment(L.Identifier(L.Symbol('n')), L.EqualSign(), *cs, node)
    block = Found(E, L, name, a)
    E.cover("precondition")
    before, kids = list(a), list(node)
    E.prove("a simple value reads as that value, another as the element", ok(block.get_variable(name)))
    E.prove("reading changes nothing", not block.appended and not block.removed and len(a) == len(before) and all(x is y for x, y in zip(a, before))
            and len(node) == len(kids) and all(x is y for x, y in zip(node, kids)))


@unit('C17', 'names', functions=['dom.lily.Identifier.with_name', 'dom.lily.Identifier.set_name', 'dom.lily.Identifier.get_name', 'dom.lily.List.set_list', 'dom.lily.List.get_list', 'dom.lily.make_list_node'],
      random_runs=0)
def u_name(E):
    L = E.mod('quickly.dom.lily')
    if not E.symbolic:
        return
    E.ghost['local_objects'] = All()
    count = []

    def is_symbol(text):
        count.append(1)
        return E.choice('symbol%d' % len(count), [True, False])
    E.patch(L, 'is_symbol', is_symbol)
    n = E.choice('parts', [1, 2, 3])
    parts = []
    for i in range(n):
        # the first part is a text
        parts.append(E.int('part%d' % i) if i and E.choice('part%d' % i, ['text', 'number']) == 'number' else ['one', 'two', 'three'][i])
    name = parts[0] if n == 1 and E.choice('plain', [True, False]) else tuple(parts)
    E.cover("precondition")
    got = L.Identifier.with_name(name).get_name()
    if n == 1:
        E.prove("a name of one part reads back as a text", got == 'one')
    else:
        E.prove("the parts of a name read back in order", isinstance(got, tuple) and len(got) == n and E.And(True, *[a == b for a, b in zip(got, parts)]))


# ---------------------------------------------------------------- histories (bounded)

BLOCKS = {'Header': '\\header', 'Paper': '\\paper', 'Layout': '\\layout', 'With': '\\with', 'LayoutContext': '\\context', 'Midi': '\\midi', 'Document': None}
ATTRS = {'Header': ['title', 'composer', 'tagline', 'subtitle'], 'Paper': ['indent', 'ragged_right', 'top_margin', 'print_page_number'],
         'Layout': ['indent', 'ragged_last', 'line_width', 'short_indent']}
NAMES = ['title', 'composer', 'my-field', 'x', 'indent', 'ragged-right', 'a b', 'a.b', '1x', ['group', 'part'], ['group', 2], ['aa', 'bb', 'cc'], ['group']]
# text, the value it reads as (None: the element)
VALUES = [('"abc"', 'abc'), ('"a \\"q\\" b"', 'a "q" b'), ('""', ''), ('5', 5), ('0', 0), ('12.5', 12.5), ('10\\mm', [10, 'mm']), ('1.5\\in', [1.5, 'in']), ('##t', True), ('##f', False),
          ('#3', 3), ('#"s"', 's'), ('\\markup { a b }', None), ("#'sym", None), ('\\foo', None), ('{ c4 d }', None), ("#'(1 2)", None), ('word', 'word')]
NEW = [0, 1, 7, 120, True, False, 'abc', '', 'a "b" c', 'back\\slash', 'é', '% no', 2.5, 0.0, [10, 'mm'], [2.5, 'cm'], [0, 'pt'], ['el', 'markup'], ['el', 'scheme'], ['el', 'ref'], ['el', 'music'],
       ['el', 'int'], ['el', 'self']]
COMMENTS = ['', '', '', ' %{ note %}', ' % note\n']
OTHERS = {'Document': ['\\header { title = "inner" }', '{ c4 d }', '% remark\n', '\\version "2.24.0"', '\\new Staff { e4 }'],
          None: ['% remark\n', '%{ block %}', '\\foo']}


def is_text(n):
    return n.replace('-', '').isalpha()


def name_text(n):
    parts = n if isinstance(n, list) else [n]
    return '.'.join(p if not isinstance(p, str) else p if is_text(p) and len(p) > 1 or p in 'x' else '"%s"' % p for p in map(lambda p: str(p) if isinstance(p, int) else p, parts)) \
        if not any(isinstance(p, int) for p in parts) else '%s.%d' % (parts[0], parts[1])


def gen(rng):
    kind = rng.choice(sorted(BLOCKS))
    items = []
    for _ in range(rng.randint(0, 5)):
        if rng.random() < .7:
            v = rng.choice(VALUES if kind == 'Document' else [v for v in VALUES if '{ c4' not in v[0]])
            # (parce does not read a number after a comment)
            items.append(['asg', rng.choice(NAMES), rng.choice(COMMENTS) if not v[0][0].isdigit() else '', v[0], v[1]])
        else:
            items.append(['other', rng.choice(OTHERS.get(kind, OTHERS[None]))])
    ops = []
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if kind in ATTRS and r < .4:
            a = rng.choice(ATTRS[kind])
            ops.append(rng.choice([['setattr', a, rng.choice(NEW)], ['setattr', a, rng.choice(NEW)], ['setattr', a, None], ['delattr', a]]))
        else:
            n = rng.choice(NAMES)
            ops.append(rng.choice([['set', n, rng.choice(NEW)], ['set', n, rng.choice(NEW)], ['unset', n]]))
    return dict(kind=kind, items=items, ops=ops, built=rng.random() < .25, odd=[rng.choice(['', '', '', 'comment', 'no value']) for _ in range(5)])


def norm(name):
    """A name as the library gives it."""
    if isinstance(name, list):
        return tuple(name) if len(name) > 1 else name[0]
    return name


def value(M, spec, current):
    """(value to set, what reading gives back)"""
    L, S = M.get('quickly.dom.lily'), M.get('quickly.dom.scm')
    if isinstance(spec, list) and spec[0] == 'el':
        k = spec[1]
        if k == 'int':
            return L.Int(42), 42
        if k == 'self':
            if current is None or current[0] is None or isinstance(current[0], (str, int, float, tuple)):
                return 'other', 'other'
            return current[0], current[0]
        node = {'markup': lambda: L.Markup('markup', L.MarkupWord('hi')), 'scheme': lambda: L.Scheme('#', S.Identifier('x')), 'ref': lambda: L.IdentifierRef('foo'),
                'music': lambda: L.MusicList(L.Note('c'))}[k]()
        return node, node
    if isinstance(spec, list):
        return tuple(spec), tuple(spec)
    return spec, spec


def same(a, b):
    if a is b:
        return True
    return type(a) is type(b) and not hasattr(a, 'head') and a == b and (not isinstance(a, tuple) or all(map(same, a, b)))


@bounded('C17', 'histories', gen=gen, quick=4000, thorough=200000, seconds=60, case_s=10,
         functions=['dom.lily.HandleAssignments.find_assignment', 'dom.lily.HandleAssignments.get_variable', 'dom.lily.HandleAssignments.set_variable', 'dom.lily.HandleAssignments.unset_variable',
                    'dom.lily.HandleAssignments.variables', 'dom.lily._Variable.__get__', 'dom.lily._Variable.__set__', 'dom.lily.create_element_from_value', 'dom.lily.create_value_from_element',
                    'dom.lily.Assignment.get_value', 'dom.lily.Assignment.with_name', 'dom.lily.Identifier.set_name', 'dom.lily.Identifier.get_name'],
         rule='random histories of up to 7 set, unset and attribute operations on read or built documents and blocks with any assignments, comments and other contents, compared with an ordered list of names and values; '
              'all names are read after each operation, and the written text is read again at the end')
def b_histories(M, c):
    L, R, E = M.get('quickly.dom.lily'), M.get('quickly.dom.read'), M.get('quickly.dom.element')
    import io, contextlib
    kind = c['kind']
    out = io.StringIO()
    text = '\n'.join('%s =%s %s' % (name_text(i[1]), i[2], i[3]) if i[0] == 'asg' else i[1] for i in c['items'])
    if kind != 'Document':
        text = BLOCKS[kind] + ' {\n' + text + '\n}\n'
        if kind == 'With':
            text = '\\new Staff ' + text + ' { c }'
        elif kind == 'LayoutContext':
            text = '\\layout { ' + text + '}'
    with contextlib.redirect_stdout(out):
        doc = R.lily_document(text)
    if out.getvalue():
        return False
    cls = getattr(L, kind)
    block = doc if kind == 'Document' else next(doc // cls)
    if c['built']:
        # the same contents without a text
        block = block.copy()
    # the model: [name, value, assignment]
    model = []
    for a in block:
        if isinstance(a, L.Assignment):
            model.append([None, None, a])
    asg = [i for i in c['items'] if i[0] == 'asg']
    if len(asg) != len(model):
        return False            # read as something else
    for m, i in zip(model, asg):
        m[0] = norm(i[1])
        v = i[4]
        m[1] = tuple(v) if isinstance(v, list) else v
        if v is None:
            m[1] = [n for n in m[2] if not isinstance(n, M.get('quickly.dom.base').Comment)][2]
    if c['built']:
        # a comment after the value, or no value yet
        for m, odd in zip(model, c['odd']):
            if odd == 'comment':
                m[2].append(L.MultilineComment(' after '))
            elif odd == 'no value':
                v = m[2].get_value()
                if v is m[2][-1]:
                    m[2].pop()
                    m[1] = None
    original = {id(n): n.write() for n in block}
    keep = list(block)      # keep alive
    touched = set()

    def get(name):
        return next((m for m in model if m[0] == name), None)

    def verify(what):
        for n in NAMES:
            m = get(norm(n))
            arg = tuple(n) if isinstance(n, list) else n
            got = block.get_variable(arg)
            check(same(got, m and m[1]) or m and same(got, m[1]), "%s: variable %r reads %r instead of %r: %r", what, arg, got, m and m[1], text)
        for a in ATTRS.get(kind, ()):
            m = get(a.replace('_', '-'))
            got = getattr(block, a)
            check(same(got, m and m[1]), "%s: attribute %s reads %r instead of %r: %r", what, a, got, m and m[1], text)
        check(list(block.variables()) == [m[0] for m in model], "%s: variables() gives %r instead of %r: %r", what, block.variables(), [m[0] for m in model], text)
        asgs = [n for n in block if isinstance(n, L.Assignment)]
        check(len(asgs) == len(model), "%s: %d assignments instead of %d: %r", what, len(asgs), len(model), text)
        for n in block:
            check(n.parent is block, "%s: wrong parent", what)
            if id(n) in original and id(n) not in touched:
                check(n.write() == original[id(n)], "%s: other contents changed: %r became %r", what, original[id(n)], n.write())
        for n in keep:
            if id(n) not in touched:
                check(any(n is x for x in block), "%s: other contents lost: %r", what, original[id(n)])
        check([x for x in block if id(x) in original] == [x for x in keep if any(x is y for y in block)], "%s: contents reordered", what)
    verify("at first")
    changed = False
    for op in c['ops']:
        name = norm(op[1]) if op[0] in ('set', 'unset') else op[1].replace('_', '-')
        arg = tuple(op[1]) if isinstance(op[1], list) else op[1]
        m = get(name)
        if op[0] in ('set', 'setattr') and op[2] is not None:
            v, back = value(M, op[2], m and m[1:])
            if m:
                rest = [n for n in m[2] if n is not m[2].get_value()]
            if op[0] == 'set':
                block.set_variable(arg, v)
            else:
                setattr(block, op[1], v)
            if m:
                m[1] = back
                check([n for n in m[2] if n is not m[2].get_value()] == rest, "%r: not only the value was replaced", op)
                touched.add(id(m[2]))
            else:
                last = block[-1]
                check(isinstance(last, L.Assignment) and id(last) not in original, "%r: no assignment at the end: %r", op, text)
                keep.append(last)
                original[id(last)] = last.write()
                model.append([name, back, last])
            changed = True
        else:
            if op[0] == 'unset':
                block.unset_variable(arg)
            elif op[0] == 'delattr':
                delattr(block, op[1])
            else:
                setattr(block, op[1], None)
            if m:
                model.remove(m)
                touched.add(id(m[2]))
                changed = True
        verify(repr(op))
        for m in model:
            original[id(m[2])] = m[2].write()
    # what is written reads the same
    new = doc if not c['built'] else block
    written = new.write_indented()
    if c['built'] and kind in ('With', 'LayoutContext') or kind != 'Document' and any(o[2:] == [['el', 'music']] for o in c['ops']) or any(i[0] == 'asg' and i[2] for i in c['items']) or any(m[1] is None for m in model):
        return changed      # (what parce does not read)
    with contextlib.redirect_stdout(out):
        again = R.lily_document(written)
    again = again if kind == 'Document' else next(again // cls)
    for m in model:
        if isinstance(m[1], E.Element):
            continue
        f = get(m[0])
        if f is m:
            got = again.get_variable(m[0])
            check(same(got, m[1]), "%r written as %r reads back as %r instead of %r", c['ops'], written, got, m[1])
    return changed

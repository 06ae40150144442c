"""C12: writing edits back to the document changes only what was edited."""
from pyvc import core
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec
from checks.lygen import Gen

LEVEL = 'proof'
NOTE = ('Proved for any number of text fragments and tokens: the edits produced by Element.edits are in order and disjoint, delete exactly what lies between the fragments, inside the range only, write new and '
        'modified fragments once and leave the others alone (loop contracts over an abstract document); the first node after and the last node before a position (find_descendant_right/left), in any tree; the position, the end and the child at a position of an element with any number of children. That points() yields the fragments of the tree in order, and that the result reads back as the edited tree, '
        'is checked at run time on random documents and edits (bounded).')

preload = ['quickly.dom.lily']


def fresh(E, name):
    return core.SNum(E.fresh_int(name), True)


def fresh_bool(E, name):
    import z3
    return core.SBool(E.fresh_int(name) > 0)


class Tok:
    def __init__(self, pos, end):
        self.pos, self.end = pos, end


class Tokens:
    """Ghost: tokens in order, one of which (the witness) is arbitrary."""
    def __init__(self, E, st):
        self.E, self.st = E, st
        self.n = 0
        self.last = -1          # end of the last token handed out
        self.used = False       # the witness was handed out
        self.any = False        # a token before the current point was handed out
        self.gap = False        # and it is after the start of the range
        self.reached = False    # a token at the current point was handed out

    def __iter__(self):
        return self

    def __pv_iter__(self):
        return self

    def havoc(self):
        E = self.E
        self.last = fresh(E, 'token end')
        self.used = E.choice('witness consumed %d' % E_n(E), [False, True])
        E.assume(self.last >= -1)

    def __next__(self):
        E, st = self.E, self.st
        self.n += 1
        p = st['p']
        k = E.choice('token %d' % self.n, ['end', 'other'] + ([] if self.used else ['witness']))
        if k == 'end':
            if not self.used or p is not None and not self.reached:
                E.assume(False)
            raise StopIteration
        if k == 'witness':
            t, self.used = st['T'], True
            E.assume(t.pos >= self.last)
        else:
            t = Tok(fresh(E, 't.pos'), fresh(E, 't.end'))
            E.assume(t.pos >= self.last)
            E.assume(t.end > t.pos)
            E.assume(t.pos >= st['cpos'])
            E.assume(t.end <= st['cend'])
            if not self.used:
                E.assume(t.end <= st['T'].pos)
        if p is not None and not self.reached:
            if t.pos >= p.pos:
                # every fragment starts with a token
                E.assume(t.pos == p.pos)
                E.assume(t.end <= p.end)
                self.reached = True
            else:
                E.assume(t.end <= p.pos)
                if t.end > st['L']:
                    self.any = True
                if t.end > st['low']:
                    self.gap = True
        self.last = t.end
        return t


_count = [0]


def E_n(E):
    E.ghost['c12'] = E.ghost.get('c12', 0) + 1
    return E.ghost['c12']


WS = ['', ' ', '\n']


def edits_unit(E, range_start, range_end, has, given=True):
    El = E.mod('quickly.dom.element')
    U = E.mod('quickly.dom.util')
    if not E.symbolic:
        return
    Or, And, Not = E.Or, E.And, E.Not
    st = dict(p=None, ys=[], inserted=False, modified=False)
    cpos, cend = E.int('context.pos', 0), E.int('context.end')
    E.assume(cend >= cpos)
    st.update(cpos=cpos, cend=cend)
    T = st['T'] = Tok(E.int('witness.pos'), E.int('witness.end'))
    E.assume(T.pos >= cpos)
    E.assume(T.end > T.pos)
    E.assume(T.end <= cend)
    tokens = Tokens(E, st)
    a_start = E.int('start pos', 0) if range_start else None
    a_end = E.int('end pos', 0) if range_end else None
    start = cpos if a_start is None else a_start
    end = cend if a_end is None else a_end
    F = E.int('first pos') if has else None
    if has:
        E.assume(F >= cpos)
        E.assume(F < cend)
    mx = lambda a, b: E.ite(a >= b, a, b)
    mn = lambda a, b: E.ite(a <= b, a, b)
    st['L'] = L0 = mn(start, F) if has else start
    st['seen'] = False

    class Text:
        def __pv_getslice__(self, s):
            p = st['p']
            if p is None or s.step is not None:
                raise core.Unsupported("text between other positions")
            E.prove("the text that is looked at is the text between two fragments", And(s.start == st['L'], s.stop == p.pos))
            st['gaptext'] = ' tok ' if tokens.any else E.choice('gap', [' ', '\n'])
            return st['gaptext']

    class Points:
        def __init__(self):
            self.p = None

        def __iter__(self):
            return self

        def __pv_iter__(self):
            return self

        def __next__(self):
            n = E_n(E)
            st['ys'], st['new'] = [], None
            tokens.gap = tokens.any = tokens.reached = False
            st.pop('gaptext', None)
            kind = E.choice('point %d' % n, ['end', 'new', 'empty'] + (['old', 'modified'] if has else []))
            if kind == 'end':
                if has and not st['seen']:
                    E.assume(False)
                self.p = st['p'] = None
                self.kind = 'end'
                raise StopIteration
            self.kind = kind
            before, after = E.choice('before %d' % n, WS[:2]), '\n '
            if kind in ('new', 'empty'):
                text = 'new' if kind == 'new' else ''
                self.p = El.Point(None, None, lambda: text, False, before, after)
                st['p'] = None
            else:
                pos, pend = E.int('p.pos'), E.int('p.end')
                E.assume(pend > pos)
                E.assume(pend <= cend)
                E.assume(pos >= cpos)
                if not st['seen']:
                    E.assume(pos == F)
                else:
                    E.assume(pos >= st['L'])
                # no token lies across the borders of a fragment
                E.assume(Or(T.end <= pos, T.pos >= pos))
                E.assume(Or(T.end <= pend, T.pos >= pend))
                self.p = st['p'] = El.Point(pos, pend, lambda: 'mod', kind == 'modified', before, after)
            st['low'] = mx(st['L'], start)
            return self.p

    points = Points()
    pos0 = F

    class G(El.Element):
        pos = property(lambda self: pos0)

        def points(self):
            return points

    class Context:
        pos, end = cpos, cend

        def tokens(self):
            return tokens

    def need(loc, *names):
        for n in names:
            if n not in loc:
                raise core.Unsupported("no local %s" % n)

    def havoc(loc):
        need(loc, 'pos', 'insert_after', 'inserted', 'modified')
        st['seen'] = E.choice('after some text', [False, True]) if has else False
        st['ys'] = []
        points.p, points.kind = None, None
        st['p'] = None
        if st['seen']:
            st['L'] = fresh(E, 'L')
            E.assume(st['L'] > F)
            E.assume(st['L'] <= cend)
            tokens.havoc()
            E.assume(tokens.last <= st['L'])
            if tokens.used:
                E.assume(T.pos < st['L'])
                E.assume(T.end <= tokens.last)
            else:
                E.assume(T.pos >= tokens.last)
            st['modified'] = fresh_bool(E, 'modified before')
        else:
            st['L'] = L0
            st['modified'] = False
            tokens.last, tokens.used = -1, False
        # the witness is in a fragment, or not (it belongs to nothing: it must go)
        E.assume(Or(T.end <= st['L'], T.pos >= st['L'])) if st['seen'] else None
        st['inserted'] = fresh_bool(E, 'inserted before')
        loc['pos'], loc['inserted'], loc['modified'] = st['L'], st['inserted'], st['modified']
        st['insert_after'] = loc['insert_after'] = E.choice('space after', WS[::2])

    def spec(L, p, kind, ys):
        """Conditions on the edits made for one fragment."""
        space = max((st['insert_after'], p.space_before), key=lambda s: (s.count('\n'), s.count(' ')))
        if kind == 'empty':
            return [("nothing is written for an empty text", not ys)]
        if kind == 'new':
            ok = len(ys) == 1
            return [("a new text is written once, with its spacing, after the previous text",
                     And(ok, *([ys[0][0] == L, ys[0][1] == L, ys[0][2] == space + 'new'] if ok else [])))]
        out = []
        if kind == 'modified':
            ok = bool(ys)
            out.append(("a modified text is replaced, last", And(ok, *([ys[-1][0] == p.pos, ys[-1][1] == p.end, ys[-1][2] == 'mod'] if ok else []))))
            ys = ys[:-1]
        out.append(("at most one edit between two fragments", len(ys) <= 1))
        low = mx(L, start)
        if ys:
            a, b, t = ys[0]
            out.append(("an edit stays between the fragments", And(a >= L, a <= b, b <= p.pos)))
            out.append(("only the spacing is written", t == space))
            out.append(("text is deleted inside the range only", Or(a == b, Not(tokens.gap), And(a >= low, b <= end))))
            out.append(("nothing is written without reason",
                        Or(tokens.gap, And(L == p.pos, space != '', Or(st['inserted'], st['modified'], p.modified)),
                           And(st['inserted'], '\n' in space, st.get('gaptext') == ' '))))
        else:
            out.append(("spacing between adjacent changed texts", Not(And(L == p.pos, space != '', Or(st['inserted'], st['modified'], p.modified)))))
            out.append(("a newline after new text", Not(And(given, p.pos > L, Not(tokens.any), st['inserted'], '\n' in space, st.get('gaptext') != '\n'))))
        lo, hi = mx(T.pos, start), mn(T.end, end)
        out.append(("removed text is deleted", E.Implies(And(T.pos >= L, T.end <= p.pos, lo < hi), And(bool(ys), *([ys[0][0] <= lo, ys[0][1] >= hi] if ys else [])))))
        return out

    def inv(loc):
        need(loc, 'pos', 'insert_after', 'inserted', 'modified')
        p, kind = points.p, getattr(points, 'kind', None)
        out = []
        if kind is None:
            return [("position", loc['pos'] == st['L'])]
        out += spec(st['L'], p, kind, st['ys'])
        old = kind in ('old', 'modified')
        out.append(("position after the fragment", loc['pos'] == (p.end if old else st['L'])))
        if old:
            out.append(("state", And(Not(loc['inserted']), E.Iff(loc['modified'], kind == 'modified'), loc['insert_after'] == p.space_after)))
            out.append(("tokens consumed belong to earlier text", And(tokens.last <= p.end, E.Implies(tokens.used, T.end <= tokens.last))))
        elif kind == 'new':
            out.append(("state", And(loc['inserted'], E.Iff(loc['modified'], st['modified']), loc['insert_after'] == p.space_after)))
        else:
            out.append(("state", And(E.Iff(loc['inserted'], st['inserted']), E.Iff(loc['modified'], st['modified']), loc['insert_after'] == st['insert_after'])))
        return out

    def t_entry(loc):
        need(loc, 'del_pos', 'del_end')
        return dict(del_pos=loc['del_pos'], del_end=loc['del_end'])

    def t_havoc(loc):
        need(loc, 'del_end', 'del_pos')
        loc['del_end'] = fresh(E, 'del_end')
        used = tokens.used
        tokens.havoc()
        if used and not tokens.used:
            E.assume(False)
        tokens.any = fresh_bool(E, 'token between')
        tokens.gap = fresh_bool(E, 'token in the gap')
        E.assume(E.Implies(tokens.gap, tokens.any))
        E.assume(tokens.last <= st['p'].pos)
        if tokens.used:
            E.assume(T.end <= tokens.last)
        else:
            E.assume(T.pos >= tokens.last)
        E.assume(E.Implies(tokens.gap, tokens.last > st['low']))
        E.assume(E.Implies(And(tokens.any, Not(tokens.gap)), tokens.last <= st['low']))
        E.assume(E.Implies(tokens.any, tokens.last > st['L']))

    def t_inv(loc, entry):
        need(loc, 'del_pos', 'del_end')
        return [("deleted part ends at the last token", Or(loc['del_end'] == entry['del_end'], loc['del_end'] <= st['p'].pos)),
                ("tokens before the fragment are deleted", E.Implies(And(tokens.used, T.end > st['low']), loc['del_end'] >= T.end)),
                ("nothing deleted without a token", Or(tokens.gap, loc['del_end'] <= entry['del_pos'])),
                ("a token found is deleted", E.Implies(tokens.gap, loc['del_end'] > entry['del_pos'])),
                ("start of the deleted part", And(loc['del_pos'] == entry['del_pos'], entry['del_pos'] == st['low'])),
                ("tokens before the fragment", And(tokens.last <= st['p'].pos, not tokens.reached))]

    where = lambda it: (lambda site, loc: 'edits' in site and loc.get('__it__') is it)
    E.loop(LoopSpec("fragments", where(points), inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v))
    E.loop(LoopSpec("tokens", where(tokens), t_inv, on_havoc=t_havoc, for_only=True, entry=t_entry, fresh=lambda n, v: v))
    E.cover("precondition")
    st['insert_after'] = ''
    for y in El.Element.edits(G(), Context(), a_start, a_end, Text() if given else None):
        st['ys'].append(y)
    # after the last fragment
    L, ys = st['L'], st['ys']
    E.prove("at most one edit after the last fragment", len(ys) <= 1)
    lo, hi = mx(T.pos, start), mn(T.end, end)
    if ys:
        a, b, t = ys[0]
        E.prove("the rest is deleted inside the range, after the last fragment", And(t == '', a >= L, a >= start, b <= end, a < b))
    E.prove("all text after the last fragment is deleted", E.Implies(And(T.pos >= L, lo < hi), And(bool(ys), *([ys[0][0] <= lo, ys[0][1] >= hi] if ys else []))))
    E.prove("nothing to do at the end of the text", E.Implies(bool(ys), mx(L, start) < end))


def _units():
    for rs in (False, True):
        for re_ in (False, True):
            for has in (False, True):
                name = 'edits, %s, %s' % ('range%s%s' % (' from' if rs else '', ' to' if re_ else '') if rs or re_ else 'whole', 'existing text' if has else 'new text only')
                unit('C12', name, functions=['dom.element.Element.edits'], random_runs=0)(lambda E, a=rs, b=re_, c=has: edits_unit(E, a, b, c))


    unit('C12', 'edits, whole, text not given', functions=['dom.element.Element.edits'], random_runs=0)(lambda E: edits_unit(E, False, False, True, False))


_units()


@unit('C12', 'applying the edits', functions=['dom.element.Element.edit'], random_runs=0)
def u_edit(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    st = dict(inside=False, item=None, applied=[], n=None)

    class Edits:
        def __iter__(self):
            return self

        def __pv_iter__(self):
            return self

        def __next__(self):
            st['applied'] = []
            if E.choice('end', [False, True]):
                st['item'] = None
                raise StopIteration
            a, b = E.int('pos'), E.int('end')
            st['item'] = (a, b, 'text')
            return st['item']

    edits = Edits()
    class Ctx:
        pos, end = 0, 50

    root, other = Ctx(), Ctx()
    given = E.choice('arguments', [(None, None, None), (other, 3, 7), (None, 3, None), (other, None, 7)])

    class G(El.Element):
        def edits(self, context, start=None, end=None, *args, **kw):
            E.prove("the edits of the range and the context asked for", context is (given[0] or root) and (start, end) == given[1:])
            return edits

    class Doc:
        def text(self):
            return 'text'

        def builder(self):
            class B:
                pass
            B.root = root
            return B

        def __enter__(self):
            st['inside'] = True
            return self

        def __exit__(self, *a):
            st['inside'] = False

        def __setitem__(self, k, text):
            E.prove("inside one edit block", st['inside'])
            if not isinstance(k, slice) or k.step is not None:
                raise core.Unsupported("document change")
            st['applied'].append((k.start, k.stop, text))

        def __bool__(self):
            return True

    def inv(loc):
        if 'n' not in loc:
            raise core.Unsupported("no count")
        item, ys = st['item'], st['applied']
        if item is None:
            st['n'] = loc['n']
            return [("counter", loc['n'] >= 0)]
        ok = len(ys) == 1
        return [("each edit is applied once, as it is", E.And(ok, *([ys[0][0] == item[0], ys[0][1] == item[1], ys[0][2] == item[2]] if ok else []))),
                ("each edit is counted", loc['n'] == st['n'] + 1)]

    def havoc(loc):
        st['item'] = None
    E.loop(LoopSpec("applying", lambda site, loc: loc.get('__it__') is edits, inv, on_havoc=havoc, for_only=True, fresh=lambda n, v: v if not isinstance(v, int) else NotImplemented,
                    modifies=lambda loc: [(doc, ('[]',))]))
    E.cover("precondition")
    doc = Doc()
    r = G().edit(doc, *given)
    E.prove("the number of changes is returned", r == st['n'] and not st['inside'])


# ---------------------------------------------------------------- documents

SNIPPETS = ['c4', "d'8.", 'e', '<c e g>2', 'r4', '{ f g }', '% comment\n', '%{ block %}', '\\time 3/4', '| ', 'g4-.', 'a4\\f', '\\relative { c d }', 's1*2/3', '\\tuplet 3/2 { c8 d e }']
HEADER = ['title = "new"', 'piece = ##t', 'indent = 10\\mm', '% comment\n', 'a.b = #\'(1 2)']


def parsed(M, text):
    import io, contextlib
    import parce
    M.get('quickly')
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        d = parce.Document(parce.find('lilypond'), text, transformer=True)
        x = d.get_transform(True)
    return d, x, out.getvalue()


def reread(M, text):
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        return M.get('quickly.dom.read').lily_document(text, True)


def gen(rng):
    g = Gen(rng, max_depth=rng.choice([2, 3, 4]))
    return dict(text=g.document(rng.choice([2, 5])), ops=[(rng.choice(['delete', 'delete', 'insert', 'insert', 'insert', 'replace', 'modify', 'modify', 'slice', 'clear', 'copy']), rng.randint(0, 999), rng.randint(0, 99),
                                         rng.choice(SNIPPETS), rng.choice(HEADER)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))])


def change(M, L, D, x, op):
    """Edit the tree; False if not applicable."""
    kind, i, j, snippet, assignment = op
    lists = [n for n in [x] + list(x.descendants()) if isinstance(n, (L.Document, L.MusicList, L.SimultaneousMusicList, L.Header, L.Paper))]
    if kind == 'modify':
        nodes = [n for n in x.descendants() if isinstance(n, (L.Note, L.Duration, L.String, L.Octave, L.Fraction, L.Articulation, L.SinglelineComment, L.MultilineComment))]
        if not nodes:
            return False
        n = nodes[i % len(nodes)]
        if j % 2 and isinstance(n, (L.Note, L.String, L.SinglelineComment, L.MultilineComment)):
            n.head = 'as'       # a second change follows
        if isinstance(n, L.Note):
            n.head = 'fis'
        elif isinstance(n, L.Duration):
            from fractions import Fraction
            n.head = Fraction(3, 32)
        elif isinstance(n, L.String):
            n.head = 'a "new" \\string'
        elif isinstance(n, L.Octave):
            n.head = -n.head
        elif isinstance(n, L.Fraction):
            from fractions import Fraction
            n.head = (7, 16) if isinstance(n.head, tuple) else Fraction(7, 16)
        elif isinstance(n, L.Articulation):
            return False
        else:
            n.head = ' changed '
        return True
    if kind == 'copy':
        # a copy that keeps its place in the text takes over, whatever was modified in it
        nodes = list(x.descendants())
        if not nodes:
            return False
        n = nodes[i % len(nodes)]
        new = n.copy_with_origin()
        if isinstance(n, L.Note) and j % 2:
            # another one in its place in the text
            new = n.copy()
            new.head = 'fis'
            new.copy_origin_from(n, True)
        n.parent[n.parent.index(n)] = new
        return True
    p = lists[i % len(lists)]
    if isinstance(p, (L.Header, L.Paper)):
        new = reread(M, '\\header { %s }' % assignment)[0]
        new = new[0].copy()
    else:
        new = reread(M, snippet)[0].copy()
    if kind == 'insert':
        p.insert(j % (len(p) + 1), new)
        return True
    if not len(p):
        return False
    j %= len(p)
    if kind == 'delete':
        del p[j]
    elif kind == 'replace':
        p[j] = new
    elif kind == 'slice':
        p[j:j + 2] = [new, new.copy()]
    else:
        p.clear()
    return True


@bounded('C12', 'documents', gen=gen, quick=2500, thorough=60000, seconds=60, functions=['dom.element.Element.edits', 'dom.element.Element.points', 'dom.element.Element.edit', 'lang.lilypond.LilyPondTransform.root'],
         rule='random documents with random sequences of edits of the tree; the edits of the text, the text left alone, and the text read back')
def b_docs(M, c):
    L, D = M.get('quickly.dom.lily'), M.get('quickly.dom.base')
    text = c['text']
    d, x, noise = parsed(M, text)
    if noise:
        return False
    root = d.builder().root
    check(list(x.edits(root)) == [] and list(x.edits(root, None, None, text)) == [], "an unmodified document gives edits %r: %r", list(x.edits(root)), text)
    before = [(p.pos, p.end) for p in x.points() if p.pos is not None]
    check(all(a[1] <= b[0] for a, b in zip(before, before[1:])), "texts out of order: %r in %r", before, text)
    done = [change(M, L, D, x, op) for op in c['ops']]
    if not any(done):
        return False
    edits = list(x.edits(root, None, None, text))
    last = 0
    for a, b, t in edits:
        check(0 <= a <= b <= len(text) and a >= last, "edits overlap or out of order: %r", edits)
        last = b
    # the text of elements that are still there and not modified
    for p in x.points():
        if p.pos is not None:
            for a, b, t in edits:
                check(b <= p.pos or a >= p.end or (p.modified and (a, b) == (p.pos, p.end)), "edit %r changes %r at %d in %r", (a, b, t), p.text(), p.pos, text)
    want = text
    for a, b, t in reversed(edits):
        want = want[:a] + t + want[b:]
    n = x.edit(d)
    check(n == len(edits), "number of edits %d, not %d", n, len(edits))
    check(d.text() == want, "document %r is not the edited text %r", d.text(), want)
    y, fresh_tree = d.get_transform(True), reread(M, d.text())
    for attempt in range(3):
        if y.equals(fresh_tree):
            break
        # parce's update of tokens and tree depends on timing; only what fails every time counts
        d2, x2, noise = parsed(M, text)
        for op in c['ops']:
            change(M, L, D, x2, op)
        x2.edit(d2)
        y, fresh_tree = d2.get_transform(True), reread(M, d2.text())
    check(y.equals(fresh_tree), "the updated document gives another tree than its text: %r edited to %r by %r", text, d.text(), c['ops'])
    again = reread(M, x.write())
    if not again.equals(x):
        return False        # the edited tree is not writable LilyPond (e.g. a command lost its argument)
    back = reread(M, d.text())
    check(back.equals(x), "reads back as another tree: %r edited to %r by %r", text, d.text(), c['ops'])
    return True


def gen_selection(rng):
    g = Gen(rng, max_depth=rng.choice([2, 3, 4]))
    return dict(text=g.document(rng.choice([2, 5])), p=rng.randint(0, 100), q=rng.randint(0, 100), how=rng.choice(['modify', 'delete', 'direct']), root=rng.random() < .3)


@bounded('C12', 'selections', gen=gen_selection, quick=2500, thorough=60000, seconds=60, functions=['dom.edit.Edit.edit_cursor', 'dom.element.Element.edit', 'dom.element.Element.edits', 'dom.element.Element.find_descendant_right', 'dom.element.Element.find_descendant_left'],
         rule='random documents and random selections; everything in the selection is modified or removed, the text before and after the selection stays as it was')
def b_selection(M, c):
    import parce
    L, Edit = M.get('quickly.dom.lily'), M.get('quickly.dom.edit').Edit
    text = c['text']
    d, x, noise = parsed(M, text)
    p, q = sorted((c['p'] * len(text) // 100, c['q'] * len(text) // 100))
    if noise or p == q:
        return False
    types = (L.Note, L.String, L.SinglelineComment, L.MultilineComment, L.Symbol)
    inside = [n for n in x.descendants() if n.pos is not None and p <= n.pos and n.end <= q]
    texts = [n for n in inside if isinstance(n, types)]
    done = []

    def modify(n):
        if isinstance(n, types):
            done.append(n)
            n.head = 'fis' if isinstance(n, L.Note) and n.head != 'fis' else 'cis' if isinstance(n, L.Note) else 'new'

    def delete(n):
        if isinstance(n.parent, (L.MusicList, L.ChordBody)) and isinstance(n, L.Note):
            done.append(n)
            n.parent.remove(n)

    action = delete if c['how'] == 'delete' else modify

    class Change(Edit):
        range_from_root = c['root']

        def edit_range(self, r):
            # only what is selected completely
            for n in list(r.nodes()):
                if any(n is m for m in inside):
                    action(n)
                else:
                    check(not isinstance(n, types) or len(n), "%r is not in the selection %r of %r", n, text[p:q], text)
            return 'result'

    if c['how'] == 'direct':
        for n in inside:
            action(n)
        n = x.edit(d, start=p, end=q)
    else:
        e = Change()
        check(e.edit_cursor(parce.Cursor(d, p, q)) == 'result', "the result of edit_range is returned")
        n = e.changes()
        check(e.document() is None, "the document is only known while editing")
    new = d.text()
    if c['how'] != 'delete':
        check([id(n) for n in done] == [id(n) for n in texts], "changed %r, but %r are in the selection %r of %r", done, texts, text[p:q], text)
    check(bool(n) == (new != text), "%d changes: %r to %r", n, text, new)
    # a node that starts before the selection may be in the range if all its children are
    pack = lambda t: ''.join(t.split())
    check(new.startswith(text[:p]) or c['how'] == 'delete' and pack(new).startswith(pack(text[:p])), "text before the selection %d..%d changed: %r to %r", p, q, text, new)
    check(new.endswith(text[q:]) and len(new) >= len(text[:p] + text[q:]), "text after the selection %d..%d changed: %r to %r", p, q, text, new)
    if not done:
        check(new == text, "nothing was edited, but %r became %r", text, new)
    return bool(done) and bool(text[q:].strip())


# ---------------------------------------------------------------- finding nodes by their position (proof)

def find_unit(name, reverse):
    """The first node in document order that starts at or right of a position
    (or the last one that ends at or left of it), in a tree of any shape.

    Assumed: a node lies within its parent, siblings are in order, no text is
    empty. So nothing inside a node that ends at or before the position can
    be the one, nor inside a node without a position."""
    @unit('C12', name.replace('_', ' '), functions=['dom.element.Element.' + name], random_runs=0)
    def u(E):
        El = E.mod('quickly.dom.element')
        if not E.symbolic:
            return
        from checks.c10 import It, Rest, Havoc, Walk, same
        E.assumed("the positions of the nodes are in document order (children within their parent, siblings one after the other), and a node is not empty")
        p = E.int('position')

        class Found:
            """Ghost: an element with any number of children."""
            def __init__(self, W, root=False):
                self.W, self.root = W, root
                self.size = W.nat('size')
                self.has = not root and E.choice('has a position %d' % W.n, [True, False])
                W.n += 1
                if self.has:
                    self.a, self.b = E.int('pos'), E.int('end')
                    E.assume(self.a < self.b)

            pos = property(lambda self: self.a if self.has else None)
            end = property(lambda self: self.b if self.has else None)

            def __bool__(self):
                return True

            def __pv_iter__(self):
                return self.W.start(self, False)

            def __pv_reversed__(self):
                return self.W.start(self, True)
            __iter__ = __pv_iter__

            def __getattr__(self, name):
                raise core.Unsupported("an element's " + name)

        class W(Walk):
            seen = None     # the node at hand

            def resolve(self):
                """The node at hand was left: neither it nor a descendant is wanted."""
                n, self.seen = self.seen, None
                if n is not None:
                    E.prove("a node is only left if nothing in it can be the one", not n.has or ((n.a >= p) if reverse else (n.b <= p)))
                    self.todo[0:2] = []

            def start(self, n, rev):
                if rev != reverse:
                    raise core.Unsupported("the other direction")
                if not n.root:
                    E.prove("enters the node at hand", n is self.seen)
                    E.prove("a node is only entered if it is not the one itself", n.has and ((n.b > p) if reverse else (n.a < p)))
                    self.seen = None
                    self.todo.pop(0)
                E.prove("nothing is left out", bool(self.todo) and self.todo[0] == ('below', n))
                self.todo[0] = it = It(self, rev, n.size)
                return it

            def advance(self, it):
                self.resolve()
                E.prove("looks at the nodes in order", bool(self.todo) and self.todo[0] is it)
                if it.size == 0:
                    self.todo.pop(0)
                    raise StopIteration
                c = Found(self)
                rest = self.nat('size')
                E.assume(it.size == 1 + c.size + rest)
                it.size = rest
                self.todo[0:0] = [c, ('below', c)]
                self.seen = c
                return c

            def measure(self):
                return sum(2 * t.size + 1 if isinstance(t, It) else 2 * t[1].size if isinstance(t, tuple) else 2 for t in self.todo) + (0 if self.todo else 0)
        w = W(E, reverse)
        root = Found(w, True)
        w.todo = [('below', root)]

        def havoc_outer(loc):
            if 'gen' not in loc or 'stack' not in loc:
                raise core.Unsupported("another way of walking")
            w.seen = None
            w.todo = [loc['gen']]
            k = E.choice('stack', ['empty', 'one', 'more'])
            del loc['stack'][:]
            if k == 'more':
                loc['stack'].append(Rest())
            if k != 'empty':
                loc['stack'].append(It(w, reverse))
            w.todo += loc['stack'][::-1]

        def inv(loc):
            if 'gen' not in loc or 'stack' not in loc:
                raise core.Unsupported("another way of walking")
            w.resolve()
            return [("what is left is what the iterators yield", same(w.todo, [loc['gen']] + loc['stack'][::-1]))]

        def inv_inner(loc, entry):
            return inv(loc) + [("iterates the current iterator", loc['gen'] is entry[0]), ("no work is added", w.measure() <= entry[1])]

        def size(loc):
            w.seen = None
            loc['gen'].size = w.nat('size')
            w.todo[0] = loc['gen']
        E.loop(LoopSpec("walk", lambda site, loc: name in site, inv, fresh=lambda n, v: It(w, reverse) if n == 'gen' else Havoc(n, v), on_havoc=havoc_outer, while_only=True, variant=lambda loc: w.measure()))
        E.loop(LoopSpec("children", lambda site, loc: name in site, inv_inner, fresh=lambda n, v: v if n == 'gen' else Havoc(n, v), for_only=True, entry=lambda loc: (loc['gen'], w.measure()),
                        variant=lambda loc: w.measure(), on_havoc=size))
        E.cover("precondition")
        n = getattr(El.Element, name)(root, p)
        if n is None:
            w.resolve()
            E.prove("nothing is left if there is no such node", not w.todo)
        else:
            E.prove("the first such node", n is w.seen and n.has and ((n.b <= p) if reverse else (n.a >= p)))
    return u


find_unit('find_descendant_right', False)
find_unit('find_descendant_left', True)


class Several:
    """Ghost: any number (at least one) of tokens."""
    def __init__(self, E, name):
        self.first, self.last = (type('Tok', (), dict(pos=E.int('%s.%s.pos' % (name, w)), end=E.int('%s.%s.end' % (name, w))))() for w in ('first', 'last'))

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            return self.last if i else self.first
        raise core.Unsupported("token %r" % (i,))

    def __bool__(self):
        return True


class Origin:
    """Ghost: an element with or without tokens of its own."""
    def __init__(self, E, name, tail=False):
        self._pv = {}
        for a in ('head_origin', 'tail_origin') if tail else ('head_origin',):
            how = E.choice(name + '.' + a, ['some', 'none', 'missing'])
            if how != 'missing':
                self._pv[a] = Several(E, name + '.' + a) if how == 'some' else ()

    def __getattr__(self, name):
        if name in ('head_origin', 'tail_origin'):
            try:
                return self._pv[name]
            except KeyError:
                raise AttributeError(name) from None
        raise core.Unsupported("an element's " + name)

    def tokens(self, a):
        return self._pv.get(a) or None

    def __bool__(self):
        return True


class Kids:
    """Ghost: an iterator over any number of nodes. cur is the node at hand."""
    def __init__(self, E, make):
        self.E, self.make, self.n, self.cur, self.over = E, make, 0, None, False
        self.left = E.int('nodes')
        E.assume(self.left >= 0)

    def __iter__(self):
        return self

    def __next__(self):
        self.step()
        self.cur = None
        if self.left == 0:
            self.over = True
            raise StopIteration
        self.left = self.left - 1
        self.cur = self.make(self, self.n)
        self.n += 1
        return self.cur

    def step(self):
        """The node at hand is left."""

    def havoc(self, E):
        self.cur = None
        self.left = E.int('nodes left')
        E.assume(self.left >= 0)


def kids_loop(E, it, inv=lambda loc: [], havoc=None):
    def on_havoc(loc):
        it.havoc(E)
        if havoc:
            havoc(loc)

    def all_inv(loc):
        it.step()
        it.cur = None
        return [("nodes left", it.left >= 0)] + inv(loc)
    E.loop(LoopSpec("nodes", lambda site, loc: loc.get('__it__') is it, all_inv, on_havoc=on_havoc, for_only=True, variant=lambda loc: it.left,
                    fresh=lambda n, v: v))


@unit('C12', 'the position of an element', functions=['dom.element.Element.pos'], random_runs=0)
def u_pos(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return

    class Seen(Kids):
        def step(self):
            if self.cur is not None:
                E.prove("only a node without text is passed over", self.cur.tokens('head_origin') is None)
    it = Seen(E, lambda it, n: Origin(E, 'node%d' % n))
    me = Origin(E, 'self')
    me._pv['descendants'] = None
    object.__setattr__(me, 'descendants', lambda *a, **k: it if not a and not k else E.unsupported("other nodes"))
    kids_loop(E, it)
    E.cover("precondition")
    pos = El.Element.pos.fget(me)
    if me.tokens('head_origin'):
        E.prove("where its own text starts", pos == me.tokens('head_origin').first.pos)
    elif it.cur is not None:
        t = it.cur.tokens('head_origin')
        E.prove("where the text of its first descendant with text starts", t is not None and pos == t.first.pos)
    else:
        E.prove("none if there is no text", pos is None and it.over)


@unit('C12', 'the end of an element', functions=['dom.element.Element.end'], random_runs=0)
def u_end(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    E.assumed("a child's end is known (induction over the tree)")

    class Child:
        def __init__(self, n):
            self.end = E.int('child%s.end' % n) if E.choice('child%s has text' % n, [True, False]) else None

        def __getattr__(self, name):
            raise core.Unsupported("a child's " + name)

        def __bool__(self):
            return True

    class Seen(Kids):
        started = False

        def step(self):
            if self.cur is not None:
                E.prove("only a child without text is passed over", self.cur.end is None)
    it = Seen(E, lambda it, n: Child(n))

    class Me(Origin):
        def __pv_reversed__(self):
            if it.started:
                raise core.Unsupported("more than one walk")
            it.started = True
            return it
        __reversed__ = __pv_reversed__
    me = Me(E, 'self', True)
    kids_loop(E, it)
    E.cover("precondition")
    end = El.Element.end.fget(me)
    tail, head = me.tokens('tail_origin'), me.tokens('head_origin')
    if tail:
        E.prove("where its own last text ends", end == tail.last.end)
    elif it.cur is not None:
        E.prove("where the last child with text ends", it.cur.end is not None and end == it.cur.end)
    else:
        E.prove("all children are asked", it.over)
        E.prove("where its own text ends, if any", end == head.last.end if head else end is None)


@unit('C12', 'the child at a position', functions=['dom.element.Element.find_child'], random_runs=0)
def u_find_child(E):
    El = E.mod('quickly.dom.element')
    if not E.symbolic:
        return
    E.assumed("the positions of the nodes are in document order (children within their parent, siblings one after the other), and a node is not empty")
    p = E.int('position')

    class Child:
        def __init__(self, n, before):
            self.has = E.choice('child%s has text' % n, [True, False])
            self.pos = self.end = None
            if self.has:
                self.pos, self.end = E.int('child%s.pos' % n), E.int('child%s.end' % n)
                E.assume(self.pos < self.end)
                if before is not None:
                    E.assume(before.end <= self.pos)

        def __getattr__(self, name):
            raise core.Unsupported("a child's " + name)

        def __bool__(self):
            return True

    class Seen(Kids):
        last = None     # the last child with text before the one at hand
        started = False

        def step(self):
            if self.cur is not None and self.cur.has:
                self.last = self.cur
                self.cur = None
    it = Seen(E, lambda it, n: Child(n, it.last))

    class Me:
        def __pv_iter__(self):
            if it.started:
                raise core.Unsupported("more than one walk")
            it.started = True
            return it
        __iter__ = __pv_iter__

        def __getattr__(self, name):
            raise core.Unsupported("an element's " + name)

    def havoc(loc):
        if 'prev' not in loc:
            raise core.Unsupported("another way of walking")
        k = E.choice('before', ['none', 'left', 'touching'])
        it.last = None
        if k != 'none':
            it.last = Child('before', None)
            E.assume(it.last.has)
        loc['prev'] = it.last if k == 'touching' else None

    def inv(loc):
        if 'prev' not in loc:
            raise core.Unsupported("another way of walking")
        return [("nothing before touches the position, or it is the last child and remembered", (it.last.end == p) if loc['prev'] is not None and loc['prev'] is it.last
                 else loc['prev'] is None and (it.last is None or it.last.end < p))]
    kids_loop(E, it, inv, havoc)
    E.cover("precondition")
    n = El.Element.find_child(Me(), p)
    last = it.last
    if n is None:
        E.prove("none of the children before touches the position", last is None or last.end < p)
        E.prove("nor any of those that follow", it.over or it.cur is not None and it.cur.has and it.cur.pos > p)
    else:
        E.prove("a child with text", n is it.cur or n is last)
        E.prove("it touches the position", n.has and (n.pos <= p) & (p <= n.end))
        if n is not it.cur:
            E.prove("and the next one does not", it.over or it.cur is not None and it.cur.has and it.cur.pos > p)
        else:
            E.prove("and the next one does not (it can not)", p < n.end)

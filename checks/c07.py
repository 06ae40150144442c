"""C07: transposing music."""
from pyvc.bounded import bounded, check
from checks.sound import Interp, MusicGen, frame, height, selected
import checks.c07proof
from checks.c08 import languages, parse, unnamed, version

LEVEL = 'proof'
NOTE = 'Proved on ghost music of any size: every kind of music, nested arbitrarily, every selection of notes, by loop contracts on the real code, over the contracts of transposers (C06), relative octaves (C04), names (C03), languages (C19) and ranges (C10, C11). Documents read from text are checked at run time (bounded).'


def gen(rng):
    langs = languages(rng)
    g = MusicGen(rng, langs, max_depth=rng.choice([2, 3, 4]))
    p = lambda: (rng.choice([0, 0, 0, 1, -1, 2]), rng.randrange(7), rng.choice([0, 0, 0, .5, -.5]))
    a, b = p(), p()
    if 'bagpipe' in langs:
        b = (b[0],) + a[1:]     # few other pitches have names
    return dict(text=g.document(), a=a, b=b, first=rng.choice([None, True, False]), checks=rng.random() < .5,
                range=rng.choice([None, None, rng.randint(0, 99), (rng.randint(0, 99), rng.randint(0, 99), rng.random() < .3), (rng.randint(0, 99), rng.choice([None, 100]), False)]))


@bounded('C07', 'music', gen=gen, quick=6000, thorough=200000, seconds=60, functions=['transpose.Transpose.edit_range'],
         rule='random documents (14 languages, nested absolute, relative, fixed, transposed and chord mode music, chords, octave checks), transposed by random intervals, as a whole, a node or a range, against an independent pitch interpreter, on the tree and on the text read back')
def b_music(M, c):
    L = M.get('quickly.dom.lily')
    T = M.get('quickly.transpose')
    P = M.get('quickly.pitch')
    Range = M.get('quickly.node').Range
    doc, noise = parse(M, c['text'])
    if noise:
        return False
    first = c['first'] if c['first'] is not None else version(c['text']) >= (2, 18)
    tr = T.Transposer(P.Pitch(*c['a']), P.Pitch(*c['b']))
    interp = Interp(M, first)
    before = interp.run(doc)
    if c['checks']:
        # correct octave checks
        for n, i in enumerate(before):
            if i.kind == 'note' and i.mode == 'rel' and n % 3 == 0:
                i.node.oct_check = i.pitch[0] - interp.base[id(i.node)]
    nodes = list(doc.descendants())
    if not nodes:
        return False
    rng = Range(doc)
    if isinstance(c['range'], int):
        rng = Range(nodes[c['range'] * len(nodes) // 100])
    elif c['range'] is not None:
        a, b, root = c['range']
        a = a * len(nodes) // 100
        b = len(nodes) - 1 if b in (None, 100) else max(a, b * len(nodes) // 100)
        if c['range'][1] is None:
            rng = Range.from_nodes(nodes[a])
        else:
            rng = Range.from_nodes(nodes[a], nodes[b], root)
    # membership of a range is C11
    where = {id(n) for n in nodes if n in rng}
    # a range that is full but starts inside its first node: both readings are fine
    either = {id(n) for n in rng.ancestor().descendants() if id(n) not in where} if rng.is_full() else ()
    def spelled(n):
        return n.head, [k.head for k in n if isinstance(k, (L.Octave, L.OctCheck))]
    written = {id(i.node): spelled(i.node) for i in before}
    fr = frame(M, doc)
    octcheck = {id(i.node): i.node.oct_check for i in before}
    try:
        T.Transpose(tr, relative_first_pitch_absolute=c['first']).edit_range(rng)
    except KeyError as e:
        # a pitch without a name in its language?
        if unnamed(M, e):
            return False
        raise
    text = doc.write()
    check(frame(M, doc) == fr, "other content changed: %s", text)
    interp = Interp(M, first)
    after = interp.run(doc)
    check([id(i.node) for i in after] == [id(i.node) for i in before], "other notes: %s", text)

    def transposed(p):
        q = P.Pitch(*p)
        tr.transpose(q)
        return q.octave, q.note, q.alter

    inside = {id(i.node): id(i.node) in where for i in before}
    for i, j in zip(before, after):
        n = i.node
        if id(n) in either:
            continue
        if not inside[id(n)]:
            # written the same, octave marks and all
            check(spelled(n) == written[id(n)], "%r changed outside the selection: %s", n, text)
            continue
        if i.kind == 'own':
            if i.where in ('Key', 'Inversion', 'AddInversion'):
                p = transposed(i.pitch)
                check(j.pitch == (i.pitch[0],) + p[1:], "%s: %r was %r", i.where, j, i)
            else:
                check(j.pitch == i.pitch and spelled(n) == written[id(n)], "%s changed: %r was %r", i.where, j, i)
        elif i.kind in ('note', 'check'):
            check(j.pitch == transposed(i.pitch), "%r was %r, not transposed by %r in %s", j, i, tr, text)
            if i.kind == 'note' and octcheck[id(n)] is not None and c['checks'] and i.mode == 'rel':
                check(n.oct_check == j.pitch[0] - interp.base[id(n)], "octave check of %r: %r", j, n.oct_check)
    # \transpose: the interval stays the same
    pairs = [(i, j) for i, j in zip(before, after) if i.kind == 'arg']
    for (i, j), (k, l) in zip(pairs[::2], pairs[1::2]):
        if inside[id(i.node)] == inside[id(k.node)]:
            check(height(l.pitch) - height(j.pitch) == height(k.pitch) - height(i.pitch), "\\transpose moves by another interval: %s", text)
    again, _ = parse(M, text)
    reread = Interp(M, first).run(again)
    check([(i.kind, i.pitch) for i in reread] == [(i.kind, i.pitch) for i in after], "reads back with other pitches: %s", text)
    return sum(i.kind == 'note' and inside[id(i.node)] for i in before) > 1


def gen_selection(rng):
    c = gen(rng)
    c.update(checks=False, p=rng.randint(0, 100), q=rng.randint(0, 100))
    return c


@bounded('C07', 'transposed selection', gen=gen_selection, quick=2500, thorough=60000, seconds=40, functions=['transpose.Transpose.edit_range', 'dom.edit.Edit.edit_cursor'],
         rule='random documents and random cursor selections; the pitches inside the selection are transposed in the text, those outside are not')
def b_selection(M, c):
    T = M.get('quickly.transpose')
    P = M.get('quickly.pitch')
    L = M.get('quickly.dom.lily')
    s = selected(M, c['text'], c)
    if not s or parse(M, c['text'])[1]:
        return False
    d, x, cursor, inside, outside = s
    first = c['first'] if c['first'] is not None else version(c['text']) >= (2, 18)
    before = Interp(M, first).run(x)
    tr = T.Transposer(P.Pitch(*c['a']), P.Pitch(*c['b']))
    try:
        T.Transpose(tr, relative_first_pitch_absolute=c['first']).edit_cursor(cursor)
    except KeyError as e:
        if unnamed(M, e):
            return False
        raise
    back, noise = parse(M, d.text())
    check(not noise, "not understood: %r transposed to %r", c['text'], d.text())
    after = Interp(M, first).run(back)
    check([(i.kind, i.mode) for i in after] == [(i.kind, i.mode) for i in before], "other notes: %r transposed to %r", c['text'], d.text())
    for i, j in zip(before, after):
        if i.kind in ('note', 'check') and id(i.node) in inside:
            q = P.Pitch(*i.pitch)
            tr.transpose(q)
            check(j.pitch == (q.octave, q.note, q.alter), "%r in the selection %r of %r became %r: %r", i, c['text'][cursor.pos:cursor.end], c['text'], j, d.text())
        elif id(i.node) in outside:
            check(j.node.head == i.node.head and (i.mode == 'rel' or j.pitch == i.pitch or any(i.node << L.Fixed)), "%r outside the selection %r became %r: %r", i, (c['p'], c['q']), j, d.text())
    return any(i.kind == 'note' and id(i.node) in inside for i in before)

"""C08: relative <-> absolute."""
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from checks.sound import Interp, MusicGen, frame, selected
import checks.c08proof

LEVEL = 'proof'
NOTE = 'Proved on ghost music of any size: both conversions, every kind of music, which music a range converts, by loop contracts on the real code, over the contracts of relative octaves (C04), names (C03), languages (C19) and ranges (C10, C11). Documents read from text and selections are checked at run time (bounded).'

LANGS = [l for l in ('nederlands', 'english', 'deutsch', 'italiano', 'norsk', 'svenska', 'suomi', 'espanol', 'français', 'català', 'portugues', 'vlaams', 'arabic', 'persian')]


def languages(rng):
    # the names of bagpipe music have other octaves than those of the other languages
    k = rng.random()
    return ('nederlands',) if k < .5 else ('bagpipe', 'bagpipe', 'nederlands') if k < .6 else tuple(rng.sample(LANGS, 3)) + ('nederlands',)


def unnamed(M, e):
    """Whether the KeyError is about a pitch that has no name in its language."""
    P = M.get('quickly.pitch')
    key = e.args[0]
    return isinstance(key, tuple) and any(key not in P.pitch_names_reversed[l] for l in P.pitch_names)


def own(L):
    return (L.Absolute, L.Fixed, L.Transpose)


def parse(M, text):
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        d = M.get('quickly.dom.read').lily_document(text, True)
    return d, out.getvalue()


def version(text):
    import re
    m = re.search(r'\\version "([\d.]+)"', text)
    return tuple(map(int, m.group(1).split('.'))) if m else ()


def gen(rng):
    langs = languages(rng)
    to_rel = rng.random() < .5
    g = MusicGen(rng, langs, max_depth=rng.choice([2, 3, 4]), relative=not to_rel or rng.random() < .5)
    return dict(text=g.document(), to='relative' if to_rel else 'absolute', first=rng.choice([None, True, False]), start=rng.random() < .6, node=rng.choice([None, None, None, rng.randint(0, 99), (rng.randint(0, 99), rng.randint(0, 99), rng.random() < .5)]))


@bounded('C08', 'conversion', gen=gen, quick=6000, thorough=200000, seconds=60, functions=['relative.Rel2abs.edit_range', 'relative.Abs2rel.edit_range', 'relative.Abs2rel.make_relative'],
         rule='random documents (14 languages, nested music, chords, own-convention music); the conversion of the document or of a part, against an independent pitch interpreter, on the tree and on the text read back')
def b_convert(M, c):
    L = M.get('quickly.dom.lily')
    R = M.get('quickly.relative')
    doc, noise = parse(M, c['text'])
    if noise:
        return False
    first = c['first'] if c['first'] is not None else version(c['text']) >= (2, 18)
    before = Interp(M, first).run(doc)
    sounds = {id(i.node): i for i in before}
    own_ = own(L)
    target, rng = doc, None
    if isinstance(c['node'], tuple):
        # a range, e.g. a selection
        nodes = list(doc.descendants())
        if not nodes:
            return False
        a, b = sorted(k * len(nodes) // 100 for k in c['node'][:2])
        rng = M.get('quickly.node').Range.from_nodes(nodes[a], nodes[b], c['node'][2])
    elif c['node'] is not None:
        nodes = [n for n in doc // (L.MusicList, L.Relative, L.Score)
                 if not any(n << (L.Relative,) + own_) and (c['to'] == 'absolute' or not isinstance(n, L.Relative))]
        if not nodes:
            return False
        target = nodes[c['node'] % len(nodes)]
    # \relative that is part of music with own conventions inside converted music may stay
    stay = {id(r) for r in doc // L.Relative if any(a for a in r << own_ if isinstance(a, L.Fixed) or any(a << L.Relative))}
    if any(target << (L.Relative, L.Fixed)) or isinstance(target, L.Relative):
        stay |= {id(r) for r in doc // L.Relative}      # part of relative music that is not converted
    inside = {id(r) for r in target // L.Relative}
    wraps = {id(n) for n in target // L.MusicList if any(n / L.Pitchable)}
    conv = R.Rel2abs(first_pitch_absolute=c['first']) if c['to'] == 'absolute' else R.Abs2rel(start_pitch=c['start'], first_pitch_absolute=c['first'])
    try:
        conv.edit_node(target) if rng is None else conv.edit_range(rng)
    except KeyError as e:
        if c['to'] == 'relative' and c['start'] and 'bagpipe' in c['text'] and unnamed(M, e):
            return False    # no name for the start pitch
        raise
    text = doc.write()
    after = Interp(M, first).run(doc)
    got = {id(i.node): i for i in after}
    for i in before:
        j = got.get(id(i.node))
        if i.kind in ('start', 'check') and j is None and c['to'] == 'absolute':
            continue
        check(j is not None, "%r is gone", i)
        check(j.pitch == i.pitch, "%r was %r in %s", j, i, text)
        if i.mode == 'own' or i.kind != 'note':
            check(j.kind == i.kind, "%r was %r", j, i)
    for j in after:
        check(id(j.node) in sounds or j.kind == 'start', "%r is new", j)
    if c['to'] == 'absolute':
        for r in target // L.Relative if rng is None else ():
            check(id(r) in stay, "relative music left: %s", text)
        for r in doc // L.Relative:
            check(id(r) in stay or id(r) not in inside or rng is not None, "relative music left in %s", text)
    elif rng is None:
        for j in after:
            if j.mode == 'abs' and j.kind == 'note' and id(j.node) in sounds and any(id(a) in wraps for a in j.node << L.MusicList):
                check(sounds[id(j.node)].mode == 'abs' and any(a for a in j.node << own_ + (L.Markup,)), "absolute music left: %r in %s", j, text)
    again, _ = parse(M, text)
    reread = Interp(M, first).run(again)
    check([(i.kind, i.pitch) for i in reread] == [(i.kind, i.pitch) for i in after], "reads back with other pitches: %s", text)
    return sum(i.kind == 'note' for i in before) > 1 and text != c['text']


def gen_selection(rng):
    c = gen(rng)
    c.update(p=rng.choice([0, rng.randint(0, 100)]), q=rng.choice([100, rng.randint(0, 100)]))
    return c


@bounded('C08', 'converted selection', gen=gen_selection, quick=2500, thorough=60000, seconds=40, functions=['relative.Rel2abs.edit_range', 'relative.Abs2rel.edit_range', 'dom.edit.Edit.edit_cursor'],
         rule='random documents and random cursor selections; the converted text sounds the same, and music that is completely selected is converted')
def b_selection(M, c):
    L = M.get('quickly.dom.lily')
    R = M.get('quickly.relative')
    s = selected(M, c['text'], c)
    if not s or parse(M, c['text'])[1]:
        return False
    d, x, cursor, inside, outside = s
    if any(n.pos < cursor.pos < n.end for n in x // L.ChordMode):
        return False    # the parser does not know \\relative after \\chordmode
    first = c['first'] if c['first'] is not None else version(c['text']) >= (2, 18)
    before = Interp(M, first).run(x)
    own_ = own(L)
    # in the order of the text
    relatives = [(id(r) in inside, id(r) in outside, any(r << own_ + (L.Relative,))) for r in x // L.Relative]
    conv = R.Rel2abs(first_pitch_absolute=c['first']) if c['to'] == 'absolute' else R.Abs2rel(start_pitch=c['start'], first_pitch_absolute=c['first'])
    try:
        conv.edit_cursor(cursor)
    except KeyError as e:
        if c['to'] == 'relative' and c['start'] and 'bagpipe' in c['text'] and unnamed(M, e):
            return False    # no name for the start pitch
        raise
    back, noise = parse(M, d.text())
    check(not noise, "not understood: %r converted to %r", c['text'], d.text())
    after = Interp(M, first).run(back)
    notes = lambda items: [(i.kind, i.pitch) for i in items if i.kind == 'note' or i.mode == 'own' and i.kind != 'start']
    check(notes(before) == notes(after), "%r converted to %s: %r", c['text'], c['to'], d.text())
    n = len(list(back // L.Relative))
    if c['to'] == 'absolute':
        gone = sum(i and not o for i, _, o in relatives)
        check(n <= len(relatives) - gone or any(o for _, _, o in relatives), "relative music in the selection left: %r converted to %r", c['text'], d.text())
        check(n >= sum(o for _, o, _ in relatives), "relative music outside the selection was converted: %r to %r", c['text'], d.text())
    return d.text() != c['text']

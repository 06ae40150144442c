"""C19: the pitch language in effect is tracked exactly."""
import re
from pyvc.engine import unit
from pyvc.bounded import bounded, check
from pyvc.instr import LoopSpec

LEVEL = 'proof'
NOTE = 'Proved by loop contract for sequences of any length: following languages, and searching backwards (the backward walk itself is C10). Which languages know a set of names is checked at run time against the name tables (bounded), as are parsed documents.'

preload = ['quickly.dom.lily']

LANGS = ['english', 'deutsch', 'français', 'català', 'nederlands']
KINDS = ['note', 'rest', 'list', 'language-none', 'language-unknown', 'language-empty', 'include-none', 'include-other', 'include-noly',
         'include-unknown'] + ['language:' + l for l in LANGS] + ['include:' + l for l in LANGS[:3]]


def make(L, kind):
    """(node, language it sets or None)"""
    if kind == 'note':
        return L.Note('c'), None
    if kind == 'rest':
        return L.Rest(), None
    if kind == 'list':
        return L.MusicList(L.Note('d')), None
    if kind == 'language-none':
        return L.Language(), None
    if kind == 'language-unknown':
        return L.Language(L.String('klingon')), None
    if kind == 'language-empty':
        return L.Language(L.String('')), None
    if kind == 'include-none':
        return L.Include(), None
    if kind == 'include-other':
        return L.Include(L.String('music.ily')), None
    if kind == 'include-noly':
        return L.Include(L.String('english')), None
    if kind == 'include-unknown':
        return L.Include(L.String('klingon.ly')), None
    k, l = kind.split(':')
    return (L.Language(L.String(l)) if k == 'language' else L.Include(L.String(l + '.ly'))), l


class Stream:
    """Ghost: a sequence of arbitrary nodes of arbitrary length."""
    def __init__(self, E, L, kinds=KINDS):
        self.E, self.L = E, L
        self.kinds = kinds
        self.node = self.lang = None
        self.n = 0

    def __pv_iter__(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.E.choice('end%d' % self.n, [False, True]):
            self.node = None
            raise StopIteration
        log = getattr(self.E, 'writelog', None)
        mark = len(log or ())
        self.node, self.lang = make(self.L, self.E.choice('kind%d' % self.n, self.kinds))
        if log is not None:
            del log[mark:]      # the construction of the ghost node is no effect of the code
        if self.lang and not self.E.symbolic:
            self.st['effect'] = self.lang
        return self.node


@unit('C19', 'following the language', functions=['pitch.PitchProcessor.follow_language', 'dom.lily.Language.language', 'dom.lily.Include.language'], random_runs=500)
def u_follow(E):
    P, L = E.mod('quickly.pitch'), E.mod('quickly.dom.lily')
    pp = P.PitchProcessor(E.choice('language', LANGS))
    st = dict(effect=pp.language, yielded=[])
    stream = Stream(E, L)
    stream.st = st

    def havoc(loc):
        # an arbitrary state in the middle of the sequence
        pp.language = E.choice('language in effect', LANGS)
        st['effect'] = pp.language
        st['yielded'] = []
        stream.node = None

    def inv(loc):
        want = stream.lang if stream.node is not None and stream.lang else st['effect']
        return [("language is the last one set", pp.language == want),
                ("every other node is yielded once, itself", st['yielded'] == ([stream.node] if stream.node is not None and not stream.lang else []) and
                 all(a is stream.node for a in st['yielded']))]
    if E.symbolic:
        E.loop(LoopSpec("following", lambda site, loc: 'follow_language' in site, inv, on_havoc=havoc, for_only=True,
                        modifies=lambda loc: [(pp, ('language', '_language'))]))
    E.cover("precondition")
    for n in pp.follow_language(stream):
        E.prove("a yielded node is the next node", n is stream.node)
        E.prove("language nodes are not yielded", not stream.lang)
        E.prove("language in effect at the node", pp.language == st['effect'])
        st['yielded'].append(n)
        if not E.symbolic:
            st['yielded'] = []
        if not E.symbolic and stream.n > 12:
            break
        if not E.symbolic:
            continue
    if E.symbolic:
        E.prove("language at the end", pp.language == st['effect'])


class Place:
    """Ghost: a node of which the preceding nodes are arbitrary (contract of the operator <, C10)."""
    def __init__(self, stream, E):
        self.stream, self.E = stream, E

    def __lt__(self, what):
        L = self.stream.L
        self.E.prove("languages and includes are searched", isinstance(what, tuple) and set(what) == {L.Language, L.Include})
        return self.stream


@unit('C19', 'searching the language backwards', functions=['pitch.PitchProcessor.find_language', 'dom.lily.Language.language', 'dom.lily.Include.language'], random_runs=300)
def u_find(E):
    P, L = E.mod('quickly.pitch'), E.mod('quickly.dom.lily')
    start = E.choice('language', LANGS)
    pp = P.PitchProcessor(start)
    stream = Stream(E, L, [k for k in KINDS if k.startswith(('language', 'include'))])
    if E.symbolic:
        E.loop(LoopSpec("searching", lambda site, loc: 'find_language' in site,
                        lambda loc: [("nothing set as long as no known language was found", pp.language == start and not (stream.node is not None and stream.lang))],
                        for_only=True, on_havoc=lambda loc: setattr(stream, 'node', None)))
        E.cover("precondition")
        pp.find_language(Place(stream, E))
    else:
        nodes = [make(L, E.choice('kind%d' % i, KINDS)) for i in range(E.int('n', 0, 6))]
        d = L.Document(*[n for n, l in nodes], L.Note('c'))
        pp.find_language(d[-1])
        known = [l for n, l in nodes if l]
        E.prove("the last known language before the place, else unchanged", pp.language == (known[-1] if known else start))
        return
    if stream.node is None:
        E.prove("no language before the place: unchanged", pp.language == start)
    else:
        E.prove("the first known language found backwards", stream.lang is not None and pp.language == stream.lang)


# ---------------------------------------------------------------- documents

def gen(rng):
    langs = ['english', 'deutsch', 'français', 'italiano', 'català', 'klingon', '', 'norsk', 'Nederlands']
    def item(d):
        k = rng.random()
        if k < .25:
            return '\\language "%s"' % rng.choice(langs)
        if k < .4:
            return '\\include "%s"' % rng.choice(['english.ly', 'deutsch.ly', 'English.ly', 'englishly.ly', 'foo.ily', 'klingon.ly', 'english', 'lib/english.ly', 'suomi.ly.ly'])
        if k < .6 and d < 3:
            return rng.choice(['{ %s }', '<< %s >>', 'music = { %s }', '\\score { { %s } }', '\\new Staff { %s }', '\\relative { %s }']) % items(d + 1)
        if k < .7:
            return rng.choice(['% \\language "english"\n', '%{ \\include "deutsch.ly" %}', '"\\\\language x"', '\\markup { \\bold x }', 'title = "english"'])
        return rng.choice(['c4', 'd8', 'r2', '<c e>', '\\time 3/4', 's1'])
    def items(d):
        return ' '.join(item(d) for _ in range(rng.randint(0, 4)))
    return dict(text=' '.join(item(0) for _ in range(rng.randint(1, 6))), start=rng.choice(['nederlands', 'svenska']))


@bounded('C19', 'documents', gen=gen, quick=1500, thorough=40000, functions=['pitch.PitchProcessor.find_language', 'pitch.PitchProcessor.follow_language'],
         rule='random documents with nested blocks and language commands; the language at every node against a scan of the node list')
def b_docs(M, c):
    P, read, L = M.get('quickly.pitch'), M.get('quickly.dom.read'), M.get('quickly.dom.lily')
    doc = read.lily_document(c['text'])
    nodes = []
    def walk(n):
        for k in list(n):
            nodes.append(k)
            walk(k)
    walk(doc)
    lang = c['start']
    known = set(P.pitch_names)
    def sets(n):
        if type(n).__name__ in ('Language', 'Include') and len(n) and type(n[0]).__name__ == 'String':
            v = n[0].head
            if type(n).__name__ == 'Include':
                v = v[:-3] if v.endswith('.ly') else None
            return v if v in known else None
    def below(n):
        return [i for k in n for i in [id(k)] + below(k)]
    at, expected, n_lang = [], [], 0
    inside = ()
    for n in nodes:
        if sets(n):
            # the nodes a command consists of are not yet after it
            at.append(lang)
            inside = below(n)
            new = sets(n)
            n_lang += 1
        elif id(n) in inside:
            at.append(lang)
            if id(n) == inside[-1]:
                lang = new
        else:
            at.append(lang)
    lang = c['start']
    for n in nodes:
        if sets(n):
            lang = sets(n)
        else:
            expected.append((n, lang))
    for n, want in zip(nodes, at):
        pp = P.PitchProcessor(c['start'])
        pp.find_language(n)
        check(pp.language == want, "language at %r is %r, not %r", n, pp.language, want)
    pp = P.PitchProcessor(c['start'])
    got = [(n, pp.language) for n in pp.follow_language(nodes)]
    check(len(got) == len(expected) and all(a is b and x == y for (a, x), (b, y) in zip(got, expected)),
          "followed %r, expected %r", got, expected)
    return n_lang > 1


def enum(tier):
    from parce.lang.lilypond_words import pitch_names
    seen = set()
    for l in pitch_names:
        for name in pitch_names[l]:
            if name not in seen:
                seen.add(name)
                yield dict(names=[name])
    yield dict(names=[])
    yield dict(names=['r', 's', 'R', 'q'])
    yield dict(names=['nonsense'])
    for l in pitch_names:
        yield dict(names=sorted(pitch_names[l]))
        yield dict(names=sorted(pitch_names[l]) + ['nonsense'])


def gen_names(rng):
    from parce.lang.lilypond_words import pitch_names
    l = rng.choice(sorted(pitch_names))
    names = rng.sample(sorted(pitch_names[l]), min(len(pitch_names[l]), rng.randint(1, 6)))
    if rng.random() < .3:
        names.append(rng.choice(['r', 's', 'q', 'R', 'xyz', 'do', 'c']))
    return dict(names=names)


@bounded('C19', 'guessing the language', enum=enum, gen=gen_names, quick=3000, thorough=60000, functions=['pitch.determine_language'],
         rule='every single name, every whole table, random subsets with foreign names; against the tables')
def b_guess(M, c):
    P = M.get('quickly.pitch')
    got = list(P.determine_language(list(c['names'])))
    names = [n for n in c['names'] if n not in ('r', 'R', 's', 'q')]
    tables = {}
    for l, t in P.pitch_names.items():
        tables.setdefault(id(t), []).append(l)
    check(len(got) == len(set(got)), "languages twice: %r", got)
    for i, ls in tables.items():
        t = P.pitch_names[ls[0]]
        hit = [l for l in got if l in ls]
        want = all(n in t for n in names)
        check(len(hit) == (1 if want else 0), "%r for names %r: %r", ls, c['names'], hit)
    check(list(P.determine_language(iter(c['names']))) == got, "depends on the kind of sequence")
    check(list(P.determine_language(set(c['names']))) == got, "depends on the kind of sequence")
    return 0 < len(got) < len(tables)

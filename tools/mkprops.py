#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Durations: notation and value are exact inverses, other values truncate",
 "Every duration LilyPond can notate (a base length from maxima down, with up to fifty dots) is written to text that reads back to exactly the same length, and is recognised as exactly writable precisely when its base length lies within LilyPond's range. Splitting any positive length into a base length and dots and joining these again gives the largest notatable duration not exceeding it that keeps the same base length. Shifting a duration changes the base length by exactly the requested power of two and the number of dots by exactly the requested count, never below zero dots.",
 ["inputs"], "every base length, every number of dots, every shift, every positive rational length",
 "tests/test_duration.py checks a handful of notations; the claim is over an unbounded family of lengths, dot counts and shifts",
 ["quickly/duration.py"],
 [("log_dotcount", "quickly/duration.py log_dotcount"), ("duration", "quickly/duration.py duration"),
  ("shift_duration", "quickly/duration.py shift_duration"), ("to_string / from_string", "quickly/duration.py to_string, from_string"),
  ("is_writable", "quickly/duration.py is_writable")])

prop("C02", "Number notations (roman, letters, English words) are exact inverses",
 "Writing a positive integer as a Roman numeral and reading it back gives the same integer for every positive integer, and every numeral written is in canonical form. Writing a non-negative integer with letters and reading it back gives the same integer, every letter string is produced by exactly one integer, for every alphabet of distinct characters, and counting upward follows the order of the alphabet. Writing an integer from 0 to 999999999 in English words and reading it back gives the same integer.",
 ["inputs"], "every integer (for words: 0..999999999) and every alphabet of distinct characters",
 "tests/test_numbering.py samples a few dozen values",
 ["quickly/numbering.py"],
 [("int2roman / roman2int", "quickly/numbering.py"), ("int2letter / letter2int", "quickly/numbering.py"), ("int2text / text2int", "quickly/numbering.py")])

prop("C03", "Pitch names read back to exactly the pitch that was written, in every language",
 "In every supported language and with every combination of spelling preferences, each pitch that the language can name, in any octave, is written as a name and octave marks that read back to exactly the same octave, note and alteration; this also holds when the pitch is written into an existing note of the music. Writing a note's own pitch back into it keeps its spelling. A preferred spelling is followed when the language has it.",
 ["inputs", "configurations"], "every language, every preference combination, every nameable pitch, every octave",
 "tests/test_pitch.py checks a few names in a few languages; the claim spans all name tables, 64 preference settings and unbounded octaves",
 ["quickly/pitch.py"],
 [("name_octave", "quickly/pitch.py PitchProcessor.name_octave"), ("read_node / write_node / process / pitchable", "quickly/pitch.py PitchProcessor"),
  ("octave marks", "quickly/pitch.py octave_to_string, octave_from_string")],
 [("pitch_names_reversed", "(note, alter) -> octave -> names, per language", "quickly/pitch.py")])

prop("C04", "Relative and absolute octaves are mutually inverse and follow the fourth rule",
 "For every pitch and every reference pitch, making the pitch relative to the reference and then absolute again (or the other way round) gives back the original pitch, and neither operation touches the note or the alteration. A relative pitch without octave marks always denotes the octave whose note lies at most three staff steps from the reference, and each octave mark moves it by exactly one octave.",
 ["inputs"], "every pitch, reference pitch, octave of the pitch name and number of octave marks",
 "tests only follow a few melodies; the arithmetic claim is over all octaves and all note pairs",
 ["quickly/pitch.py"],
 [("Pitch.make_absolute", "quickly/pitch.py"), ("Pitch.make_relative", "quickly/pitch.py")])

prop("C05", "MIDI keys and key signatures map to pitches that sound the same",
 "Every MIDI key number converts to a pitch that converts back to the same key number, with any choice of which black keys become flats and in every key signature, where notes belonging to the key are spelled as in that key. The alterations listed for a key make the scale on its tonic have exactly the step sizes of its mode, and the tonic found for a number of sharps or flats yields a major key with exactly that many. The key signature of a key command in a document has the tonic and the standard mode written there, in every pitch language.",
 ["inputs"], "every integer key number, tonic, alteration, mode and set of flats",
 "tests check one or two octaves for a few keys",
 ["quickly/pitch.py", "quickly/key.py", "quickly/dom/lily.py"],
 [("Pitch.to_midi / from_midi", "quickly/pitch.py"), ("alterations, accidentals, chromatic_scale, tonic", "quickly/key.py"), ("KeySignature.pitch", "quickly/key.py")])

prop("C06", "Transposition moves every pitch by exactly the requested interval",
 "Transposing any pitch changes its sounding height by exactly the interval between the two reference pitches (octaves included), keeps the note within the seven names and the alteration within a double sharp or flat, always terminates, and respells only when the direct spelling would exceed that limit. Adding two transpositions moves pitches by the sum of their intervals, subtracting by the difference, and a transposition applied after its reverse restores the sounding height.",
 ["inputs"], "every pitch, every pair of reference pitches, every combination of transpositions",
 "tests/test_pitch-like samples transpose a few pitches; adding and subtracting transpositions is not tested at all",
 ["quickly/transpose.py"],
 [("Transposer.__init__ / transpose", "quickly/transpose.py"), ("Transposer.__add__ / __sub__", "quickly/transpose.py")])

prop("C07", "Transposing music transposes every sounding pitch in range and nothing else",
 "After transposing a piece of music, every pitch in the selected range sounds exactly the requested interval away from where it sounded before, whether it was written in absolute, relative, fixed-octave or chord notation, while key signatures and inversions keep their own octave. Pitches outside the selection are left as they are written, and no other text changes.",
 ["inputs", "programs"], "every music document, every selection in it, every transposition",
 "tests transpose a few fixed snippets",
 ["quickly/transpose.py", "quickly/pitch.py"],
 [("Transpose.edit_range", "quickly/transpose.py")])

prop("C08", "Converting between relative and absolute notation keeps the sounding pitches",
 "Converting relative music to absolute notation, and absolute music to relative notation, leaves the sounding pitch of every note, of every chord note and of every positioned rest unchanged, with or without a written start pitch and under both conventions for the first pitch. Afterwards no relative (respectively only relative) notation is left in the converted music, and music that has its own pitch conventions is not converted.",
 ["inputs", "programs", "configurations"], "every music document, both first-pitch conventions, with and without start pitch, every language",
 "tests/test_rel-style snippets are few; chords, nested music and start pitches interact",
 ["quickly/relative.py", "quickly/pitch.py"],
 [("Rel2abs.edit_range", "quickly/relative.py"), ("Abs2rel", "quickly/relative.py")])

prop("C09", "Trees stay well-formed and copies are faithful and independent",
 "After any sequence of insertions, removals, replacements and slice assignments, every child of a node reports that node as its parent and the children are exactly those a plain list would hold. Copying a tree gives an equal but disjoint tree that writes the same text, including any spacing set on its elements, and changing the copy never changes the original. Two trees compare equal exactly when they have the same structure, types and contents.",
 ["histories", "inputs"], "every history of tree operations on every tree",
 "tests exercise a few operations on one small tree",
 ["quickly/node.py", "quickly/dom/element.py"],
 [("Node mutators", "quickly/node.py Node.append/extend/insert/__setitem__/replace_with/take"), ("Node.copy/equals", "quickly/node.py"), ("Element.copy", "quickly/dom/element.py")],
 [("_parent", "weak reference to the parent", "quickly/node.py")])

prop("C10", "Tree navigation visits every node exactly once in document order",
 "For every tree and every node in it, walking descendants, forward or backward visits precisely the nodes that follow (or precede) in document order, each exactly once, and skipping a node's children on request skips exactly those. Ancestors, siblings, trails, depth, height and common ancestors agree with each other: following a node's trail from the root leads to that node, and comparing trails compares document order. Filtered queries yield exactly the matching nodes of the corresponding walk.",
 ["inputs"], "every tree shape, every node (pair) in it, every skip pattern",
 "tests use one or two fixed trees",
 ["quickly/node.py"],
 [("descendants/forward/backward", "quickly/node.py"), ("trail, common_ancestor(_with_trail)", "quickly/node.py"), ("filter/instances_of and operators", "quickly/node.py Common")])

prop("C11", "Node ranges contain exactly the nodes between their boundaries",
 "A range from one node to another iterates, forward or backward and at every level, over exactly the nodes that lie between its start and end node inclusive, and its membership, intersection and completeness tests agree with that iteration. A tree extracted from a range contains exactly those nodes and their ancestors. Replacing, inserting or deleting nodes through the range while iterating keeps the boundaries around the nodes that were in the range.",
 ["inputs", "histories"], "every tree, every pair of boundary nodes, every sequence of edits through the range",
 "tests use a few ranges on one tree",
 ["quickly/node.py"],
 [("Range and Range._Level", "quickly/node.py")])

prop("C12", "Writing edits back to the document changes only what was edited",
 "Writing an unmodified document tree back produces no change at all in the text. After modifying, inserting or removing elements, the produced text changes are in document order, do not overlap, touch no existing text outside the requested range, leave every text that belongs to unmodified elements exactly as it was, and the resulting document reads back as the edited tree.",
 ["inputs", "programs", "histories"], "every source text, every set of element modifications",
 "tests/test_dom_edit.py performs a few edits on fixed snippets",
 ["quickly/dom/element.py", "quickly/dom/edit.py", "quickly/dom/base.py"],
 [("Element.edits", "quickly/dom/element.py"), ("Edit / EditBase", "quickly/dom/edit.py"), ("write_head/write_tail/points/concat", "quickly/dom/element.py")])

prop("C13", "Elements built in code write text that reads back to the same value",
 "Any value put into an element (strings with quotes, backslashes and newlines, integers, fractions, floating point numbers, booleans, durations with dots and scaling, octaves, accidentals, articulation directions, Scheme values and lists) is written as text from which the same value is read back when the text is parsed, in LilyPond and Scheme. Writing a parsed LilyPond or Scheme document and parsing that text again gives an equal tree. Markup built with the helper functions is the command of that name with the given arguments.",
 ["inputs", "programs"], "every value of the element's type; every parsed document",
 "tests construct a few elements with plain values",
 ["quickly/dom/lily.py", "quickly/dom/scm.py", "quickly/dom/element.py", "quickly/dom/read.py", "quickly/dom/markup.py", "quickly/lang/lilypond.py", "quickly/lang/scheme.py"],
 [("write_head/read_head pairs", "quickly/dom/lily.py, scm.py"), ("transforms", "quickly/lang")])

prop("C14", "Rhythm commands keep or change note lengths exactly as they promise",
 "Making durations explicit, implicit, or implicit per line never changes the sounding length of any note, rest, chord or other duration-bearing item, and removing durations removes only written durations, except those the text cannot do without (of an unpitched note or a skip, and of a note that an unpitched note follows). Copying a rhythm and pasting it gives the notes exactly the copied lengths in order, cycling when there are more notes than durations. Doubling, halving, dotting and undotting change each written length exactly accordingly, and removing scaling removes only the scaling (or, for fractions, only fractional scaling). Items outside the range or selection keep what is written at them.",
 ["inputs", "programs"], "every music document, every range, every rhythm command",
 "tests run each command on one snippet",
 ["quickly/rhythm.py", "quickly/duration.py", "quickly/dom/lily.py"],
 [("EditRhythm and subclasses", "quickly/rhythm.py"), ("Duration / duration_scaling", "quickly/dom/lily.py")])

prop("C15", "Musical lengths and positions add up",
 "The length of sequential music is the sum of the lengths of its parts, the length of simultaneous music is the maximum over its voices, and tuplets, scaled durations, shifted durations and grace music change the length of exactly the music they contain. The position of an item is the sum of the lengths of what precedes it, the duration between two items equals the difference between the end position of the second and the start position of the first, and references to unknown or cyclic music count as zero without failing. Notes inside a chord count with the chord; the music of a repeat counts as written.",
 ["inputs", "programs"], "every music expression, every pair of items in it",
 "tests compute a few lengths",
 ["quickly/time.py", "quickly/duration.py", "quickly/dom/lily.py"],
 [("Time.length/position/duration", "quickly/time.py"), ("TimeContext", "quickly/time.py"), ("Transform", "quickly/duration.py")])

prop("C16", "Whitespace handling never loses requested spacing nor changes content",
 "Indenting a document changes only leading whitespace of lines and blanks on empty lines, never any other character, is idempotent, and gives lines inside the same open brackets consistent indentation. Where elements meet, the whitespace written between them is the widest of what either side requests, independent of grouping, and collapsing or combining spacing requests never produces less than any single request.",
 ["inputs", "programs"], "every document and every set of spacing requests",
 "tests indent a few snippets",
 ["quickly/dom/indent.py", "quickly/dom/util.py", "quickly/dom/element.py"],
 [("Indenter", "quickly/dom/indent.py"), ("combine_text/collapse_whitespace", "quickly/dom/util.py"), ("concat_space", "quickly/dom/element.py")])

prop("C17", "Variables and assignments behave like a dictionary over the document",
 "Setting a variable in a document, header, paper, layout or context block makes reading that variable give back the value that was set, whatever the type of value, and leaves every other variable and all other content as it was. Unsetting a variable makes it read as absent, reading an absent variable gives nothing and changes nothing, and setting an existing variable never creates a second assignment. Where a name is assigned more than once in the same place, all operations act on the first assignment.",
 ["inputs", "histories"], "every history of set, get and unset operations with every kind of value",
 "tests set one or two variables",
 ["quickly/dom/lily.py", "quickly/dom/element.py"],
 [("HandleAssignments and named variables", "quickly/dom/lily.py"), ("create_element_from_value / create_value_from_element", "quickly/dom/lily.py")])

prop("C18", "Included documents and references resolve to the nearest preceding definition",
 "Looking up a reference finds the value of the last definition of that name that precedes it in the document, or in included or including documents in the order they are included, and nothing when there is none. Resolution always terminates, also when documents include each other, and a document is never considered to include itself.",
 ["programs", "configurations"], "every arrangement of definitions, references and (cyclic) includes",
 "tests use at most a couple of documents",
 ["quickly/dom/scope.py", "quickly/dom/lily.py"],
 [("Scope", "quickly/dom/scope.py"), ("Reference / Identifier lookup", "quickly/dom/lily.py")])

prop("C19", "The pitch language in effect is tracked exactly",
 "At any place in a document the pitch language in effect is the one most recently set before that place by a language command or language include with a known language name, and unknown names change nothing; walking through a document with language tracking yields all other elements unchanged and in order. Guessing a language from a set of pitch names gives exactly the languages that know all of them, each spelling table once.",
 ["inputs", "programs"], "every sequence of language commands and elements; every set of names",
 "tests cover a couple of languages",
 ["quickly/pitch.py", "quickly/dom/lily.py"],
 [("find_language/follow_language/determine_language", "quickly/pitch.py"), ("Language.language / Include.language", "quickly/dom/lily.py")])

prop("C20", "Combining properties and duration transformations is lawful",
 "Combining properties keeps every property of both sides, the right-hand side winning where both define one, leaves both operands unchanged, and is associative with the empty set as neutral element; an absent property reads as nothing and removing it is harmless. Combining two duration transformations adds their shifts and multiplies their scalings, is associative with the neutral transformation as identity, and a transformation counts as empty exactly when it changes nothing.",
 ["inputs", "histories"], "every set of properties and every triple of transformations",
 "tests never combine more than two",
 ["quickly/datatypes.py", "quickly/duration.py"],
 [("Properties", "quickly/datatypes.py"), ("Transform", "quickly/duration.py")])

prop("C21", "Building trees from child-parent lists loses and duplicates nothing",
 "Grouping a flat list of elements under heads according to their number of arguments or other nesting rules keeps every element exactly once and in the same order when flattened, never changes the contents of an element, and every element except the outermost ends up below the head that claims it.",
 ["inputs"], "every list of elements and every nesting rule",
 "tests check one hierarchy",
 ["quickly/dom/element.py", "quickly/dom/util.py", "quickly/lang/lilypond.py"],
 [("build_tree and helpers", "quickly/dom/element.py")])

prop("C22", "The other end of a slur, beam or other spanner is the one it belongs to",
 "For a slur, phrasing slur, beam, ligature, text spanner, trill or melisma that starts or stops, the other end that is found is the nearest following stop (or preceding start) of the same kind with the same spanner id, or without an id if it has none itself, within the nearest surrounding assignment, \\new, score or document. Nothing is found if there is none there, or none among as many elements as a limit allows. Finding the other end changes nothing.",
 ["inputs"], "every arrangement of spanners, ids, contexts and limits",
 "tests do not look for other ends",
 ["quickly/dom/lily.py", "quickly/node.py"],
 [("Spanner.find_parallel", "quickly/dom/lily.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

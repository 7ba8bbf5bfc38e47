"""C23: scales, chords and intervals of music theory."""
from hypothesis import strategies as st

from pbt.core import Sub
from neural_graph_composer.midi.midi_scales import Interval, MusicTheory as T, ScaleType

PROPERTY = "C23"
ASSUMPTIONS = ["notes are spelled with sharps, as the tables of the library do",
               "the library's names m11, M11, P13, A13, m14 and M14 (as its tests have them), which music theory calls otherwise, are not judged"]
SHARP = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
# the seven modes are rotations of the major scale; the two other minors are the natural one with raised degrees
MAJOR = [0, 2, 4, 5, 7, 9, 11]


def mode(k):
    return [(MAJOR[(k + i) % 7] - MAJOR[k]) % 12 for i in range(7)]


SCALES = {"major": mode(0), "minor": mode(5), "aeolian": mode(5), "dorian": mode(1), "phrygian": mode(2), "lydian": mode(3),
          "mixolydian": mode(4), "locrian": mode(6)}
SCALES["harmonic_minor"] = SCALES["minor"][:6] + [11]
SCALES["melodic_minor"] = SCALES["minor"][:5] + [9, 11]
NAMED = {"P1": 0, "m2": 1, "M2": 2, "m3": 3, "M3": 4, "P4": 5, "A4": 6, "d5": 6, "Tritone": 6, "P5": 7, "A5": 8, "m6": 8, "M6": 9, "d7": 9,
         "m7": 10, "M7": 11, "P8": 12, "m9": 13, "M9": 14, "m10": 15, "M10": 16, "P11": 17, "A11": 18, "d12": 18, "m13": 20, "M13": 21}
# names the library has for numbers of steps that music theory calls otherwise
ODD = ["m11", "M11", "P13", "A13", "m14", "M14"]
QUALITY = {(4, 7): ("", "maj"), (3, 7): ("m", "min"), (3, 6): ("dim", "dim"), (4, 8): ("aug", "aug")}
# what the names of chords stand for, in semitones above the root
CHORDS = {"M": [0, 4, 7], "m": [0, 3, 7], "7": [0, 4, 7, 10], "M7": [0, 4, 7, 11], "m7": [0, 3, 7, 10], "m7b5": [0, 3, 6, 10], "dim7": [0, 3, 6, 9],
          "aug7": [0, 4, 8, 10], "6": [0, 4, 7, 9], "m6": [0, 3, 7, 9], "9": [0, 4, 7, 10, 14], "M9": [0, 4, 7, 11, 14], "m9": [0, 3, 7, 10, 14],
          "11": [0, 4, 7, 10, 14, 17], "M11": [0, 4, 7, 11, 14, 17], "m11": [0, 3, 7, 10, 14, 17], "13": [0, 4, 7, 10, 14, 17, 21],
          "M13": [0, 4, 7, 11, 14, 17, 21], "m13": [0, 3, 7, 10, 14, 17, 21], "add9": [0, 4, 7, 14], "sus2": [0, 2, 7], "sus4": [0, 5, 7], "7sus4": [0, 5, 7, 10]}


def roots(k):
    return [k, SHARP[k], SHARP[k].lower()]


def check_scale(case, ctx):
    k, name = case["root"], case["scale"]
    steps = SCALES[name]
    want = [SHARP[(k + s) % 12] for s in steps]
    for root in roots(k):
        for scale in (name, ScaleType(name)):
            what = f"{name} scale of {root!r}"
            ctx.eq(list(T.notes_from_scale(root, scale)), want, f"notes of the {what}")
            triads = [[want[(i + d) % 7] for d in (0, 2, 4)] for i in range(7)]
            names = [QUALITY[tuple((SHARP.index(n) - SHARP.index(t[0])) % 12 for n in t[1:])] for t in triads]
            ctx.eq(list(T.triads_from_scale(root, scale)), [t[0] + q[0] for t, q in zip(triads, names)], f"triads of the {what}")
            ctx.eq([(list(n), q) for n, q in T.triads_from_scale_tuple(root, scale)], [(t, q[1]) for t, q in zip(triads, names)], f"notes of the triads of the {what}")
            ivs = T.intervals_from_scale(scale)
            ctx.eq(sorted(i.value for i in ivs), sorted(steps), f"intervals of the {what}")
            ctx.eq(sorted(T.chord_pitch_from_interval(root, ivs)), sorted((k + s) % 12 for s in steps), f"pitches of the intervals of the {what}")
    ctx.eq(list(T.scales[ScaleType(name)]), steps, f"steps of the {name} scale")
    ctx.eq(T.intervals_from_scale(name.upper()), T.intervals_from_scale(name), f"intervals of the {name} scale in upper case")


def scale_cases(tier):
    return [{"root": k, "scale": s} for k in range(12) for s in sorted(SCALES)]


def check_chord(case, ctx):
    k, name = case["root"], case["chord"]
    above = CHORDS[name]
    deltas = [b - a for a, b in zip(above, above[1:])]
    ctx.eq(list(T.get_chord_intervals(name)), deltas, f"intervals of the chord {name}")
    ctx.eq(T.get_chord_name(list(deltas)), name, f"chord of {deltas}")
    ctx.eq(T.get_chord_name_from_intervals(list(deltas)), name, f"chord of the list {deltas}")
    ctx.eq(T.get_chord_name_from_intervals(tuple(deltas)), name, f"chord of the tuple {deltas}")
    mapped = [i.value for i in T.chord_intervals_mapping[name]]
    ctx.eq(mapped, [v for v in above if v != 17 or "13" not in name], f"intervals of the chord {name} above its root")
    if name in ("M", "m", "7", "6", "9"):
        for scale in ("major", "minor"):
            ctx.eq(list(T.chord_from_scale(SHARP[k] + name, T.notes_from_scale(SHARP[k], scale))), [SHARP[(k + v) % 12] for v in above], f"notes of the chord {SHARP[k]}{name}")
    for root in roots(k):
        ctx.eq(list(T.chord_pitch_from_interval(root, list(T.chord_intervals_mapping[name]))), [(k + v) % 12 for v in mapped], f"pitches of the chord {name} on {root!r}")


def chord_cases(tier):
    return [{"root": k, "chord": c} for k in range(12) for c in CHORDS]


def check_pitches(case, ctx):
    k, names = case["root"], case["names"]
    want = [(k + NAMED[n]) % 12 for n in names]
    for root in roots(k):
        ctx.eq(list(T.chord_pitch_from_interval(root, list(names))), want, f"{names} above {root!r}")
        ctx.eq(list(T.chord_pitch_from_interval(root, [Interval[n] for n in names])), want, f"{names} above {root!r}, as intervals")
        ctx.eq(sorted(T.chord_pitch_from_interval(root, frozenset(names))), sorted((k + NAMED[n]) % 12 for n in set(names)), f"the set {names} above {root!r}")
    a = case["a"]
    if names:
        x, y = Interval[names[0]], Interval[names[-1]]
        if x.value + y.value in {i.value for i in Interval}:
            ctx.eq(T.compound_interval_from_bases(x, y).value, NAMED[names[0]] + NAMED[names[-1]], f"{names[0]} and {names[-1]}")
        else:
            ctx.raises(ValueError, lambda: T.compound_interval_from_bases(x, y), f"{names[0]} and {names[-1]}")
    size, octave = T.compound_interval_to_base(a)
    ctx.eq((size, octave), (a % 12, a // 12), f"base and octaves of {a}")
    ctx.eq(T.base_to_compound_interval(size, octave), a, f"{size} and {octave} octaves")
    ctx.eq(T.pitch_to_note(a), f"{SHARP[a % 12]}{a // 12}", f"name of {a}")
    if a in {i.value for i in Interval}:
        ctx.eq(T.from_semitones(a).value, a, f"interval of {a} semitones")
    else:
        ctx.raises(ValueError, lambda: T.from_semitones(a), f"interval of {a} semitones")
    steps = case["steps"]
    known = {tuple(b - a for a, b in zip(v, v[1:])): n for n, v in CHORDS.items()}
    ctx.eq(T.get_chord_name(list(steps)), known.get(tuple(steps)), f"chord of {steps}")
    ctx.eq(T.get_chord_name_from_intervals(tuple(steps)), known.get(tuple(steps)), f"chord of {tuple(steps)}")


@st.composite
def bent(draw):
    """The steps of a known chord, with one or two of them changed, swapped, added or taken away."""
    s = draw(st.sampled_from(list(CHORDS.values())))
    s = [b - a for a, b in zip(s, s[1:])]
    for _ in range(draw(st.integers(0, 2))):
        i, j = draw(st.integers(0, len(s) - 1)), draw(st.integers(0, len(s) - 1))
        how = draw(st.sampled_from(["swap", "set", "insert", "drop", "move", "negate"]))
        if how == "swap":
            s[i], s[j] = s[j], s[i]
        elif how == "set":
            s[i] = draw(st.integers(1, 7))
        elif how == "insert":
            s.insert(i + draw(st.integers(0, 1)), draw(st.integers(0, 5)))
        elif how == "drop" and len(s) > 1:
            del s[i]
        elif how == "move":
            s[i], s[j] = s[i] + 1, s[j] - 1
        elif how == "negate":
            s[i] = -s[i]
    return s


def pitches(tier):
    return st.fixed_dictionaries({"root": st.integers(0, 11), "names": st.one_of(st.lists(st.sampled_from(sorted(NAMED)), max_size=7), st.lists(st.sampled_from(sorted(NAMED)), min_size=8, max_size=24)), "a": st.integers(0, 127),
                                  "steps": st.one_of(st.lists(st.integers(2, 5), max_size=5), bent())})


BAD = {
    "negative-root": lambda: T.notes_from_scale(-1, "major"), "root-12": lambda: T.notes_from_scale(12, "major"), "root-H": lambda: T.notes_from_scale("H", "major"),
    "unknown-scale": lambda: T.notes_from_scale("C", "blues"), "unknown-scale-intervals": lambda: T.intervals_from_scale("blues"),
    "triads-12": lambda: T.triads_from_scale(12, "major"), "triads-minus": lambda: T.triads_from_scale(-1, "major"), "triads-H": lambda: T.triads_from_scale("H", "major"),
    "triads-tuple-12": lambda: T.triads_from_scale_tuple(12, "major"), "triads-tuple-H": lambda: T.triads_from_scale_tuple("H", "major"), "triads-blues": lambda: T.triads_from_scale_tuple("C", "blues"),
    "pitch-12": lambda: T.chord_pitch_from_interval(12, ["P1"]), "pitch-minus": lambda: T.chord_pitch_from_interval(-1, ["P1"]), "pitch-H": lambda: T.chord_pitch_from_interval("H", ["P1"]),
    "pitch-tuple": lambda: T.chord_pitch_from_interval(0, ("P1",)), "pitch-string": lambda: T.chord_pitch_from_interval(0, "P1"), "pitch-numbers": lambda: T.chord_pitch_from_interval(0, [0, 4]),
    "pitch-mixed": lambda: T.chord_pitch_from_interval(0, ["P1", Interval.M3]), "pitch-unknown": lambda: T.chord_pitch_from_interval(0, ["X9"]),
    "chord-unknown": lambda: T.get_chord_intervals("nothing"), "name-tuple": lambda: T.get_chord_name((4, 3)), "name-strings": lambda: T.get_chord_name(["4", "3"]),
    "name-set": lambda: T.get_chord_name_from_intervals({4, 3}), "name-floats": lambda: T.get_chord_name_from_intervals((4.0, 3.0)),
    "compound-minus": lambda: T.compound_interval_to_base(-1), "base-12": lambda: T.base_to_compound_interval(12, 0), "base-minus": lambda: T.base_to_compound_interval(-1, 0),
    "octave-minus": lambda: T.base_to_compound_interval(0, -1), "semitones-minus": lambda: T.from_semitones(-1), "semitones-100": lambda: T.from_semitones(100),
    "freeze-scales": lambda: T.scales.__setitem__(ScaleType.MAJOR, []), "freeze-intervals": lambda: T.scale_intervals.__setitem__(ScaleType.MAJOR, []),
    "freeze-names": lambda: T.pitch_names.__setitem__(0, "B"), "freeze-chords": lambda: T.chord_intervals.__setitem__("M", [3, 4]),
}


def check_bad(case, ctx):
    ctx.raises((TypeError, ValueError, KeyError, AttributeError), BAD[case["key"]], case["key"])
    ctx.eq(T.notes_from_scale("C", "major"), ["C", "D", "E", "F", "G", "A", "B"], f"the scale of C after {case['key']}")


# what is answered is the caller's own: changing it changes no table
OWN = {
    "chord intervals": lambda: T.get_chord_intervals("M"), "notes": lambda: T.notes_from_scale("C", "major"), "triads": lambda: T.triads_from_scale(0, "major"),
    "triads with notes": lambda: T.triads_from_scale_tuple("C", "major"), "notes of a triad": lambda: T.triads_from_scale_tuple("C", "major")[0][0],
    "pitches": lambda: T.chord_pitch_from_interval(0, ["P1", "M3"]), "notes of a chord": lambda: T.chord_from_scale("CM", T.notes_from_scale("C", "major")),
}
TABLES = ["scales", "scale_intervals", "intervals", "rhythm_signatures", "chord_mapping", "chords_types", "pitch_names", "chord_intervals", "chord_name_mapping",
          "chord_name_mapping_extended", "chord_intervals_mapping", "chord_intervals_reverse", "pitch_to_note_name", "chords"]


def check_own(case, ctx):
    if "table" in case:
        table = getattr(T, case["table"])
        key = sorted(table, key=repr)[case["i"] % len(table)]
        before = dict(table)
        ctx.raises((TypeError, AttributeError), lambda: table.__setitem__(key, None), f"setting {key!r} in {case['table']}")
        ctx.raises((TypeError, AttributeError), lambda: table.__delitem__(key), f"deleting {key!r} from {case['table']}")
        ctx.raises((TypeError, AttributeError), lambda: setattr(T(), case["table"], {}), f"setting {case['table']} of an object")
        ctx.eq(dict(table), before, f"the table {case['table']} after that")
        return
    ask = OWN[case["what"]]
    want = list(ask())
    answer = ask()
    if isinstance(answer, list):
        answer.reverse()
        answer.append(answer[0])
    ctx.eq(list(ask()), want, f"the {case['what']} after the list that was answered was changed")


def own(tier):
    return [{"what": k} for k in OWN] + [{"table": t, "i": i} for t in TABLES for i in range(3)]


ALIASES = ["maj", "min", "maj7", "min7", "M7", "dom7", "hdim7", "aug", "dim", "Db", "Eb", "Gb", "Bb", "Cb", "E#", "B#", "H", "C##", "C4", "CM", "Cm", "do", "c b", "ionian",
           "natural_minor", "harmonic", "melodic", "minor_harmonic", "blues", "chromatic", "pentatonic", "majors", "P2", "M1", "m5", "P7", "d4", "A1", "A3", "d8", "M11", "P12", "P6", "",
           "0", "1", "11", "12", "-1", "None", "m7(b5)", "m(maj7)", "5", "add11", "sus", "7b9", "mM7", "6/9"]


def bare(s):
    return "".join(s.split()).lower().replace("-", "_")


KNOWN = {"root": {bare(s) for s in SHARP}, "scale": {bare(s) for s in SCALES}, "interval": {bare(s) for s in list(NAMED) + ODD}, "chord": {bare(s) for s in CHORDS}}


def check_unknown(case, ctx):
    """A name that is no name of the table is refused by every question, whatever it resembles (other spacing or case is not judged here)."""
    name, root, scale = case["name"], SHARP[case["root"]], case["scale"]
    asks = {"root": [T.notes_from_scale, T.triads_from_scale, T.triads_from_scale_tuple],
            "scale": [T.notes_from_scale, T.triads_from_scale, T.triads_from_scale_tuple]}
    WRONG = (TypeError, ValueError, KeyError, IndexError)
    if bare(name) not in KNOWN["root"]:
        for f in asks["root"]:
            ctx.raises(WRONG, lambda: f(name, scale), f"{f.__name__} of the root {name!r}")
        ctx.raises(WRONG, lambda: T.chord_pitch_from_interval(name, ["P1", "P5"]), f"pitches above the root {name!r}")
        ctx.label("root")
    if bare(name) not in KNOWN["scale"]:
        for f in asks["scale"]:
            ctx.raises(WRONG, lambda: f(root, name), f"{f.__name__} of the scale {name!r}")
        ctx.raises(WRONG, lambda: T.intervals_from_scale(name), f"intervals of the scale {name!r}")
        ctx.label("scale")
    if bare(name) not in KNOWN["interval"]:
        ctx.raises(WRONG, lambda: T.chord_pitch_from_interval(root, ["P1", name]), f"pitch of the interval {name!r}")
        ctx.raises(WRONG, lambda: T.chord_pitch_from_interval(root, frozenset([name])), f"pitch of the set of {name!r}")
        ctx.label("interval")
    if bare(name) not in KNOWN["chord"]:
        ctx.raises(WRONG, lambda: T.get_chord_intervals(name), f"steps of the chord {name!r}")
        ctx.label("chord")
    ctx.raises(WRONG, lambda: T.base_to_compound_interval(case["n"], 1), f"base {case['n']}") if not 0 <= case["n"] <= 11 else None
    if case["n"] < 0:
        ctx.raises(WRONG, lambda: T.base_to_compound_interval(1, case["n"]), f"octave {case['n']}")
        ctx.raises(WRONG, lambda: T.compound_interval_to_base(case["n"]), f"interval {case['n']}")
    if not 0 <= case["n"] <= 11:
        for f in asks["root"]:
            ctx.raises(WRONG, lambda: f(case["n"], scale), f"{f.__name__} of the root {case['n']}")
        ctx.raises(WRONG, lambda: T.chord_pitch_from_interval(case["n"], ["P1", "P5"]), f"pitches above the root {case['n']}")


@st.composite
def names(draw):
    """A known name or an alias of it, with up to two characters changed."""
    s = draw(st.sampled_from(ALIASES + sorted(NAMED) + sorted(CHORDS) + sorted(SCALES) + SHARP))
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from(list("abcdefgmMPAd#b0123456789_ s")))
        how = draw(st.integers(0, 2))
        s = s[:i] + c + s[i:] if how == 0 else s[:i] + s[i + 1:] if how == 1 else s[:i] + c + s[i + 1:]
    return s


def unknown(tier):
    return st.fixed_dictionaries({"name": names(), "root": st.integers(0, 11), "scale": st.sampled_from(sorted(SCALES)), "n": st.integers(-14, 26)})


SUBS = [
    Sub("scales", check_scale, cases=scale_cases, nontrivial=lambda c: c["root"] != 0, rule="a root other than C"),
    Sub("chords", check_chord, cases=chord_cases, nontrivial=lambda c: c["root"] != 0, rule="a root other than C"),
    Sub("pitches", check_pitches, pitches, quick=4000, thorough=20000, nontrivial=lambda c: len(c["names"]) > 1 and c["root"] != 0, rule="several intervals above a root other than C"),
    Sub("unknown", check_unknown, unknown, quick=1500, thorough=10000, nontrivial=lambda c: sum(bare(c["name"]) in k for k in KNOWN.values()) == 1,
        rule="a name that is known as another kind of thing"),
    Sub("own", check_own, cases=own, rule="every table and every kind of answer", nontrivial=lambda c: True),
    Sub("bad", check_bad, cases=lambda tier: [{"key": k} for k in BAD], rule="arguments that are refused", nontrivial=lambda c: True),
]

"""C12: a note keeps within the MIDI ranges, orders by time and survives copies and JSON."""
import copy
import json

from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder

PROPERTY = "C12"
ASSUMPTIONS = [
    "two times are equal or at least 2^-15 s apart: the library takes times closer than a microsecond for equal",
    "names of pitches: C, C sharp (as the musical sharp sign) and so on, octave -1 to 9, as librosa spells them",
]
NAMES = ["C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"]


def clamp(x, lo, hi):
    return max(lo, min(hi, x))


def name_of(pitch):
    return f"{NAMES[pitch % 12]}{pitch // 12 - 1}"


def build(d):
    return MidiNote(pitch=d["pitch"], start_time=d["start"], end_time=d["end"], program=d["program"], instrument=d["instrument"],
                    velocity=d["velocity"], quantized_start_step=d["qs"], quantized_end_step=d["qe"], voice=d["voice"],
                    numerator=d["num"], denominator=d["den"], is_drum=d["drum"])


def expected(d):
    return (clamp(d["pitch"], 0, 127), clamp(d["velocity"], 0, 127), d["start"], d["end"], clamp(d["program"], 0, 255),
            clamp(d["instrument"], 0, 127), d["drum"], d["num"], d["den"], d["qs"], d["qe"], d["voice"])


def check_make(case, ctx):
    d = dict(case["data"])
    d["start"], d["end"] = d["start"] + case["late"], d["end"] + case["late"]
    good = d["start"] < d["end"] and d["num"] > 0 and d["den"] > 0 and not d["den"] & (d["den"] - 1)
    if not good:
        ctx.raises(AssertionError, lambda: build(d), f"a note with {d}")
        return
    n = build(d)
    want = expected(d)
    ctx.eq(N.fact(n), want, "fields")
    ctx.eq(n.pitch_name, name_of(want[0]), "name of the pitch")
    ctx.eq(n.duration(), d["end"] - d["start"], "duration")
    ctx.eq((n.event_start_time, n.event_end_time), (d["start"], d["end"]), "times of the event")
    ctx.eq(n.is_quantized(), d["qs"] >= 0 and d["qe"] >= 0, "quantized")
    # options that are left out
    least = MidiNote(d["pitch"], d["start"], d["end"])
    ctx.eq(N.fact(least), (want[0], 127, d["start"], d["end"], 0, 0, False, 4, 4, -1, -1, 0), "a note of a pitch, a start and an end alone")
    ctx.eq((least.is_quantized(), least.is_drum), (False, False), "a note of a pitch, a start and an end alone")
    # copies
    for c in (n.make_copy(), copy.copy(n), copy.deepcopy(n)):
        ctx.check(c is not n, "a copy is the note itself")
        ctx.eq(N.fact(c), want, "fields of a copy")
        ctx.eq(c.pitch_name, n.pitch_name, "name of the pitch of a copy")
        ctx.check(c == n and n == c and not (c != n), "a copy is not equal to the note")
        ctx.check(not (c < n) and not (n < c) and c <= n and n <= c, "a copy does not order like the note")
    q = n.make_copy(quantized_start_step=case["q"][0], quantized_end_step=case["q"][1])
    ctx.eq(N.fact(q), want[:9] + tuple(case["q"]) + want[11:], "copy with other steps")
    ctx.eq(N.fact(n), want, "the note after it was copied")
    # JSON
    data = dict(pitch=n.pitch, start_time=n.start_time, end_time=n.end_time, program=n.program, instrument=n.instrument,
                velocity=n.velocity, quantized_start_step=n.quantized_start_step, quantized_end_step=n.quantized_end_step,
                voice=n.voice, numerator=n.numerator, denominator=n.denominator, is_drum=n.is_drum)
    ctx.eq(N.fact(MidiNote.from_json(json.loads(json.dumps(data)))), want, "note from a JSON dictionary")
    text = json.dumps([{"__MidiNote__": True, "data": data}, {"x": 1}])
    for raw in (text, text.encode()):
        back = MidiNoteJSONDecoder().decode(raw)
        ctx.eq(N.fact(back[0]), want, "decoded note")
        ctx.eq(back[1], {"x": 1}, "a decoded object that is not a note")
    opt = dict(quantized_start_step=-1, quantized_end_step=-1, voice=0, numerator=4, denominator=4, is_drum=False)
    gone = case["drop"]
    less = MidiNote.from_json({k: v for k, v in data.items() if k not in gone})
    full = dict(data, **{k: opt[k] for k in gone})
    ctx.eq(N.fact(less), N.fact(MidiNote.from_json(full)), f"note from a JSON dictionary without {gone}")
    # a difference in one field is a difference
    for k, v in (("pitch", (want[0] + 1) % 128), ("velocity", (want[1] + 1) % 128), ("start", d["start"] - 2.0 ** -case["near"]), ("end", d["end"] + 2.0 ** -case["near"]),
                 ("program", (want[4] + 1) % 256), ("instrument", (want[5] + 1) % 128), ("drum", not d["drum"]), ("num", d["num"] + 1),
                 ("den", d["den"] * 2 if d["den"] < 128 else 1), ("qs", d["qs"] + 1), ("qe", d["qe"] + 1), ("voice", d["voice"] + 1)):
        o = build(dict(d, **{k: v}))
        ctx.check(not (o == n) and n != o, f"notes that differ in {k} are equal")
    ctx.check(n != "note" and not (n == 3), "a note is equal to something that is not a note")
    ctx.eq(N.fact(MidiNote.from_name(name_of(want[0]), d["start"], d["end"], velocity=want[1]))[:4], want[:4], "note made from a name")


def check_set(case, ctx):
    """The setters keep a note valid: a bad value is refused and leaves the note as it was."""
    n = N.mk(case["note"])
    start, end, pitch, program = n.start_time, n.end_time, n.pitch, n.program
    steps = [-1, -1]
    other = MidiNote(60, 1.0, 2.0)
    for op, v in case["ops"]:
        if op in ("qs", "qe"):      # steps on the grid: one below zero is refused
            k = op == "qe"
            attr = ("quantized_start_step", "quantized_end_step")[k]
            if v < 0:
                ctx.raises(ValueError, lambda: setattr(n, attr, v), f"{attr} = {v}")
            elif steps[1 - k] < 0 or (v > steps[0] if k else v < steps[1]):
                setattr(n, attr, v)
                steps[k] = v
            ctx.eq((n.quantized_start_step, n.quantized_end_step, n.is_quantized()), (*steps, min(steps) >= 0), f"steps after {attr} = {v}")
            continue
        if isinstance(v, list):     # next to a bound
            v = {"start": start, "end": end}[v[0]] + v[1]
        if op == "start":
            ok = 0 <= v < end
        elif op == "end":
            ok = v > start and v >= 0
        elif op == "pitch":
            ok = 0 <= v <= 127
        else:
            ok = 0 <= v <= 255
        attr = {"start": "start_time", "end": "end_time"}.get(op, op)
        if ok:
            setattr(n, attr, v)
            start, end, pitch, program = [v if op == k else x for k, x in
                                          (("start", start), ("end", end), ("pitch", pitch), ("program", program))]
        else:
            ctx.raises((ValueError, AssertionError), lambda: setattr(n, attr, v), f"{attr} = {v} for a note from {start} to {end}")
        ctx.eq((n.start_time, n.end_time, n.pitch, n.program), (start, end, pitch, program), f"after {attr} = {v}")
        ctx.eq(n.pitch_name, name_of(pitch), f"name of the pitch after {attr} = {v}")
        ctx.eq(n.velocity, case["note"][1], "velocity")
        ctx.eq((n.event_start_time, n.event_end_time, n.duration()), (start, end, end - start), f"times of the event after {attr} = {v}")
        ctx.eq((n.overlaps(other), other.overlaps(n)), (max(start, 1.0) < min(end, 2.0),) * 2, f"overlap with another note after {attr} = {v}")
        ctx.eq(N.fact(n.make_copy()), N.fact(n), f"copy after {attr} = {v}")


def check_order(case, ctx):
    notes = [N.mk([x[0], x[1], x[2] + case["late"], x[3]]) for x in case["notes"]]
    for i, ds, de, pitch in case["twins"]:       # next to one that is there
        n = notes[i % len(notes)]
        if 0 <= n.start_time + ds < n.end_time + de:
            notes.append(MidiNote(pitch, n.start_time + ds, n.end_time + de))
    key = lambda n: (n.start_time, n.end_time, n.pitch)
    for a in notes:
        for b in notes:
            ctx.eq(a < b, key(a) < key(b), f"{a} < {b}")
            ctx.eq(a <= b, key(a)[:2] <= key(b)[:2], f"{a} <= {b}")
            ctx.eq(a.overlaps(b), max(a.start_time, b.start_time) < min(a.end_time, b.end_time), f"{a} overlaps {b}")
    for n, (e, dur) in zip(notes, case["touch"]):
        b = MidiNote(n.pitch, n.end_time + e, n.end_time + e + dur)
        ctx.eq((n.overlaps(b), b.overlaps(n)), (b.start_time < n.end_time,) * 2, f"a note that begins {e} after the end of another overlaps it")
    ctx.eq([key(n) for n in sorted(notes)], sorted(key(n) for n in notes), "sorted notes")
    ctx.eq(key(min(notes)), min(key(n) for n in notes), "first note")


STEP = st.integers(-1, 40)
TINY = st.sampled_from([0.0] + [s * 2.0 ** -j for s in (1, -1) for j in (4, 15, 21, 24, 30, 36)])
DATA = st.fixed_dictionaries({
    "pitch": st.one_of(gen.PITCH, gen.PITCH, st.integers(-20, 200)), "velocity": st.one_of(gen.VEL, gen.VEL, st.integers(-20, 200)),
    "start": N.TIME.map(lambda t: t + 1), "end": N.TIME.map(lambda t: t + 1), "program": st.one_of(st.integers(0, 255), st.integers(-5, 300)),
    "instrument": st.one_of(st.integers(0, 127), st.integers(-5, 200)), "qs": STEP, "qe": STEP, "voice": st.integers(0, 5),
    "num": st.one_of(st.integers(1, 200), st.integers(-1, 4)), "den": st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128]), st.integers(-2, 12)),
    "drum": st.booleans()})


def make(tier):
    tidy = DATA.map(lambda d: dict(d, end=d["end"] if d["end"] > d["start"] else d["start"] + 0.25,
                                   num=max(1, d["num"]), den=d["den"] if d["den"] > 0 and not d["den"] & (d["den"] - 1) else 8))
    return st.fixed_dictionaries({"data": st.one_of(tidy, tidy, tidy, DATA), "q": st.tuples(STEP, STEP).map(list),
                                  "near": st.integers(5, 14), "late": st.sampled_from([0, 0, 0, 2.0 ** -30, 2.0 ** -22, 100, 1000 + 2.0 ** -24, 4000]),
                                  "drop": st.lists(st.sampled_from(["quantized_start_step", "quantized_end_step", "voice", "numerator", "denominator", "is_drum"]),
                                                   unique=True, max_size=6)})


def sets(tier):
    t = st.one_of(N.TIME, st.integers(-8, 40).map(lambda k: k / 16))
    t = st.one_of(t, st.tuples(st.sampled_from(["start", "end"]), TINY).map(list))
    op = st.one_of(st.tuples(st.just("start"), t), st.tuples(st.just("end"), t), st.tuples(st.just("start"), t), st.tuples(st.just("end"), t),
                   st.tuples(st.just("pitch"), st.integers(-3, 131)), st.tuples(st.just("program"), st.integers(-3, 260)), st.tuples(st.sampled_from(["qs", "qe"]), st.integers(-2, 40)))
    return st.fixed_dictionaries({"note": N.note(), "ops": gen.history(op.map(list), 12)})


def order(tier):
    few = st.integers(0, 6).map(lambda k: k / 16)
    close = st.builds(lambda k, j: k / 16 + 2.0 ** -j, st.integers(0, 2), st.sampled_from([5, 7, 8, 10, 12, 14]))
    # a dyadic fraction and no two of them closer than 2^-15, the sum of two included
    apart = st.sampled_from([0.0, 0.0] + [s * 2.0 ** -j for s in (1, -1) for j in (6, 9, 11, 13, 14)])
    return st.fixed_dictionaries({"late": st.sampled_from([0, 0, 64, 1024, 4096]),
                                  "twins": st.lists(st.tuples(st.integers(0, 7), apart, apart, st.integers(58, 64)).map(list), max_size=3),
                                  "touch": st.lists(st.tuples(TINY, st.integers(1, 40).map(lambda k: k / 16)), max_size=4), "notes": st.lists(st.one_of(
        N.note(), N.note(pitch=st.integers(60, 62), time=close, dur=close.map(lambda t: t + 0.25)), N.note(pitch=st.integers(60, 62), time=few, dur=st.integers(1, 5).map(lambda k: k / 16))), min_size=1, max_size=8)})


SUBS = [
    Sub("make", check_make, make, quick=1600, thorough=10000, nontrivial=lambda c: c["data"]["start"] < c["data"]["end"], rule="a note whose end follows its start"),
    Sub("set", check_set, sets, quick=1200, thorough=8000, nontrivial=lambda c: len(c["ops"]) >= 3, rule="three or more assignments"),
    Sub("order", check_order, order, quick=1200, thorough=8000, nontrivial=lambda c: len(c["notes"]) >= 3, rule="three or more notes compared pairwise"),
]

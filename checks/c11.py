"""C11: quantization to a grid of steps per second."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence

PROPERTY = "C11"
ASSUMPTIONS = [
    "times and amounts are binary fractions, so that the steps are exact; 1 to 32 steps per second; no minimal step",
    "the library rounds the times of a quantized note to a hundredth of a second",
]


def steps(start, end, sps, amount):
    c = 1 - F(amount)
    return math.floor(F(start) * sps + c), math.ceil(F(end) * sps + c)


def can_tell(was, sps, amount):
    """False for times rounded to a hundredth that are too close to a step to tell on which side of it they lie."""
    exact = max(F(was[2]).denominator, F(was[3]).denominator) <= 2 ** 20
    near = min(abs(x - round(x)) for x in (F(was[i]) * sps + 1 - F(amount) for i in (2, 3)))
    return exact or near >= F(1, 10 ** 6)


def check_one(ctx, before, n, sps, amount, what):
    """n: the note after quantization; before: its fact."""
    a, b = steps(before[2], before[3], sps, amount)
    ctx.eq((n.quantized_start_step, n.quantized_end_step), (a, b), f"{what}: steps")
    ctx.check(n.is_quantized(), f"{what}: the note is not quantized")
    f = N.fact(n)
    ctx.eq(f[:2] + f[4:9] + f[11:], before[:2] + before[4:9] + before[11:], f"{what}: the rest of the note")
    ctx.check(0 <= f[2] < f[3], f"{what}: the note lasts from {f[2]} to {f[3]}")
    # the times are those of the steps, to a hundredth of a second; a start never reaches the old end
    ctx.check(abs(f[2] - a / sps) <= 0.0051 or (a / sps > before[3] - 0.0011 and abs(f[2] - max(0.0, before[3] - 0.001)) <= 1e-9),
              f"{what}: the start is {f[2]}, that of step {a} is {a / sps}")
    stays = b / sps < before[3] + 0.0051     # the end lies on its step already: the note keeps its length
    ctx.check(abs(f[3] - b / sps) <= 0.0051 or (stays and abs((f[3] - f[2]) - (before[3] - before[2])) <= 1e-9),
              f"{what}: the end is {f[3]}, that of step {b} is {b / sps}")
    ctx.near(n.compute_step_duration_in_seconds(sps), (b - a) / sps, f"{what}: duration of the steps")
    ctx.eq(n.step_duration_in_samples(), b - a + 1, f"{what}: samples")


def check_note(case, ctx):
    n = N.mk(case["note"], 3, case["drum"])
    before = N.fact(n)
    for sps, amount in case["grids"]:
        ctx.eq(n.quantize_to_nearest_step(before[2], sps, amount), steps(before[2], before[2], sps, amount)[0], "step of a time")
        ctx.eq(n.quantize_to_nearest_step(before[2], sps, amount, False), steps(before[2], before[2], sps, amount)[1], "step after a time")
        half = steps(before[2], before[2], sps, 0.5)
        ctx.eq((n.quantize_to_nearest_step(before[2], sps), n.quantize_to_nearest_step(before[2], sps, is_floor=False),
                MidiNoteSequence.quantize_to_nearest_step(before[2], sps), MidiControlChange.quantize_to_nearest_step(before[2], sps)),
               half + (half[0], half[0]), "steps of a time, with the default amount")
        q = n.quantize(sps=sps, amount=amount)
        ctx.check(q is not n, "quantize() gave the note itself")
        ctx.eq(N.fact(n), before, "the note that quantize() was asked for")
        ctx.check(not n.is_quantized(), "the note that quantize() was asked for is quantized")
        check_one(ctx, before, q, sps, amount, f"{sps} steps per second, amount {amount}")
        r = n.make_copy()
        r.quantize_in_place(sps=sps, amount=amount)
        ctx.eq(N.fact(r), N.fact(q), "quantize_in_place() and quantize()")
    d, e = n.quantize(), n.make_copy()
    e.quantize_in_place()
    check_one(ctx, before, d, 4, 0.5, "on the default grid")
    ctx.eq(N.fact(e), N.fact(d), "quantize_in_place() and quantize() on the default grid")
    c = MidiControlChange(cc_number=1, cc_value=2, cc_time=before[2]).quantize()
    check_cc(ctx, (1, 2, before[2], 0, False), c, 4, 0.5, "on the default grid")
    # a note that is quantized can be quantized again
    m = n.make_copy()
    for sps, amount in case["grids"]:
        was = N.fact(m)
        if not can_tell(was, sps, amount):
            break
        m.quantize_in_place(sps=sps, amount=amount)
        check_one(ctx, was, m, sps, amount, f"again at {sps} steps per second, amount {amount}")
    ctx.raises(ValueError, lambda: N.mk(case["note"]).quantize_in_place(sps=0), "no steps per second")
    ctx.raises(ValueError, lambda: N.mk(case["note"]).quantize_in_place(sps=4, amount=0), "no amount")
    ctx.raises(ValueError, lambda: N.mk(case["note"]).step_duration_in_samples(), "samples of a note that is not quantized")
    ctx.raises(ValueError, lambda: N.mk(case["note"]).compute_step_duration_in_seconds(4), "steps of a note that is not quantized")
    ctx.near(MidiNote.steps_to_seconds(case["steps"], case["grids"][0][0]), case["steps"] / case["grids"][0][0], "seconds of steps", 1.01e-5)


def check_cc(ctx, before, c, sps, amount, what):
    a = math.floor(F(before[2]) * sps + 1 - F(amount))
    ctx.eq((c.quantized_start_step, c.quantized_end_step, c.quantized_step), (a, a + 1, sps), f"{what}: steps of a control change")
    ctx.check(c.is_quantized(), f"{what}: the control change is not quantized")
    ctx.eq((c.cc_number, c.cc_value, c.cc_time, c.program, bool(c.is_drum)), before, f"{what}: the control change")


def check_sequence(case, ctx):
    s = N.sequence(case["ins"], case["notes"])
    for num, val, t in case["cc"]:
        s.add_control_changes(MidiControlChange(cc_number=num, cc_value=val, cc_time=t))
    d = s.clone()
    d.quantize()
    for f, n in zip(N.facts(s), d.notes):
        check_one(ctx, f, n, 4, 0.5, "sequence on the default grid")
    before = N.facts(s)
    held = list(s.notes)
    cc = [(c.cc_number, c.cc_value, c.cc_time, c.program, bool(c.is_drum)) for c in s.control_changes]
    ctx.eq(s.is_quantized(), not before, "quantized before")
    sps, amount = case["grid"]
    ctx.eq(s.quantize(sps=sps, amount=amount), None, "result")
    ctx.eq(len(s.notes), len(before), "number of notes")
    for f, n in zip(before, s.notes):
        check_one(ctx, f, n, sps, amount, "sequence")
    ctx.eq(len(s.control_changes), len(cc), "number of control changes")
    for f, c in zip(cc, s.control_changes):
        check_cc(ctx, f, c, sps, amount, "sequence")
    ctx.check(s.is_quantized(), "the sequence is not quantized")
    ctx.eq(s.total_quantized_steps, max([n.quantized_end_step for n in s.notes], default=0), "total of steps")
    ctx.eq(s.total_time, max([n.end_time for n in s.notes], default=0.0), "total time")
    ctx.eq([N.fact(n) for n in held], before, "the notes that were in the sequence before")
    for step in (0, 1):
        if before:
            ctx.raises(ValueError, lambda: (s.shift_times(1.0), s.extract([0.0, 0.5]))[step], "an edit of a quantized sequence")
    # quantized again, on another grid
    sps, amount = case["grid2"]
    if case["same"]:
        sps = case["grid"][0]
    if case["moved"]:
        for n in s.notes:
            n.shift_time(case["moved"])
    was = N.facts(s)
    s.quantize(sps=sps, amount=amount)
    for f, n in zip(was, s.notes):
        if can_tell(f, sps, amount):
            check_one(ctx, f, n, sps, amount, "second grid")
    ctx.eq(s.total_quantized_steps, max([n.quantized_end_step for n in s.notes], default=0), "total of steps on the second grid")
    ctx.eq(len(s.notes), len(before), "number of notes on the second grid")
    ctx.check(all(n.quantized_start_step < n.quantized_end_step for n in s.notes), "empty notes on the second grid")
    ctx.check(all(float(x).is_integer() for n in s.notes for x in (n.quantized_start_step, n.quantized_end_step)),
              "steps of the second grid are not whole")
    for f, c in zip(cc, s.control_changes):
        check_cc(ctx, f, c, sps, amount, "second grid")


GRID = st.tuples(st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32]), st.integers(1, 32)),
                 st.one_of(st.just(0.5), st.sampled_from([0.25, 0.75, 1.0, 0.125]))).map(list)
FINE = st.one_of(N.TIME, st.integers(0, 64 * 40).map(lambda k: k / 64), st.integers(0, 20 * 1024).map(lambda k: k / 1024),
                 st.tuples(st.integers(1, 64 * 20), st.sampled_from([-1, 1]), st.sampled_from([16, 24, 30])).map(lambda x: x[0] / 64 + x[1] * 2.0 ** -x[2]))
LONG = st.one_of(N.DUR, st.integers(1, 64).map(lambda k: k / 1024), st.integers(1, 512).map(lambda k: k / 64))


def note(tier):
    return st.fixed_dictionaries({"note": N.note(time=FINE, dur=LONG), "drum": st.booleans(), "steps": st.integers(0, 5000),
                                  "grids": st.lists(GRID, min_size=1, max_size=4)})


def sequence(tier):
    return st.fixed_dictionaries({"ins": N.INSTRUMENT, "notes": gen.history(N.note(time=FINE, dur=LONG), 8), "grid": GRID, "grid2": GRID,
                                  "same": st.booleans(), "moved": st.sampled_from([0.0, 0.0, 0.25, 1.0, 3.375]),
                                  "cc": st.lists(st.tuples(st.integers(0, 127), st.integers(0, 127), FINE).map(list), max_size=4)})


SUBS = [
    Sub("long", check_sequence, lambda tier: gen.with_many(sequence(tier), notes=N.many(unit=64, last=1280), cc=gen.many(
        st.tuples(st.integers(0, 127), st.integers(0, 127), FINE).map(list), vary=lambda c, rnd: [rnd.randint(0, 127), rnd.randint(0, 127), c[2] if rnd.random() < 0.3 else rnd.randint(0, 640) / 64])),
        quick=25, thorough=500, shards=2, nontrivial=lambda c: len(c["notes"]) >= 50, rule="fifty notes and controllers or more"),
    Sub("note", check_note, note, quick=1400, shards=2, thorough=20000, nontrivial=lambda c: (c["note"][2] * c["grids"][0][0]) % 1 != 0,
        rule="a note that does not begin on a step of its first grid"),
    Sub("sequence", check_sequence, sequence, quick=700, thorough=8000, nontrivial=lambda c: len(c["notes"]) >= 2 and bool(c["cc"]),
        rule="two or more notes and a control change"),
]

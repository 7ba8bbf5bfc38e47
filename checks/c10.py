"""C10: shifting and stretching in time."""
from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_control_change import MidiControlChange

PROPERTY = "C10"
ASSUMPTIONS = ["times, offsets and powers of two as factors lie on a binary grid and are exact; other factors are compared to 1e-9"]
EPS = 1e-9


def moved(f, a, b):
    """time t of the fact becomes t * a + b"""
    return f[:2] + (f[2] * a + b, f[3] * a + b) + f[4:]


def close(f, g):
    return f[:2] == g[:2] and f[4:] == g[4:] and abs(f[2] - g[2]) <= EPS * max(1, abs(g[2])) and abs(f[3] - g[3]) <= EPS * max(1, abs(g[3]))


def compare(ctx, s, want, total, what):
    got = N.facts(s)
    ctx.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)),
              lambda: f"{what}: notes {got[:6]}, expected {want[:6]}")
    ctx.near(s.total_time, total, f"{what}: total time", EPS * max(1, total))


def check(case, ctx):
    s = N.sequence(case["ins"], case["notes"])
    for i in case.get("again", []) if case["notes"] else []:
        s.append(s.notes[i % len(case["notes"])])       # a note that is in the sequence twice
    want = N.facts(s)
    s.total_time += case.get("rest", 0.0)       # silence after the last note is part of the sequence
    if not want:
        for op in case["ops"]:
            if op[0] == "stretch":
                s.stretch(op[1])
                compare(ctx, s, [], 0.0, "an empty sequence after a stretch")
        return
    first = list(want)
    total = s.total_time
    a, b = 1.0, 0.0
    for op in case["ops"]:
        if op[0] == "shift":
            if min(f[2] for f in want) + op[1] < 0:
                continue
            ctx.eq(s.shift_times(op[1]), None, "result of a shift")
            want = [moved(f, 1.0, op[1]) for f in want]
            total = total + op[1]
            b += op[1]
        else:
            ctx.eq(s.stretch(op[1]), None, "result of a stretch")
            want = [moved(f, op[1], 0.0) for f in want]
            # silence after the last note may be kept or not
            total = max([f[3] for f in want] + [total * op[1]] * (abs(s.total_time - total * op[1]) <= EPS * max(1, total)))
            a, b = a * op[1], b * op[1]
        compare(ctx, s, want, total, f"after {op}")
        for n, f in zip(s.notes, want):
            ctx.near(n.duration(), f[3] - f[2], f"duration after {op}", EPS * max(1, f[3]))
    # all of them together are one affine map of the first notes
    compare(ctx, s, [moved(f, a, b) for f in first], total, "the whole history")
    if case["back"] and b >= 0:
        s.shift_times(-b)
        s.stretch(1.0 / a)
        compare(ctx, s, first, s.total_time if case.get("rest") else max(f[3] for f in first), "undone")
    q = N.sequence(case["ins"], case["notes"])
    q.quantize(sps=4)
    have, end = N.facts(q), q.total_time
    ctx.raises(ValueError, lambda: q.shift_times(1.0), "a shift of a quantized sequence")
    ctx.eq((N.facts(q), q.total_time), (have, end), "a quantized sequence whose shift was refused")
    c = MidiControlChange(cc_number=1, cc_value=2, cc_time=case["cc"])
    c.shift_time(2.5)
    ctx.eq((c.cc_number, c.cc_value, c.cc_time), (1, 2, case["cc"] + 2.5), "a control change after a shift")


def strategy(tier):
    op = st.one_of(
        st.tuples(st.just("shift"), st.one_of(N.TIME, st.integers(-64, 0).map(lambda k: k / 16), st.builds(lambda k, s: s * 2.0 ** -k, st.integers(5, 24), st.sampled_from([1, -1])))),
        st.tuples(st.just("stretch"), st.one_of(st.sampled_from([0.5, 2.0, 1.0, 4.0, 0.25]), st.sampled_from([1.5, 0.75, 1.1, 0.9, 3.0]), st.sampled_from([1.0005, 0.9995, 1.00001, 100.0, 0.01]))))
    return st.fixed_dictionaries({"ins": N.INSTRUMENT, "notes": gen.history(N.note(), 8 if tier == "quick" else 30), "cc": N.TIME, "rest": st.one_of(st.just(0.0), N.TIME),
                                  "again": st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 7), min_size=1, max_size=3)), "ops": st.lists(op.map(list), min_size=1, max_size=6), "back": st.booleans()})


SUBS = [
    Sub("long", check, lambda tier: gen.with_many(strategy(tier), notes=N.many()), quick=30, thorough=500, nontrivial=lambda c: len(c["notes"]) >= 50, rule="fifty notes or more"),
    Sub("moves", check, strategy, quick=600, shards=3, thorough=12000,
        nontrivial=lambda c: len(c["notes"]) >= 2 and {"shift", "stretch"} <= {o[0] for o in c["ops"]},
        rule="two or more notes that are both shifted and stretched"),
]

"""C16: grouping the notes of a track into chords; rescaling of velocities."""
import os
from collections import Counter
from fractions import Fraction as F

from hypothesis import strategies as st

from pbt import gen
from pbt import graphs as G
from pbt import notes as N
from pbt.core import Sub
from pbt.songs import REPO, corpus
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder as B
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C16"
ASSUMPTIONS = ["times are rounded as float arithmetic rounds them; the percentile is numpy's (linear)",
               "a fixed tolerance is an upper bound for the spread of a chord: its rounding is finer than that"]


def got_chords(data):
    return {k: Counter((n.pitch, n.velocity) for n in v) for k, v in data.items()}


def check_seq(ctx, seq, what):
    facts, drum = N.facts(seq), seq.instrument.is_drum
    tol = 0.0 if drum else G.tolerance([f[2] for f in facts])
    ctx.near(B.compute_tolerance(seq), tol, f"{what}: tolerance", 1e-12)
    starts = sorted(f[2] for f in facts) if not drum else []
    for p in (50, 95, 100, 12.5):
        ctx.near(B.compute_tolerance(seq, p), 0.0 if drum else G.tolerance([f[2] for f in facts], p), f"{what}: tolerance at {p} of a hundred", 1e-12)
    gaps = [float(x) for x in B.instrument_time_differences(seq)]
    ctx.check(len(gaps) == max(0, len(starts) - 1) and all(abs(x - (b - a)) < 1e-12 for x, a, b in zip(gaps, starts, starts[1:])),
              f"{what}: gaps between onsets {gaps[:5]}")
    for single in (True, False):
        data, longest = B.compute_data(seq, 0.2, not single, tolerance_auto=True)
        want = G.chords(facts, drum, single)
        ctx.eq(sorted(data), list(want), f"{what}: times of the chords, single notes {single}")
        ctx.eq(got_chords(data), {k: Counter(v) for k, v in want.items()}, f"{what}: chords, single notes {single}")
        ctx.eq(longest, max([len(v) for v in G.chords(facts, drum).values()], default=0), f"{what}: largest chord")
    for q in (0, 1, 3, 5):
        data, _ = B.compute_data(seq, 0.2, False, True, q)
        want = G.chords(facts, drum, precision=q)
        ctx.eq((sorted(data), got_chords(data)), (list(want), {k: Counter(v) for k, v in want.items()}), f"{what}: chords by times of {q} digits")
    ctx.eq(N.facts(seq), facts, f"{what}: the sequence after it was grouped")


def check_group(case, ctx):
    notes = [N.mk(n, 0, case["drum"] or bool(n[4])) for n in case["notes"]]
    seq = N.sequence([0, case["drum"], ""], [])
    if case["late"] and notes:      # asked before the last note came
        seq.notes = notes[:-1]
        check_seq(ctx, seq, "the sequence without its last note")
    seq.notes = notes
    check_seq(ctx, seq, "sequence")
    facts = N.facts(seq)
    # a fixed tolerance: every note in one chord, notes of one time together, no chord wider than the tolerance
    tol = case["tol"]
    data, longest = B.compute_data(seq, tol, False)
    sound = [f for f in facts if f[1] and not f[6]]
    ctx.eq(Counter(N.fact(n) for v in data.values() for n in v), Counter(sound), f"notes of all chords, tolerance {tol}")
    ctx.eq(longest, max([len(v) for v in data.values()], default=0), "largest chord")
    at = {}
    for k, v in data.items():
        ts = [n.start_time for n in v]
        ctx.check(max(ts) - min(ts) <= tol + 1e-9, f"a chord from {min(ts)} to {max(ts)}, tolerance {tol}")
        ctx.near(k, ts[0], "time of a chord", tol + 1e-9)
        for t in ts:
            ctx.eq(at.setdefault(t, k), k, f"notes that start at {t} are in two chords")


def check_velocity(case, ctx):
    vs = case["v"]
    got = B.rescale_velocities(list(vs))
    ctx.eq([int(x) for x in got], G.rescaled(vs), f"rescaled {vs}")
    ctx.check(all(float(x).is_integer() and 32 <= x <= 127 for x in got), f"rescaled {vs} to {got}")
    ctx.eq(B.scale_relative_velocities(list(vs)), list(vs), f"{vs} scaled by one")
    low, high = case["range"]
    ctx.eq([int(x) for x in B.rescale_velocities(list(vs), low, high)], G.rescaled(vs, low, high), f"rescaled {vs} to {low}..{high}")
    k = case["k"]
    want = [int(min(F(127), v * F(k))) for v in vs]
    ctx.eq(B.scale_relative_velocities(list(vs), k), want, f"{vs} scaled by {k}")


def check_corpus(case, ctx):
    piece = MidiReader.read(os.path.join(REPO, case["path"]))
    for s in piece:
        check_seq(ctx, piece[s], f"track {s} of {case['path']}")


GRIDTIME = st.one_of(st.integers(0, 8).map(lambda k: k / 2), st.integers(0, 64).map(lambda k: k / 16),
                     st.tuples(st.integers(0, 8), st.integers(0, 8)).map(lambda x: x[0] / 2 + x[1] / 512),
                     st.integers(0, 4000).map(lambda k: k / 1000), st.floats(0, 8, allow_nan=False, allow_subnormal=False))
DIM = st.tuples(st.integers(0, 127), st.one_of(st.integers(1, 127), st.integers(1, 127), st.just(0)), GRIDTIME,
                st.integers(1, 16).map(lambda k: k / 8), st.sampled_from([0] * 12 + [1])).map(list)


def groups(tier):
    return st.fixed_dictionaries({
        "notes": st.one_of(st.lists(DIM, max_size=8), st.lists(DIM, min_size=6, max_size=30 if tier == "quick" else 120)),
        "late": st.sampled_from([False, False, True]), "drum": st.sampled_from([False] * 7 + [True]), "tol": st.sampled_from([0.2, 0.5, 1.0, 0.05, 0.0])})


def velocities(tier):
    v = st.integers(0, 127)
    return st.fixed_dictionaries({"v": st.one_of(st.lists(v, min_size=1, max_size=12), st.lists(st.integers(20, 30), min_size=1, max_size=4)),
                                  "range": st.one_of(st.just([32, 127]), st.tuples(st.integers(0, 127), st.integers(0, 127)).map(sorted)), "k": st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 0.25, 4.0])})


def files(tier):
    return [{"path": str(p)} for p in corpus(12 if tier == "quick" else None, 30_000 if tier == "quick" else None)]


MANY = gen.many(DIM, 200, 50, lambda n, rnd: [rnd.randint(0, 127), rnd.randint(1, 127), n[2] if rnd.random() < 0.5 else rnd.randint(0, 64) / 4] + n[3:])
SUBS = [
    Sub("long", check_group, lambda tier: gen.with_many(groups(tier), notes=MANY), quick=25, thorough=500, shards=2, nontrivial=lambda c: len(c["notes"]) >= 50, rule="fifty notes or more"),
    Sub("loud", check_velocity, lambda tier: gen.with_many(velocities(tier), v=gen.many(st.integers(0, 127), 200, 50, lambda v, rnd: rnd.randint(0, 127))), quick=25, thorough=500,
        nontrivial=lambda c: True, rule="fifty velocities or more"),
    Sub("group", check_group, groups, quick=700, shards=3, thorough=20000, nontrivial=lambda c: len({n[2] for n in c["notes"]}) < len(c["notes"]) and len(c["notes"]) >= 4,
        rule="four or more notes, some of one time"),
    Sub("velocity", check_velocity, velocities, quick=300, thorough=8000, nontrivial=lambda c: len(set(c["v"])) >= 2, rule="two or more different velocities"),
    Sub("corpus", check_corpus, cases=files, rule="a real file", nontrivial=lambda c: True),
]

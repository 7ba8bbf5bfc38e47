"""C22: conversions between pitches, names, frequencies, tempi, steps and frames."""
import math
import sys
import types
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_scales import MusicTheory as T

# the note module uses librosa, which looks scipy up by itself: let it do so first
MidiNote.from_name("A4", 0.0, 1.0)
MidiNote.note_to_freq(69)
_STUB = []
try:
    import scipy.spatial.distance  # noqa: F401
except ImportError:
    # midi_utils takes its default metric from scipy, which is not installed here
    _s, _sp, _d = types.ModuleType("scipy"), types.ModuleType("scipy.spatial"), types.ModuleType("scipy.spatial.distance")
    _d.euclidean = lambda u, v: float(np.linalg.norm(np.atleast_1d(u) - np.atleast_1d(v)))
    _sp.distance, _s.spatial = _d, _sp
    _STUB = [("scipy", _s), ("scipy.spatial", _sp), ("scipy.spatial.distance", _d)]
_KEPT = {k: sys.modules.get(k) for k, _ in _STUB}
sys.modules.update(dict(_STUB))
from neural_graph_composer.midi import midi_utils as U  # noqa: E402
for _k, _ in _STUB:
    if _KEPT[_k] is None:
        del sys.modules[_k]
    else:
        sys.modules[_k] = _KEPT[_k]

PROPERTY = "C22"
ASSUMPTIONS = ["scipy is not installed here; where it is missing, its euclidean distance is stood in for",
               "times, tempi and steps lie on grids on which the products are exact or nearly so; a tie between two steps may go either way"]


def near(ctx, got, want, what, rel=0.0, abs=1e-12):
    if isinstance(want, list):
        ctx.eq(len(got), len(want), what)
        for g, w in zip(got, want):
            near(ctx, g, w, what, rel, abs)
        return
    ctx.near(float(got), float(want), what, tol=max(abs, rel * math.fabs(want)))


SHARP = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]


def check_pitch(case, ctx):
    n, k = case["note"], case["step"]
    f = MidiNote.note_to_freq(n)
    near(ctx, f, 440 * 2.0 ** ((n - 69) / 12), f"frequency of {n}", rel=1e-9)
    near(ctx, MidiNote.note_to_freq(n + 12), 2 * f, f"frequency an octave above {n}", rel=1e-9)
    near(ctx, MidiNote.note_to_freq(n + k) / f, 2.0 ** (k / 12), f"ratio of {k} semitones from {n}", rel=1e-9)
    arr = np.array([n, n + k, 69])
    near(ctx, MidiNote.note_to_freq(arr).tolist(), [440 * 2.0 ** ((v - 69) / 12) for v in arr.tolist()], "frequencies of an array", rel=1e-9)
    octave, name = n // 12 - 1, SHARP[n % 12]
    near(ctx, MidiNote.pitch_to_freq(name, octave), f, f"frequency of {name} {octave}", rel=1e-9)
    near(ctx, MidiNote.pitch_to_freq("A", 4), 440.0, "concert pitch", rel=1e-12)
    ctx.eq(T.pitch_to_note(n), f"{name}{n // 12}", f"name of {n}")
    text = case["spell"].format(name.replace("#", "♯") if case["sign"] else name, octave)
    note = MidiNote.from_name(text, 1.0, 2.0, velocity=case["vel"], program=3, instrument=5, is_drum=True)
    ctx.eq((note.pitch, note.start_time, note.end_time, note.velocity, note.program, note.instrument, note.is_drum), (n, 1.0, 2.0, case["vel"], 3, 5, True), f"note made of {text}")
    note = MidiNote.from_name(text, 1.0, 2.0)
    ctx.eq((note.pitch, note.start_time, note.end_time, note.velocity, note.program, note.instrument, note.is_drum), (n, 1.0, 2.0, 127, 0, 0, False), f"note made of {text} alone")


def check_beats(case, ctx):
    num, den, tempo, start, dur = case["num"], case["den"], case["tempo"], case["start"], case["dur"]
    n = MidiNote(pitch=60, start_time=start, end_time=start + dur, velocity=64, numerator=num, denominator=den)
    near(ctx, n.beat_duration(tempo), float(F(60, tempo) * F(num, den)), "duration of a beat", rel=1e-9)
    near(ctx, n.beat_duration(), 0.5 * num / den, "duration of a beat at the default tempo", rel=1e-9)
    near(ctx, n.duration_in_seconds(tempo), 60 * dur / tempo, f"{dur} beats at {tempo}", rel=1e-9)
    if dur > 2 * 0.5 * num / den + 1e-6:
        near(ctx, n.bpm(), 120 * den / num, "beats per minute", rel=1e-6)


def check_rates(case, ctx):
    bpm, res, num = case["bpm"], case["res"], case["num"]
    for name, fn, args, want in (
            ("steps per second of bpm", U.steps_per_second_from_bpm, (bpm, res), lambda b: b * res / 60),
            ("steps per second of qpm", lambda b, r: U.from_spq_to_sps(r, b), (bpm, res), lambda b: b * res / 60),
            ("qpm to bpm", U.qpm_to_bpm, (bpm, num), lambda b: b * num)):
        for given in (bpm, float(bpm), np.float64(bpm)):
            near(ctx, float(fn(given, args[1])), want(given), f"{name} of {args}", rel=1e-9)
        arr = [float(bpm), bpm / 2, 1.0]
        near(ctx, np.asarray(fn(np.array(arr), args[1])).tolist(), [want(b) for b in arr], f"{name} of an array", rel=1e-9)
        whole = [int(bpm) + 1, 1, 97]
        near(ctx, np.asarray(fn(np.array(whole), args[1])).tolist(), [want(b) for b in whole], f"{name} of an array of whole numbers", rel=1e-9)
        near(ctx, np.asarray(fn(list(arr), args[1])).tolist(), [want(b) for b in arr], f"{name} of a list", rel=1e-9)
        square = np.asarray(fn(np.array([arr, whole]), args[1]))
        ctx.eq(square.shape, (2, 3), f"{name}: the shape of what is given for two rows of three")
        near(ctx, square.ravel().tolist(), [want(b) for b in arr + whole], f"{name} of two rows", rel=1e-9)
        near(ctx, np.asarray(fn(np.array(arr), np.array([args[1], 1, 2]))).tolist(), [want(arr[0]), want(arr[1]) / args[1], want(arr[2]) / args[1] * 2], f"{name} of two arrays", rel=1e-9)
    a, b = float(U.bpm_to_qpm(float(bpm), num)), float(U.bpm_to_qpm_np(float(bpm), num))
    near(ctx, a, bpm * num / 60, "bpm to qpm", rel=1e-9)
    near(ctx, b, a, "the two conversions of bpm to qpm", rel=1e-7, abs=1e-9)
    near(ctx, float(U.steps_per_second_from_bpm()), 960.0, "the documented default")


def check_frames(case, ctx):
    s, e, fps = case["start"], case["end"], case["fps"]
    if s < 0 or e < 0:
        ctx.raises(ValueError, lambda: U.frames_from_times(s, e, fps), f"frames of {s} to {e}")
        return
    lo, hi = math.floor(F(s) * fps), math.ceil(F(e) * fps)
    if hi <= lo:
        ctx.raises(ValueError, lambda: U.frames_from_times(s, e, fps), f"frames of {s} to {e} at {fps}")
        return
    a, b = U.frames_from_times(s, e, fps)
    ctx.eq((int(a), int(b)), (lo, hi), f"frames of {s} to {e} at {fps}")
    spans = [(s, e), (s + 1.0, e + 2.0), (0.0, e + 0.5)]
    a, b = U.frames_from_times(np.array([x for x, _ in spans]), np.array([y for _, y in spans]), fps)
    ctx.eq((np.asarray(a).tolist(), np.asarray(b).tolist()), ([math.floor(F(x) * fps) for x, _ in spans], [math.ceil(F(y) * fps) for _, y in spans]), f"frames of {spans} at {fps}")


def nearest(ctx, got, t, step, what):
    k = round(got / step)
    ctx.check(abs(got - k * step) <= 1e-6, f"{what}: {got} is not a step of {step}")
    ctx.check(abs(got - t) <= step / 2 + 1e-6, f"{what}: {t} goes to {got}, a step is {step}")


def check_steps(case, ctx):
    t, sps, thr = case["time"], case["sps"], case["threshold"]
    fn = lambda *a: U.ft_quantize_to_nearest_step(t, sps, *([] if thr is None else [thr]))  # noqa: E731
    what = f"{t} s at {sps} steps per second, threshold {thr}"
    part = F(0.5 if thr is None else thr)
    if sps <= 0 or not 0 <= part < 1:
        ctx.raises(ValueError, fn, what)
        return
    exact = abs(F(t)) * F(sps)
    want = math.floor(exact) + (exact - math.floor(exact) >= part)
    got = fn()
    ctx.eq((got, type(got)), (want if t >= 0 else -want, int), what)
    for bad in (("1", 2), (1.0, "2"), (1.0, 2, "x"), (None, 2)):
        ctx.raises(TypeError, lambda: U.ft_quantize_to_nearest_step(*bad), f"{bad}")


def check_grid(case, ctx):
    step, m, start, end = case["step"] / case["per"], case["m"], case["start"], case["end"]
    grid = step * m
    if start < 0 or end < 0:
        ctx.raises(ValueError, lambda: U.quantize_note_to_step_grid(start, end, step, grid), f"{start} to {end}")
        return
    a, b = U.quantize_note_to_step_grid(start, end, step, grid)
    what = f"{start} to {end} on steps of {step}, {m} of a grid"
    nearest(ctx, a, start, step, what)
    nearest(ctx, b, end, step, what)
    if start <= end:
        ctx.check(a <= b + 1e-9, f"{what}: ends before it starts, {a} to {b}")
    again = U.quantize_note_to_step_grid(a, b, step, grid)
    near(ctx, list(again), [a, b], f"{what}: again", abs=1e-6)
    # just beside the middle of two steps, where only one of them is nearest
    k, by = case["mid"]
    t = (k + 0.5 + by) * step
    near(ctx, list(U.quantize_note_to_step_grid(t, t + step, step, grid)), [(k + (by > 0)) * step, (k + 1 + (by > 0)) * step], f"{t} to {t + step} on steps of {step}, {m} of a grid", abs=1e-6)
    size = case["size"]
    sec = math.ceil(480 * case["num"] / size) / (480 * case["tempo"] / 60)
    for t in (start, end, (k + 0.5 + by) * sec):
        q = U.quantize_to_nearest_step(t, size, case["tempo"], (case["num"], 4))
        nearest(ctx, q, t, sec, f"{t} on steps of {size} at {case['tempo']}, {case['num']} beats")
    points = [[float(x), float(y)] for x, y in case["points"]]
    notes = [[float(x) + case["far"], float(y)] for x, y in case["notes"]]
    # between two points that are far out, closer to one of them by very little
    points += [[2000.0 * x, float(y)] for x, y in case["points"]]
    notes += [[2000.0 * x + 1000 + case["beside"], float(y)] for x, y in case["points"]]
    dist = lambda u, v: max(abs(u[0] - v[0]), abs(u[1] - v[1]))  # noqa: E731
    for kw, d in (({"metric": dist}, dist), ({}, lambda u, v: math.hypot(u[0] - v[0], u[1] - v[1]))):
        got = U.vector_quantize(notes, points, **kw)
        ctx.eq(len(got), len(notes), "notes on the points of a grid")
        for n, g in zip(notes, got):
            ctx.check(list(g) in points, f"{n} goes to {g}, which is none of {points}")
            near(ctx, d(n, g), min(d(n, p) for p in points), f"distance of {n} to {g}, points {points}", abs=1e-9)


def pitch(tier):
    return st.fixed_dictionaries({"note": st.integers(0, 127), "step": st.integers(-24, 24), "vel": st.integers(0, 127), "spell": st.sampled_from(["{0}{1}"]), "sign": st.booleans()})


def beats(tier):
    return st.fixed_dictionaries({"num": st.integers(1, 12), "den": st.sampled_from([1, 2, 4, 8, 16]), "tempo": st.integers(20, 300),
                                  "start": st.integers(0, 64).map(lambda k: k / 16), "dur": st.one_of(st.integers(1, 64).map(lambda k: k / 16), st.integers(8, 80).map(lambda k: k / 4))})


NEARLY = st.tuples(st.integers(1, 400), st.integers(1, 7), st.booleans()).map(lambda t: t[0] + (1 if t[2] else -1) * 10.0 ** -t[1])


def rates(tier):
    return st.fixed_dictionaries({"bpm": st.one_of(st.integers(1, 400), st.integers(1, 4000).map(lambda k: k / 10), NEARLY), "res": st.one_of(st.integers(1, 2000), st.sampled_from([4, 96, 220, 480, 960])), "num": st.integers(1, 16)})


BESIDE = st.tuples(st.sampled_from([1, -1]), st.integers(2, 5)).map(lambda x: x[0] * 10.0 ** -x[1])


def frames(tier):
    t = st.one_of(st.tuples(st.integers(1, 40), st.sampled_from([1, -1]), st.integers(6, 24)).map(lambda x: x[0] + x[1] * 2.0 ** -x[2]), st.integers(0, 160).map(lambda k: k / 16), st.integers(0, 3000).map(lambda k: k / 256), st.integers(-48, 48).map(lambda k: k / 16))
    return st.fixed_dictionaries({"start": t, "end": t, "fps": st.one_of(st.sampled_from([1, 2, 4, 16, 24, 30, 100]), st.integers(1, 200))})


def steps(tier):
    beside = st.tuples(st.integers(1, 80), st.sampled_from([1, -1]), st.integers(6, 24)).map(lambda x: x[0] / 2 + x[1] * 2.0 ** -x[2])
    return st.fixed_dictionaries({"time": st.one_of(beside, st.integers(-640, 640).map(lambda k: k / 64), st.integers(0, 2**20).map(lambda k: k / 1024)), "sps": st.one_of(st.integers(1, 32), st.sampled_from([0.5, 0.25, 1.5, 2.75, 96, 960, 0, -1])),
                                  "threshold": st.one_of(st.integers(0, 15).map(lambda k: k / 16), st.sampled_from([None, None, 1.0, 1.5, -0.25]))})


def grid(tier):
    t = st.one_of(st.integers(0, 200).map(lambda k: k / 16), st.integers(0, 1200).map(lambda k: k / 100), st.integers(-2, 6))
    p = st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list)
    return st.fixed_dictionaries({"step": st.integers(1, 8), "per": st.sampled_from([1, 2, 4, 8, 10, 12, 16, 20]), "m": st.integers(1, 16), "start": t, "end": t, "size": st.one_of(st.sampled_from([1, 2, 4, 8, 16]), st.integers(1, 16)),
                                  "tempo": st.integers(30, 240), "num": st.integers(1, 8), "far": st.sampled_from([0, 0, 0, 0.25, 1000.5, 4096]), "beside": st.tuples(st.sampled_from([1, -1]), st.integers(1, 7)).map(lambda x: x[0] * 10.0 ** -x[1]), "mid": st.tuples(st.integers(0, 40), BESIDE).map(list), "points": st.lists(p, min_size=1, max_size=6), "notes": st.lists(p, max_size=5)})


PAIR = gen.many(st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list), 120, 50, lambda p, rnd: [rnd.randint(0, 90), rnd.randint(0, 90)])
SUBS = [
    Sub("long", check_grid, lambda tier: gen.with_many(grid(tier), points=PAIR, notes=PAIR), quick=20, thorough=400, nontrivial=lambda c: True, rule="fifty points and notes or more"),
    Sub("pitch", check_pitch, pitch, quick=1200, thorough=3000, nontrivial=lambda c: c["step"] != 0, rule="a step that is not zero"),
    Sub("beats", check_beats, beats, quick=1200, thorough=10000, nontrivial=lambda c: c["num"] != c["den"], rule="a meter other than n/n"),
    Sub("rates", check_rates, rates, quick=900, thorough=10000, nontrivial=lambda c: c["bpm"] != int(c["bpm"]), rule="a fractional tempo"),
    Sub("frames", check_frames, frames, quick=2400, thorough=20000, nontrivial=lambda c: 0 <= c["start"] < c["end"], rule="times in order"),
    Sub("steps", check_steps, steps, quick=1200, thorough=10000, nontrivial=lambda c: c["sps"] > 0 and c["threshold"] not in (None, 0), rule="a threshold of its own"),
    Sub("grid", check_grid, grid, quick=1800, thorough=20000, nontrivial=lambda c: c["m"] > 1 and c["start"] != c["end"] and len(c["points"]) > 1, rule="several steps to a grid and several points"),
]

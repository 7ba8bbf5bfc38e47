"""C06: ticks, seconds, beats and the other time lines of a loaded file."""
import copy
import io

import numpy as np
from hypothesis import strategies as st
from pretty_midi import pretty_midi

from pbt import gen, midifmt, songs
from pbt.core import Sub
from checks.c05 import lay_out
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI

PROPERTY = "C06"
ASSUMPTIONS = [
    "the reference for beats, rolls, histograms and re-timing is the pretty_midi package the class extends, given the same events",
    "the reference for ticks and seconds is the check's own tempo map",
]


def load(song):
    return CustomPrettyMIDI(io.BytesIO(midifmt.encode(song)))


# ------------------------------------------------------------------ ticks and seconds
def check_ticks(case, ctx):
    song = {"ppq": case["ppq"], "type": 1, "running": False, "tracks": [
        sum([[[d, "tempo", us]] for d, us in case["tempo"]], []) + [[case["tail"], "end"]],
        [[0, "on", 0, 60, 90], [case["tail"] + 1, "off", 0, 60, 0]]]}
    want = midifmt.interpret(song)
    tmap = want["tmap"]
    pm = load(song)
    last = -1.0
    for t in sorted(case["ticks"]):
        s = pm.tick_to_time(t)
        ctx.near(s, tmap.seconds(t), f"time of tick {t}", 1e-9 * max(1.0, tmap.seconds(t)))
        ctx.check(s >= last, f"time of tick {t} is before that of an earlier tick")
        last = s
        ctx.eq(pm.time_to_tick(s), t, f"tick of the time of tick {t}")
    for t in case["ticks"]:         # in the order given: the table grows on demand
        fresh = pm if case["shared"] else load(song)
        ctx.near(fresh.tick_to_time(t), tmap.seconds(t), f"time of tick {t}", 1e-9 * max(1.0, tmap.seconds(t)))
    for t, frac in case["between"]:
        a, b = tmap.seconds(t), tmap.seconds(t + 1)
        x = a + (b - a) * frac
        got = pm.time_to_tick(x)
        ctx.eq(got, t + (frac > 0.5), f"tick nearest to the time {frac} of the way from tick {t} to the next")
    times, tempi = pm.get_tempo_changes()
    ctx.eq(len(times), len(tmap.points), "number of tempos")
    for (s, q), gs, gq in zip(tmap.changes(), times, tempi):
        ctx.near(gs, s, "time of a tempo change", 1e-9 * max(1, s))
        ctx.near(gq, q, "tempo", 1e-6 * q)
    ctx.raises(IndexError, lambda: pm.tick_to_time(10 ** 9), "a tick that is too large")
    # a blank one at a chosen tempo and resolution
    q = 6e7 / case["tempo"][0][1] if case["tempo"] else 120.0
    blank = CustomPrettyMIDI(resolution=case["ppq"], initial_tempo=q)
    for t in case["ticks"]:
        ctx.near(blank.tick_to_time(t), t * 60.0 / q / case["ppq"], f"time of tick {t} of a blank file",
                 1e-9 * max(1.0, t * 60.0 / q / case["ppq"]))


@st.composite
def ticks(draw, tier="quick"):
    top = 20000 if tier == "quick" else 200000
    tempo = [list(x) for x in draw(st.lists(st.tuples(gen.DELTA, gen.TEMPO), max_size=6))]
    tempo = [[max(1, d) if i else d, us] for i, (d, us) in enumerate(tempo)]
    tick = st.one_of(st.integers(0, 50), st.integers(0, top))
    marks, t = [0], 0
    for d, _ in tempo:
        t += d
        marks += [max(0, t - 1), t, t + 1]
    tick = st.one_of(tick, st.sampled_from(marks))
    return dict(ppq=draw(gen.PPQ), tempo=tempo, tail=draw(st.integers(0, 4000)), shared=draw(st.booleans()),
                ticks=draw(st.lists(tick, min_size=1, max_size=15)),
                between=draw(st.lists(st.tuples(tick, st.sampled_from([0.0, 0.1, 0.3, 0.45, 0.55, 0.7, 0.9])).map(list), max_size=10)))


# ------------------------------------------------------------------ the other time lines, against pretty_midi
def twin(case):
    """The library's object and one of the parent package with the very same events."""
    raw = midifmt.encode(case["song"])
    pm = CustomPrettyMIDI(io.BytesIO(raw))
    up = pretty_midi.PrettyMIDI(io.BytesIO(raw))
    up.instruments = copy.deepcopy(pm.instruments)
    up.time_signature_changes = copy.deepcopy(pm.time_signature_changes)
    up.key_signature_changes = copy.deepcopy(pm.key_signature_changes)
    up.lyrics = copy.deepcopy(pm.lyrics)
    up.text_events = []
    return pm, up


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def alike(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


def state(pm):
    return dict(
        notes=[[(n.pitch, n.velocity, round(n.start, 9), round(n.end, 9)) for n in i.notes] for i in pm.instruments],
        cc=[[(c.number, c.value, round(c.time, 9)) for c in i.control_changes] for i in pm.instruments],
        pb=[[(b.pitch, round(b.time, 9)) for b in i.pitch_bends] for i in pm.instruments],
        ts=[(t.numerator, t.denominator, round(t.time, 9)) for t in pm.time_signature_changes],
        ks=[(k.key_number, round(k.time, 9)) for k in pm.key_signature_changes],
        lyrics=[(x.text, round(x.time, 9)) for x in pm.lyrics],
        tempo=[(int(t), round(s, 12)) for t, s in pm._tick_scales])


def check_lines(case, ctx):
    pm, up = twin(case)
    s0 = case["start"]
    times = np.array(case["times"], float)
    for name, fn in (
            ("get_tempo_changes", lambda o: tuple(o.get_tempo_changes())),
            ("get_end_time", lambda o: o.get_end_time()),
            ("get_beats", lambda o: o.get_beats()),
            ("get_beats from a start", lambda o: o.get_beats(s0)),
            ("get_downbeats", lambda o: o.get_downbeats()),
            ("get_downbeats from a start", lambda o: o.get_downbeats(s0)),
            ("get_onsets", lambda o: o.get_onsets()),
            ("estimate_tempi", lambda o: tuple(o.estimate_tempi())),
            ("estimate_tempo", lambda o: o.estimate_tempo()),
            ("estimate_beat_start", lambda o: o.estimate_beat_start()),
            ("get_piano_roll", lambda o: o.get_piano_roll(fs=case["fs"])),
            ("get_chroma", lambda o: o.get_chroma(fs=case["fs"])),
            ("a piano roll at given times", lambda o: o.get_piano_roll(case["fs"], times, case["pedal"])),
            ("chroma at given times", lambda o: o.get_chroma(case["fs"], times, case["pedal"])),
            ("a piano roll without given times", lambda o: o.get_piano_roll(fs=case["fs"], pedal_threshold=case["pedal"])),
            ("chroma without given times", lambda o: o.get_chroma(fs=case["fs"], pedal_threshold=case["pedal"])),
            ("a beat start of some candidates", lambda o: o.estimate_beat_start(case["candidates"], case["tolerance"])),
            ("histogram of durations", lambda o: o.get_pitch_class_histogram(use_duration=True)),
            ("histogram of velocities", lambda o: o.get_pitch_class_histogram(use_velocity=True, normalize=False)),
            ("transition matrix of close notes", lambda o: o.get_pitch_class_transition_matrix(time_thresh=case["tolerance"])),
            ("get_pitch_class_histogram", lambda o: o.get_pitch_class_histogram()),
            ("weighted histogram", lambda o: o.get_pitch_class_histogram(True, True, False)),
            ("get_pitch_class_transition_matrix", lambda o: o.get_pitch_class_transition_matrix()),
            ("normalized transition matrix", lambda o: o.get_pitch_class_transition_matrix(True, 0.2))):
        a, b = outcome(lambda: fn(pm)), outcome(lambda: fn(up))
        ctx.check(alike(a, b), lambda: f"{name}: {str(a)[:300]}, while pretty_midi gives {str(b)[:300]}")
    ctx.eq(state(pm), state(up), "the object after it was asked")
    # notes, whoever plays them
    notes = [n for i in pm.instruments for n in i.notes]
    ctx.eq(list(pm.get_onsets()), sorted(n.start for n in notes), "onsets")
    hist = np.zeros(12)
    for i in pm.instruments:
        if not i.is_drum:
            for n in i.notes:
                hist[n.pitch % 12] += 1
    if hist.sum():
        ctx.check(np.allclose(pm.get_pitch_class_histogram(normalize=False), hist), "pitch class histogram")


def check_adjust(case, ctx):
    pm, up = twin(case)
    end = pm.get_end_time()
    orig = np.array([x / 100.0 * max(end, 1.0) for x in case["orig"]])
    new = np.array([x / 100.0 * max(end, 1.0) for x in case["new"]])
    if case["at_tempo"]:            # the first mark is the time of a tempo change itself
        times = pm.get_tempo_changes()[0]
        orig[0] = times[case["at_tempo"] % len(times)]
        orig.sort()
    if case["snap"]:                # marks at the times of events themselves
        events = sorted({0.0, end} | {float(x) for i in pm.instruments for n in i.notes for x in (n.start, n.end)}
                        | {float(x.time) for i in pm.instruments for x in i.control_changes + i.pitch_bends}
                        | {float(x.time) for x in pm.time_signature_changes + pm.key_signature_changes + pm.lyrics})
        for k, at in enumerate(case["snap"][:len(orig)]):
            if at is not None:
                orig[k] = events[at % len(events)]
        orig.sort()
    for x in (pm, up):              # what was asked before is asked again after the re-timing
        outcome(lambda: (x.get_beats(), x.get_downbeats(), x.get_onsets(), x.get_end_time(), x.get_tempo_changes()))
        outcome(lambda: (x.get_pitch_class_transition_matrix(True), x.get_pitch_class_histogram(True), x.get_chroma(5), x.get_piano_roll(5)))
        outcome(lambda: (x.estimate_tempo(), x.estimate_tempi(), x.estimate_beat_start()))
    given = np.ndarray.tolist if case["listed"] else np.copy
    kept = [given(orig), given(new)]
    a = outcome(lambda: pm.adjust_times(*kept))
    b = outcome(lambda: up.adjust_times(given(orig), given(new)))
    ctx.eq([list(map(float, x)) for x in kept], [orig.tolist(), new.tolist()], "the marks given to the re-timing")
    ctx.eq(a, b, "outcome of the re-timing")
    if a is None:
        ctx.eq(state(pm), state(up), "events after the re-timing")
        for name, *args in (("get_onsets",), ("get_end_time",), ("get_beats",), ("get_downbeats",), ("get_pitch_class_transition_matrix", True),
                            ("get_pitch_class_histogram", True), ("get_piano_roll", 5), ("get_chroma", 5), ("estimate_tempo",), ("estimate_tempi",), ("estimate_beat_start",)):
            if args == [5] and not pm.get_end_time() < 300:
                continue
            got = []
            x = outcome(lambda: got.append(getattr(pm, name)(*args)))
            y = outcome(lambda: got.append(getattr(up, name)(*args)))
            ctx.eq(x, y, f"outcome of {name} after the re-timing")
            if x is None and y is None:
                ctx.check(alike(got[0], got[1]), f"{name} after the re-timing: {got}")
        for t in (0, 1, 7, 100):
            ctx.near(pm.tick_to_time(t), up.tick_to_time(t), f"time of tick {t} after the re-timing", 1e-9)


@st.composite
def measured(draw, tier="quick", long=False):
    """A short file of moderate tempo: a time line of at most a few hundred beats."""
    if long:
        song = draw(gen.long_song(tier, tracks=draw(st.sampled_from([2, 2, 60]))))
        return dict(song, ppq=draw(st.sampled_from([480, 960])))
    ppq = draw(st.sampled_from([24, 96, 220, 480]))
    q = ppq // 4
    evs = []
    for t, us in draw(st.lists(st.tuples(st.integers(0, 40), st.integers(200000, 1500000)), max_size=4, unique_by=lambda x: x[0])):
        evs.append((t * q, ["tempo", us]))
    for t, n, d in draw(st.lists(st.tuples(st.integers(0, 48), st.integers(1, 13), st.integers(1, 4)), max_size=4, unique_by=lambda x: x[0])):
        evs.append((t * q + draw(st.sampled_from([0, 0, 1])), ["ts", n, d]))
    for t, a, b in draw(st.lists(st.tuples(st.integers(0, 48), st.integers(-7, 7), st.integers(0, 1)), max_size=2)):
        evs.append((t * q, ["key", a, b]))
    for t, s in draw(st.lists(st.tuples(st.integers(0, 48), st.text("abc", max_size=3)), max_size=2)):
        evs.append((t * q, ["lyric", s]))
    tracks = [evs]
    many = draw(st.sampled_from([0, 0, 0, 7, 12]))
    for k in range(many or draw(st.integers(1, 3))):
        ch = k if many else draw(st.sampled_from([0, 1, 2, 9]))
        evs = [(0, ["prog", ch, draw(st.integers(0, 127))])]
        raw = draw(st.lists(st.tuples(gen.PITCH, gen.VEL, st.integers(0, 6), st.integers(1, 6)), max_size=6 if many else 16, min_size=1 if many else 0))
        for p, v, a, b in lay_out(raw, 1):
            evs.append((a * q, ["on", ch, p, v]))
            evs.append((b * q, ["off", ch, p, 0]))
        for t, num, val in draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from([1, 7, 64, 64]), st.integers(0, 127)), max_size=4)):
            evs.append((t * q, ["cc", ch, num, val]))
        for t, val in draw(st.lists(st.tuples(st.integers(0, 60), st.integers(-8000, 8000)), max_size=3)):
            evs.append((t * q, ["pb", ch, val]))
        tracks.append(evs)
    out = []
    for evs in tracks:
        evs.sort(key=lambda e: (e[0], e[1][0] != "off"))
        row, now = [], 0
        for t, e in evs:
            row.append([t - now] + e)
            now = t
        out.append(row)
    return {"ppq": ppq, "type": 1, "running": False, "tracks": out}


def lines(tier, long=False):
    return st.fixed_dictionaries({"song": measured(tier, long), "start": st.one_of(st.just(0.0), st.integers(0, 40).map(lambda k: k / 8)),
                                  "fs": st.sampled_from([5, 10, 20]), "pedal": st.sampled_from([None, 1, 40, 64, 100, 127]),
                                  "times": st.one_of(st.lists(st.integers(0, 200).map(lambda k: k / 8), min_size=1, max_size=12, unique=True).map(sorted),
                                                     st.tuples(st.integers(0, 8), st.integers(1, 60), st.sampled_from([4, 10, 16])).map(
                                                         lambda x: [(x[0] + k) / x[2] for k in range(x[1])])),
                                  "candidates": st.integers(1, 12), "tolerance": st.sampled_from([0.01, 0.025, 0.1, 0.5])})


def adjust(tier, long=False):
    @st.composite
    def s(draw):
        n = draw(st.one_of(st.integers(2, 5), st.integers(6, 40))) if long else draw(st.one_of(st.integers(2, 5), st.integers(2, 5), st.integers(6, 12)))
        marks = st.lists(st.integers(0, 140), min_size=n, max_size=n)
        ordered = draw(st.sampled_from([True, True, True, False]))
        o, m = draw(marks), draw(marks)
        return dict(song=draw(measured(tier, long)), listed=draw(st.sampled_from([False, False, True])), at_tempo=draw(st.integers(0, 4)), snap=draw(st.one_of(st.none(), st.lists(st.one_of(st.none(), st.just(-1), st.integers(0, 400)), max_size=5), st.lists(st.integers(0, 400), min_size=n, max_size=n))), orig=sorted(o) if ordered else o, new=sorted(m) if ordered else m)
    return s()


def busy(case):
    return songs.note_count(case["song"]) >= 2 and any(e[1] in ("tempo", "ts") for tr in case["song"]["tracks"] for e in tr)


SUBS = [
    Sub("ticks", check_ticks, lambda tier: ticks(tier), quick=250, thorough=6000, shards=4,
        nontrivial=lambda c: len(c["tempo"]) >= 2 and len(set(c["ticks"])) >= 3,
        rule="a tempo map with two or more tempos asked for three or more ticks"),
    Sub("lines", check_lines, lines, quick=200, thorough=2000, shards=3, nontrivial=busy,
        rule="a file with two or more notes and a tempo or time signature event"),
    Sub("adjust", check_adjust, adjust, quick=150, thorough=3000, nontrivial=busy, rule="the same, re-timed at two to five marks"),
    Sub("long", lambda case, ctx: (check_lines(case, ctx), check_adjust(case, ctx)),
        lambda tier: st.tuples(lines(tier, True), adjust(tier, True)).map(lambda x: dict(x[0], orig=x[1]["orig"], new=x[1]["new"], at_tempo=x[1]["at_tempo"], snap=x[1]["snap"], listed=x[1]["listed"])),
        quick=10, thorough=300, shards=2, nontrivial=lambda c: gen.is_long(c["song"]) or len(c["song"]["tracks"]) > 48,
        rule="a file with fifty notes, controllers, tempos or signatures on a track, or of fifty tracks"),
]

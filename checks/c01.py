"""C01: the notes read from a MIDI file are the notes of the file."""
import os
from collections import Counter

from pbt import gen, midifmt, songs
from pbt.core import Sub
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C01"
ASSUMPTIONS = [
    "tempo, time and key signature events are on the first track (SMF type 0 and 1)",
    "the program of a channel changes only while the channel is silent",
    "notes whose duration is below 1e-8 of their time may be dropped as empty",
    "the corpus sub-check trusts mido to decode bytes into events; the generated one encodes bytes itself",
]


def compare_notes(ctx, song, seqs):
    want = midifmt.interpret(song)
    tmap = want["tmap"]
    marks = [0]
    for ins in want["instruments"]:
        for _, _, a, b in ins["notes"]:
            marks += [a, b]
    ticks = songs.Ticks(tmap, marks)
    ts_ticks = [(t, tmap.seconds(t)) for t, _, _ in want["ts"]]
    got = []
    end = 0.0
    for k in seqs:
        s = seqs[k]
        notes = []
        for n in s.notes:
            key = (n.pitch, n.velocity, ticks.of(n.start_time, "note start"), ticks.of(n.end_time, "note end"))
            notes.append(key)
            ctx.eq(n.program, s.instrument.instrument_num, "program of a note of its instrument")
            ctx.eq(n.instrument, s.instrument.instrument_num, "instrument of a note of its instrument")
            ctx.eq(bool(n.is_drum), s.instrument.is_drum, "drum flag of a note of its instrument")
            if not any(t != key[2] and abs(at - n.start_time) <= 2e-8 for t, at in ts_ticks):
                ctx.eq((n.numerator, n.denominator), songs.last_change([(t, (a, b)) for t, a, b in want["ts"]], key[2], (4, 4)),
                       f"time signature of the note at {n.start_time} (tick {key[2]})")
            end = max(end, n.end_time)
        if notes:
            ctx.near(s.total_time, max(n.end_time for n in s.notes), "total time of an instrument", 1e-9)
            got.append((s.instrument.instrument_num, s.instrument.is_drum, s.instrument.name, Counter(notes)))
    if got:
        ctx.near(seqs.total_time, end, "total time of the piece", 1e-9)
    exp = []
    for ins in want["instruments"]:
        sure = Counter((p, v, a, b) for p, v, a, b in ins["notes"] if not songs.negligible(tmap, a, b))
        maybe = Counter((p, v, a, b) for p, v, a, b in ins["notes"] if songs.negligible(tmap, a, b))
        exp.append((ins["program"], ins["drum"], ins["name"], sure, maybe))
    for prog, drum, name, sure, maybe in exp:
        if not sure:
            continue
        best = None
        for i, (gp, gd, gname, gnotes) in enumerate(got):
            if gp == prog and gd == drum and (not name or gname == name):
                if not (sure - gnotes) and not (gnotes - sure - maybe):
                    best = i
                    break
        if best is None:
            near = [(gp, gd, gname, "missing", sorted((sure - g).elements())[:5], "surplus",
                     sorted((g - sure - maybe).elements())[:5]) for gp, gd, gname, g in got][:6]
            ctx.fail(f"no instrument of the piece has program {prog}, drum {drum}, name {name!r} and notes "
                     f"(pitch, velocity, start tick, end tick) {sorted(sure.elements())[:8]}; candidates: {near}")
        got.pop(best)
    for gp, gd, gname, gnotes in got:
        if not any(m and not (gnotes - m) for p, d, _, s, m in exp if p == gp and d == gd and not s):
            ctx.fail(f"an instrument (program {gp}, drum {gd}, name {gname!r}) of the piece has notes the file does "
                     f"not have: {sorted(gnotes.elements())[:6]}")


def check_generated(case, ctx):
    data = midifmt.encode(case)
    compare_notes(ctx, case, MidiReader.read(data))


def check_file(case, ctx):
    path = os.path.join(songs.REPO, case["file"])
    song = songs.song_from_file(path)
    compare_notes(ctx, song, MidiReader.read(path))


def polyphonic(song):
    """At least two notes, and either two of them sound together or one key is struck again."""
    n = songs.note_count(song)
    if n < 2:
        return False
    want = midifmt.interpret(song)
    for ins in want["instruments"]:
        spans = sorted((a, b) for _, _, a, b in ins["notes"])
        if any(x[1] > y[0] for x, y in zip(spans, spans[1:])):
            return True
    return len(want["instruments"]) > 1


def late(song, lead):
    """The song after a silence: short notes, far from the start."""
    for t in song["tracks"]:
        if t:
            t[0][0] += lead
    return song


LEAD = [0, 0, 0, 0, 0, 0, 1000, 1000, 50_000, 50_000, 300_000, 2_500_000]


def song_strategy(tier):
    from hypothesis import strategies as st
    return st.builds(late, gen.song(tier=tier).map(songs.distinct_meta), st.sampled_from(LEAD))


def dense_strategy(tier):
    """Few keys, few channels: the same key is struck again and again, on one tick and across others."""
    from hypothesis import strategies as st
    ch = st.sampled_from([0, 0, 9, 3])
    pitch = st.integers(60, 63)
    ev = st.one_of(
        st.tuples(st.just("on"), ch, pitch, gen.VEL), st.tuples(st.just("on"), ch, pitch, gen.VEL),
        st.tuples(st.just("off"), ch, pitch, st.just(0)), st.tuples(st.just("on"), ch, pitch, st.just(0)),
        st.tuples(st.just("prog"), ch, st.integers(0, 3)),
        # what a synthesizer answers by silence: the notes of the file still end where the file says
        st.tuples(st.just("cc"), ch, st.sampled_from([64, 66, 69, 120, 121, 122, 123, 124, 127]), st.integers(0, 127)),
    )
    delta = st.one_of(st.just(0), st.just(0), st.integers(0, 3))
    tr = st.lists(st.tuples(delta, ev), max_size=60 if tier == "quick" else 200).map(
        lambda l: gen.silence_program_changes([[d] + list(e) for d, e in l]))
    return st.builds(lambda ppq, run, trs, lead: late({"ppq": ppq, "type": 1, "running": run, "tracks": trs}, lead if ppq > 1 else 0),
                     st.sampled_from([1, 24, 480]), st.booleans(), st.lists(tr, min_size=1, max_size=3), st.sampled_from(LEAD))


def many_strategy(tier):
    """More tracks than there are programs, channels or anything else of a MIDI file that ends at 128."""
    from hypothesis import strategies as st
    note = st.tuples(st.integers(0, 127), gen.VEL, st.integers(0, 50), st.integers(1, 99))

    def track(ch, prog, notes):
        ev = [[0, "prog", ch, prog]] if prog is not None and ch != 9 else []
        for p, v, gap, dur in notes:
            ev += [[gap, "on", ch, p, v], [dur, "off", ch, p, 0]]
        return ev
    tr = st.builds(track, st.integers(0, 15), st.none() | st.integers(0, 127), st.lists(note, min_size=1, max_size=2))
    top = 180 if tier == "quick" else 400
    # a handful of drawn tracks, played again in turn: a case of hundreds of draws is slow to make and to shrink
    return st.builds(lambda ppq, trs, n: {"ppq": ppq, "type": 1, "running": False,
                                          "tracks": [trs[i % len(trs)] for i in range(n)]},
                     st.sampled_from([24, 96, 480]), st.lists(tr, min_size=1, max_size=6),
                     st.sampled_from([17, 100, 127, 128, 129, 130]) | st.integers(1, top))


def stack_strategy(tier):
    """Many notes begin on one key before a note-off ends all of them; the last ones are left to the end of the track."""
    from hypothesis import strategies as st

    def case(ppq, runs, kind):
        tr = []
        for ch, pitch, k, gap, off in runs:
            for i in range(k):
                tr.append([gap if i % 3 or gap else 1, "on", ch, 60 + pitch, 1 + (i * 7 + pitch) % 127])
            if off:
                tr.append([off, "off", ch, 60 + pitch, 0] if kind else [off, "on", ch, 60 + pitch, 0])
        return {"ppq": ppq, "type": 1, "running": bool(kind), "tracks": [[[0, "tempo", 500000]], tr + [[48, "end"]]]}
    run = st.tuples(st.integers(0, 1), st.integers(0, 2), st.one_of(st.integers(1, 12), st.integers(1, 70)), st.sampled_from([0, 1, 5, 100]), st.sampled_from([0, 1, 30, 480, 480]))
    return st.builds(case, st.sampled_from([96, 480, 960]), st.lists(run, min_size=1, max_size=5), st.integers(0, 1))


def meter_strategy(tier):
    """Notes that start a few ticks before, at and after a change of the meter."""
    from hypothesis import strategies as st

    def case(ppq, tempo, changes, notes, lead):
        at, t, marks = [[0, "tempo", tempo]], 0, []
        for gap, n, d in changes:
            t += gap
            marks.append(t)
            at.append([gap, "ts", n, d])
        ons = []
        for i, off, dur, pitch in notes:
            a = max(0, marks[i % len(marks)] + off)
            ons.append((a, 1, ["on", 0, pitch, 80]))
            ons.append((a + dur, 0, ["off", 0, pitch, 0]))
        ons.sort(key=lambda e: e[:2])
        tr, now = [], 0
        for a, _, e in ons:
            tr.append([a - now] + e)
            now = a
        if lead:
            at[1][0] += lead
            tr[0][0] += lead
        return {"ppq": ppq, "type": 1, "running": False, "tracks": [at, tr]}
    change = st.tuples(st.integers(1, 3000), st.integers(1, 12), st.integers(1, 4))
    note = st.tuples(st.integers(0, 9), st.sampled_from([0, -1, 1, -2, 2, 3, -3, -5, 5, -9, 9, 20, -20]), st.integers(1, 50), st.integers(40, 80))
    return st.builds(case, st.sampled_from([96, 480, 960]), st.sampled_from([500000, 400000, 250000, 1000000]),
                     st.lists(change, min_size=1, max_size=4), st.lists(note, min_size=1, max_size=8, unique_by=lambda n: n[3]),
                     st.sampled_from([0, 0, 0, 10_000, 500_000]))


def file_cases(tier):
    fs = songs.corpus(limit=14, max_bytes=60000) if tier == "quick" else songs.corpus()
    return [{"file": f} for f in fs]


SUBS = [
    Sub("songs", check_generated, song_strategy, quick=500, nontrivial=polyphonic, shards=3,
        rule="a generated multi-track file in which two notes sound together or several instruments play"),
    Sub("dense", check_generated, dense_strategy, quick=500, nontrivial=polyphonic, shards=3,
        rule="the same over four keys and three channels with mostly zero deltas"),
    Sub("many", check_generated, many_strategy, quick=25, thorough=400, nontrivial=lambda c: len(c["tracks"]) > 16,
        rule="a file of more tracks than there are channels"),
    Sub("stacked", check_generated, stack_strategy, quick=60, thorough=2000, nontrivial=lambda c: songs.note_count(c) > 6, rule="more than six notes that begin"),
    Sub("meter", check_generated, meter_strategy, quick=150, thorough=4000, nontrivial=lambda c: len(c["tracks"][0]) > 2,
        rule="notes around two or more changes of the meter"),
    Sub("long", check_generated, lambda tier: gen.long_song(tier), quick=20, thorough=600, shards=2, nontrivial=gen.is_long,
        rule="a file with fifty notes, controllers, tempos or signatures on a track"),
    Sub("corpus", check_file, cases=file_cases, nontrivial=lambda c: True,
        rule="every real file of the data set that is read"),
]

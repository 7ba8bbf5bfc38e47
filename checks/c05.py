"""C05: what is written to a MIDI file is what is read back from it."""
import io
import os
from collections import Counter

from hypothesis import strategies as st

from pbt import gen, midifmt, songs
from pbt.core import Sub
from checks.c01 import many_strategy
from checks.c03 import one_program
from checks.c04 import facts
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
from neural_graph_composer.midi.callbacks import save_midi_callback
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C05"
ASSUMPTIONS = [
    "the written file is decoded by mido and interpreted by the check's own interpreter",
    "within an instrument notes of one pitch do not overlap (a MIDI channel cannot tell them apart) and last two ticks or more",
    "changes closer than two microseconds are not told apart",
    "names are latin-1 text; two controller events of one tick and kind may change places",
    "a file holds a tempo in whole microseconds per quarter note: a tempo set by hand is written to the nearest of them, one that was read stays",
    "a part of a piece is cut no closer to either end of a note than a tick and a half",
]


def in_force(changes, tick, default):
    out = default
    for c in changes:
        if c[0] <= tick:
            out = tuple(c[1:])
    return out


def has_conflict(notes):
    by = {}
    for p, v, a, b in notes:
        by.setdefault(p, []).append((a, b))
    for spans in by.values():
        spans.sort()
        if any(b <= a for a, b in spans) or any(x[1] > y[0] for x, y in zip(spans, spans[1:])):
            return True
    return False


def written(path):
    song = songs.song_from_file(path)
    return midifmt.interpret(song), song


def compare_ticks(ctx, want, got, song2, tempo_slack=0):
    """A piece that was read from `want` and written again holds the same events on the same ticks."""
    g = [dict(program=i["program"], drum=i["drum"], name=i["name"], notes=Counter(map(tuple, i["notes"])),
              cc=Counter(map(tuple, i["cc"])), pb=Counter((t, max(v, -8191)) for t, v in i["pb"])) for i in got["instruments"]]
    for ins in want["instruments"]:
        notes = Counter((p, v, a, b) for p, v, a, b in ins["notes"] if not songs.negligible(want["tmap"], a, b))
        if not notes:
            continue
        if has_conflict(ins["notes"]):
            ctx.label("instrument with overlapping notes of one pitch")
            hit = [i for i, x in enumerate(g) if x["program"] == ins["program"] and x["drum"] == ins["drum"]]
            ctx.check(bool(hit), "an instrument is missing in the written file")
            continue
        cc = Counter(map(tuple, ins["cc"]))
        pb = Counter((t, max(v, -8191)) for t, v in ins["pb"])
        hit = [i for i, x in enumerate(g) if x["program"] == ins["program"] and x["drum"] == ins["drum"]
               and x["notes"] == notes and x["cc"] == cc and x["pb"] == pb and (not ins["name"] or x["name"] == ins["name"])]
        if not hit:
            near = [dict(name=x["name"], notes=songs.counter_diff(x["notes"], notes), cc=songs.counter_diff(x["cc"], cc),
                         pb=songs.counter_diff(x["pb"], pb)) for x in g if x["program"] == ins["program"]][:3]
            ctx.fail(f"the written file has no instrument of program {ins['program']}, drum {ins['drum']}, name "
                     f"{ins['name']!r} with the notes (pitch, velocity, start tick, end tick), control changes and bends "
                     f"that were read; candidates: {near}")
        g.pop(hit[0])
    marks = sorted({x[0] for x in want["ts"] + want["ks"] + got["ts"] + got["ks"]} | {0}
                   | {p[0] for p in want["tmap"].points} | {p[0] for p in got["tmap"].points})
    def apart(ticks):
        """False when two changes of a kind are too close to be told apart (C02)."""
        ts = [want["tmap"].seconds(t) for t in sorted({0, *ticks})]
        return not any(songs.ambiguous([(x, None) for x in ts[:i]], t) for i, t in enumerate(ts))

    told = {"ts": apart(x[0] for x in want["ts"]), "ks": apart(x[0] for x in want["ks"]), "tempo": apart(p[0] for p in want["tmap"].points)}
    if not all(told.values()):
        ctx.label("changes too close")
    for t in marks:
        if told["ts"]:
            ctx.eq(in_force(got["ts"], t, (4, 4)), in_force(want["ts"], t, (4, 4)), f"time signature in force at tick {t}")
        if told["ks"]:
            ctx.eq(in_force(got["ks"], t, (0, 0)), in_force(want["ks"], t, (0, 0)), f"key signature in force at tick {t}")
        if not told["tempo"]:
            continue
        g_us, w_us = in_force(got["tmap"].points, t, None), in_force(want["tmap"].points, t, None)
        ctx.near(g_us[0], w_us[0], f"tempo (us per quarter note) in force at tick {t}", tempo_slack)


def check_rewrite(case, ctx, data=None):
    song = case if data is None else data[0]
    raw = midifmt.encode(case) if data is None else data[1]
    seqs = MidiReader.read(raw)
    before = facts(seqs)
    want = midifmt.interpret(song)
    if not len(seqs):
        ctx.label("no instrument")
        return
    path = os.path.join(os.getcwd(), "out.mid")
    if os.path.exists(path):
        os.remove(path)
    MidiReader.write(seqs, path)
    ctx.eq(facts(seqs), before, "the piece after it was written")
    got, song2 = written(path)
    ctx.eq(song2["ppq"], song["ppq"], "resolution of the written file")
    compare_ticks(ctx, want, got, song2)
    # a second generation is the same as the first
    again = MidiReader.read(path)
    if not len(again):
        ctx.label("only empty notes")
        return
    if not any(has_conflict(i["notes"]) for i in want["instruments"]):
        MidiReader.write(again, path, do_overwrite=True)
        third, song3 = written(path)
        compare_ticks(ctx, got, third, song3)
    # the form of the piece that is made to be sent rather than saved
    pm = CustomPrettyMIDI(io.BytesIO(raw))
    live = songs.song_from_mido(pm.serialize())
    compare_ticks(ctx, want, midifmt.interpret(live), live)
    os.remove(path)


def players(pm):
    return [(i.program, i.is_drum, i.name, [(n.pitch, n.velocity, n.start, n.end) for n in i.notes],
             [(c.number, c.value, c.time) for c in i.control_changes], [(b.pitch, b.time) for b in i.pitch_bends]) for i in pm.instruments]


def check_channel(case, ctx):
    """A file whose drums are on another channel is the file with that channel and the tenth exchanged, read and written."""
    song, k = case["song"], case["channel"]
    swap = {k: 9, 9: k}
    other = dict(song, tracks=[[e[:2] + [swap.get(e[2], e[2])] + e[3:] if e[1] in ("on", "off", "cc", "pb", "at", "pat", "prog") else e for e in t] for t in song["tracks"]])
    plain = CustomPrettyMIDI(io.BytesIO(midifmt.encode(song)))
    moved = CustomPrettyMIDI(io.BytesIO(midifmt.encode(other)), drum_channel=k)
    ctx.eq(players(moved), players(plain), f"the instruments of a file with drums on channel {k}")
    if not plain.instruments:
        return
    back = []
    for pm, kw in ((plain, {}), (moved, dict(drum_channel=k))):
        file = io.BytesIO()
        pm.serialize().save(file=file)
        back.append(CustomPrettyMIDI(io.BytesIO(file.getvalue()), **kw))
    ctx.eq(players(back[1]), players(back[0]), f"the instruments of a file with drums on channel {k}, written and read")


def check_file(case, ctx):
    path = os.path.join(songs.REPO, case["file"])
    with open(path, "rb") as f:
        raw = f.read()
    check_rewrite(None, ctx, (songs.song_from_file(path), raw))


# ------------------------------------------------------------------ pieces built by hand
def build(case):
    seqs = MidiNoteSequences(resolution=case["ppq"], is_debug=False)
    for t, q in case["tempo"]:
        seqs.add_tempo_signature(MidiTempoSignature(qpm=q, midi_time=t, resolution=case["ppq"]))
    for t, n, d in case["ts"]:
        seqs.add_time_signatures(MidiTimeSignature(numerator=n, denominator=d, midi_time=t))
    for t, k, minor in case["ks"]:
        seqs.add_key_signatures(MidiKeySignature(midi_key=k, midi_time=t, midi_mode=minor))
    for i, tr in enumerate(case["tracks"]):
        s = seqs.get_track(i, tr["name"], tr["program"], tr["drum"])
        for p, v, a, b in tr["notes"]:
            s.add_note(MidiNote(p, a, b, velocity=v, program=tr["program"], instrument=tr["program"], is_drum=tr["drum"]))
        for n, v, t in tr["cc"]:
            s.add_control_changes(MidiControlChange(n, v, cc_time=t, program=tr["program"], instrument=i, is_drum=tr["drum"]))
        for a, t in tr["pb"]:
            s.add_pitch_bends(MidiPitchBend(a, midi_time=t, program=tr["program"], instrument=i, is_drum=tr["drum"]))
    return seqs


def match(ctx, got, want, tol, what):
    """Multisets of (key, times) agree up to tol(t) in the times."""
    ctx.eq(len(got), len(want), f"number of {what}")
    g = {}
    for key, times in got:
        g.setdefault(key, []).append(times)
    w = {}
    for key, times in want:
        w.setdefault(key, []).append(times)
    ctx.eq(sorted(g), sorted(w), what)
    for key in w:
        for a, b in zip(sorted(g[key]), sorted(w[key])):
            for x, y in zip(a, b):
                ctx.check(abs(x - y) <= tol(y), lambda: f"{what} {key}: written at {x!r}, expected {y!r} +- {tol(y)}")


def part(case, lo, hi):
    """What is left of a piece between two times."""
    tracks = []
    for tr in case["tracks"]:
        notes = [[p, v, max(a, lo), min(b, hi)] for p, v, a, b in tr["notes"] if a < hi and b > lo and lo < hi]
        tracks.append(dict(tr, notes=notes, cc=[x for x in tr["cc"] if lo <= x[2] < hi], pb=[x for x in tr["pb"] if lo <= x[1] < hi]))
    return dict(tracks=tracks, **{k: [x for x in case[k] if x[0] <= hi] for k in ("tempo", "ts", "ks")}, end=hi)


def check_built(case, ctx):
    seqs = build(case)
    before = facts(seqs)
    path = os.path.join(os.getcwd(), "built.mid")
    if os.path.exists(path):
        os.remove(path)
    lo, hi = case.get("part") or (None, None)
    MidiReader.write(seqs, path, from_start=lo, to_end=hi)
    ctx.eq(facts(seqs), before, "the piece after it was written")
    got, song2 = written(path)
    tmap = got["tmap"]
    case = dict(case, **part(case, 0.0 if lo is None else lo, float("inf") if hi is None else hi))
    ctx.eq(song2["ppq"], case["ppq"], "resolution")
    qs = [q for _, q in case["tempo"]] or [120.0]
    end = case["end"]
    slow = min(qs + [120.0] if not any(t == 0 for t, _ in case["tempo"]) else qs)
    tick = 60.0 / slow / case["ppq"]
    rel = 0.5 * max(qs + [120.0]) / 6e7       # a tempo is written in whole microseconds
    tol = lambda t: tick * 1.01 + 1.05 * rel * t + 1e-6
    ins = [i for i in got["instruments"]]
    live = [t for t in case["tracks"] if t["notes"]]
    ctx.eq(len(ins), len(live), "number of instruments with notes")
    for tr, i in zip(live, ins):
        ctx.eq((i["program"], i["drum"]), (tr["program"], tr["drum"]), "program and drum flag")
        if tr["name"]:
            ctx.eq(i["name"], tr["name"], "name of the track")
        sec = tmap.seconds
        match(ctx, [((p, v), (sec(a), sec(b))) for p, v, a, b in i["notes"]], [((p, v), (a, b)) for p, v, a, b in tr["notes"]],
              tol, "notes (pitch, velocity)")
        match(ctx, [((n, v), (sec(t),)) for t, n, v in i["cc"]], [((n, v), (t,)) for n, v, t in tr["cc"]],
              tol, "control changes (number, value)")
        match(ctx, [((v,), (sec(t),)) for t, v in i["pb"]], [((a,), (t,)) for a, t in tr["pb"]], tol, "pitch bends")
    # signatures: what is in force well away from a change
    for name, exp, default, have in (
            ("time signature", [(t, (n, d)) for t, n, d in case["ts"]], (4, 4), [(tmap.seconds(t), (n, d)) for t, n, d in got["ts"]]),
            ("key signature", [(t, (k, m)) for t, k, m in case["ks"]], (0, 0), [(tmap.seconds(t), (k, m)) for t, k, m in got["ks"]]),
            ("tempo", [(t, q) for t, q in case["tempo"]], 120.0, tmap.changes())):
        marks = sorted({t for t, _ in exp} | {0.0})
        for a, b in zip(marks, marks[1:] + [marks[-1] + 10]):
            m = (a + b) / 2
            if m > end or (b - a) / 2 <= tol(b):
                continue            # a change falls on the nearest tick
            e, g = songs.last_change(exp, m, default), songs.last_change(have, m, default)
            if name == "tempo":
                ctx.near(g, e, f"tempo in force at {m}", e * rel * 1.05)
            else:
                ctx.eq(g, e, f"{name} in force at {m}")
    os.remove(path)


def lay_out(raw, unit):
    """Turns (pitch, velocity, gap, length) in steps of `unit` into notes that do not overlap within a pitch."""
    free = {}
    out = []
    now = 0
    for p, v, gap, length in raw:
        now += gap
        a = max(now, free.get(p, 0))
        b = a + length
        free[p] = b
        out.append([p, v, a * unit, b * unit])
    return out


@st.composite
def built(draw, tier="quick"):
    ppq = draw(st.one_of(st.sampled_from([96, 120, 220, 480, 960]), st.integers(24, 1000)))
    times = lambda n: st.lists(st.integers(0, 4000), max_size=n, unique=True).map(sorted)

    def signatures(value, n=4):
        return [[t * 0.0625 if draw(st.booleans()) else t * 0.0625 + 0.01] + list(draw(value)) for t in draw(times(n))]
    qpm = st.one_of(st.integers(30, 300).map(float), st.floats(30, 300).map(lambda x: round(x, 3)))
    tempo = [[t * 0.0625, q] for t, q in zip(draw(times(4)), draw(st.lists(qpm, min_size=4, max_size=4)))]
    slow = min([q for _, q in tempo] + [120.0])
    unit = 3 * 60.0 / slow / ppq * draw(st.sampled_from([1.0, 1.37, 4.0]))      # a note of one step lasts three ticks or more
    tracks = []
    for _ in range(draw(st.integers(1, 4))):
        raw = draw(st.lists(st.tuples(gen.PITCH, gen.VEL, st.integers(0, 300), st.integers(1, 200)), max_size=20))
        notes = lay_out(raw, unit)
        t = st.integers(0, 5000).map(lambda k: k * unit)
        drum = draw(st.sampled_from([False, False, True]))
        tracks.append(dict(program=draw(st.integers(0, 127)), drum=drum, name=draw(gen.NAME), notes=notes,
                           cc=[list(x) for x in draw(st.lists(st.tuples(st.integers(0, 127), st.integers(0, 127), t), max_size=6))],
                           pb=[list(x) for x in draw(st.lists(st.tuples(st.integers(-8191, 8191), t), max_size=6))]))
    if not any(t["notes"] for t in tracks):
        tracks[0]["notes"] = [[60, 100, 0.0, unit * 10]]
    # a part of it: from and up to a step or the middle of one, or open on either side
    at = st.one_of(st.none(), st.integers(0, 9000).map(lambda k: k * unit / 2))
    a, b = draw(at), draw(at)
    if a is not None and b is not None and a > b:
        a, b = b, a
    return dict(ppq=ppq, tempo=tempo, tracks=tracks, part=draw(st.sampled_from([None, None, [a, b]])),
                ts=signatures(st.tuples(st.integers(1, 32), st.sampled_from([1, 2, 4, 8, 16, 32]))),
                ks=signatures(st.tuples(st.integers(0, 11), st.integers(0, 1))))


@st.composite
def clean_song(draw, tier="quick", count=st.integers(1, 4), size=None):
    """A file whose instruments have no two notes of one pitch that overlap."""
    n = draw(count)
    channels = draw(st.sampled_from([[0, 1, 2, 9, 15], [0, 1, 2, 9, 15], [0, 1, 2, 15]]))      # 9 is the drums
    size = size or (15 if tier == "quick" else 60)
    tracks = []
    for i in range(n):
        evs = []
        chans = draw(st.lists(st.sampled_from(channels), min_size=1, max_size=2, unique=True))
        for ch in chans:
            evs.append((0, 0, ["prog", ch, draw(st.integers(0, 127))]))
            raw = draw(st.lists(st.tuples(gen.PITCH, gen.VEL, st.one_of(st.just(0), st.integers(0, 500)), st.integers(2, 900)),
                                max_size=size))
            for p, v, a, b in lay_out(raw, 1):
                evs.append((a, 3, ["on", ch, p, v]))
                evs.append((b, 2, ["off", ch, p, draw(st.sampled_from([0, 64]))]))
            top = max([e[0] for e in evs] + [10]) * 2
            for num, val, t in draw(st.lists(st.tuples(st.integers(0, 127), st.integers(0, 127), st.integers(0, top)), max_size=6)):
                evs.append((t, 1, ["cc", ch, num, val]))
            for val, t in draw(st.lists(st.tuples(st.integers(-8192, 8191), st.integers(0, top)), max_size=6)):
                evs.append((t, 1, ["pb", ch, val]))
        if draw(st.booleans()):
            evs.append((0, -1, ["name", draw(gen.NAME)]))
        if i == 0:
            top = max([e[0] for e in evs] + [10])
            tick = st.one_of(st.just(0), st.integers(0, 2 * top))
            for t, us in draw(st.lists(st.tuples(tick, gen.TEMPO), max_size=5, unique_by=lambda x: x[0])):
                evs.append((t, 0, ["tempo", us]))
            for t, a, b in draw(st.lists(st.tuples(tick, st.integers(1, 32), st.integers(0, 6)), max_size=3, unique_by=lambda x: x[0])):
                evs.append((t, 0, ["ts", a, b]))
            for t, a, b in draw(st.lists(st.tuples(tick, st.integers(-7, 7), st.integers(0, 1)), max_size=3, unique_by=lambda x: x[0])):
                evs.append((t, 0, ["key", a, b]))
        evs.sort(key=lambda e: (e[0], e[1]))
        out, now = [], 0
        for t, _, e in evs:
            out.append([t - now] + e)
            now = t
        tracks.append(out)
    return {"ppq": draw(gen.PPQ), "type": 1, "running": draw(st.booleans()), "tracks": tracks}


# ------------------------------------------------------------------ one sequence
def check_single(case, ctx):
    inst = MidiInstrumentInfo(case["program"], case["name"], case["drum"])
    s = MidiNoteSequence(instrument=inst, resolution=220, is_debug=False)
    for p, v, a, b in case["notes"]:
        s.add_note(MidiNote(p, a, b, velocity=v, program=case["program"], instrument=case["program"], is_drum=case["drum"]))
    path = os.path.join(os.getcwd(), "one.mid")
    if os.path.exists(path):
        os.remove(path)
    s.to_midi_file(path)
    got, song2 = written(path)
    live = got["instruments"]
    ctx.eq(len(live), 1, "number of instruments with notes")
    ctx.eq((live[0]["program"], live[0]["drum"]), (case["program"], case["drum"]), "program and drum flag")
    if case["name"]:
        ctx.eq(live[0]["name"], case["name"], "name")
    sec = got["tmap"].seconds
    match(ctx, [((p, v), (sec(a), sec(b))) for p, v, a, b in live[0]["notes"]],
          [((p, v), (a, b)) for p, v, a, b in case["notes"]], lambda t: 60 / 120 / 220 * 0.51 + 1e-6, "notes (pitch, velocity)")
    os.remove(path)


def check_callback(case, ctx):
    """The writer of a sequence called on its own, with a tempo and a resolution."""
    inst = MidiInstrumentInfo(case["program"], case["name"], case["drum"])
    notes = [MidiNote(p, a, b, velocity=v, program=case["program"], instrument=case["program"], is_drum=case["drum"]) for p, v, a, b in case["notes"]]
    path = os.path.join(os.getcwd(), "cb.mid")
    for bad in ((None, inst), ([], inst), (notes, None)):
        ctx.raises(ValueError, lambda: save_midi_callback(path, bad[1], bad[0], 1.0), "nothing to write")
    ctx.raises(ValueError, lambda: MidiNoteSequence(instrument=inst, notes=notes).to_midi_file(path, None), "no writer")
    ctx.raises(ValueError, lambda: MidiNoteSequence(instrument=inst).to_midi_file(path), "a sequence without notes")
    ctx.check(not os.path.exists(path), "a refused call wrote a file")
    kw = {k: case[k] for k in ("tempo", "resolution") if case[k] is not None}
    save_midi_callback(path, inst, notes, case["notes"][-1][3], **kw)
    qpm, ppq = kw.get("tempo", 120.0), kw.get("resolution", 220)
    got, song2 = written(path)
    ctx.eq(song2["ppq"], ppq, "resolution")
    ctx.eq(len(got["tmap"].points), 1, "number of tempos")
    ctx.near(got["tmap"].points[0][1], 6e7 / qpm, "microseconds per quarter note", 1)
    sec, tick = got["tmap"].seconds, 60.0 / qpm / ppq
    ctx.eq([(i["program"], i["drum"]) for i in got["instruments"]], [(case["program"], case["drum"])], "program and drum flag")
    match(ctx, [((p, v), (sec(a), sec(b))) for p, v, a, b in got["instruments"][0]["notes"]], [((p, v), (a, b)) for p, v, a, b in case["notes"]],
          lambda t: tick * 0.51 + t * qpm / 6e7 + 1e-6, "notes (pitch, velocity)")
    seen = []
    s = MidiNoteSequence(instrument=inst, notes=notes)
    s.to_midi_file(path, lambda *a: seen.append(a))
    ctx.eq([(a[0], a[1], sorted((n.pitch, n.start_time) for n in a[2]), a[3]) for a in seen],
           [(path, inst, sorted((n.pitch, n.start_time) for n in notes), max(n.end_time for n in notes))], "what a writer is handed")
    starts = [n.start_time for n in seen[0][2]]
    ctx.eq(starts, sorted(starts), "starts of the notes a writer is handed")
    os.remove(path)


@st.composite
def single(draw, tier="quick"):
    raw = draw(st.lists(st.tuples(gen.PITCH, gen.VEL, st.integers(0, 300), st.integers(1, 200)), min_size=1, max_size=25))
    return dict(program=draw(st.integers(0, 127)), drum=draw(st.booleans()), name=draw(gen.NAME),
                notes=lay_out(raw, 0.01 * draw(st.sampled_from([1, 1.3, 7]))))


@st.composite
def callback(draw, tier="quick"):
    tempo = draw(st.one_of(st.none(), st.integers(30, 300), st.floats(30, 300)))
    ppq = draw(st.one_of(st.none(), st.integers(24, 960)))
    raw = draw(st.lists(st.tuples(gen.PITCH, gen.VEL, st.integers(0, 300), st.integers(1, 200)), min_size=1, max_size=12))
    return dict(program=draw(st.integers(0, 127)), drum=draw(st.booleans()), name=draw(gen.NAME), tempo=tempo, resolution=ppq,
                notes=lay_out(raw, 3 * 60 / (tempo or 120) / (ppq or 220) * draw(st.sampled_from([1, 1.3]))))


# ------------------------------------------------------------------ refusals
def check_refuse(case, ctx):
    seqs = build(case["piece"])
    path = os.path.join(os.getcwd(), "keep.mid")
    content = bytes(case["content"])
    with open(path, "wb") as f:
        f.write(content)
    ctx.raises(FileExistsError, lambda: MidiReader.write(seqs, path), "writing over a file")
    ctx.raises(FileExistsError, lambda: MidiReader.write(seqs, path, do_overwrite=False), "writing over a file")
    ctx.check(open(path, "rb").read() == content, "a refused write changed the file")
    a = case["bad"]
    ctx.raises(ValueError, lambda: MidiReader.write(seqs, path, from_start=-a, do_overwrite=True), f"from_start={-a}")
    ctx.raises(ValueError, lambda: MidiReader.write(seqs, path, to_end=-a, do_overwrite=True), f"to_end={-a}")
    ctx.raises(ValueError, lambda: MidiReader.write(seqs, path, from_start=2 * a, to_end=a, do_overwrite=True), "from_start > to_end")
    ctx.raises(ValueError, lambda: MidiReader.write(None, path, do_overwrite=True), "no piece")
    ctx.raises(ValueError, lambda: MidiReader.write([], path, do_overwrite=True), "a list for a piece")
    ctx.raises(ValueError, lambda: MidiReader.write(MidiNoteSequences(is_debug=False), path, do_overwrite=True), "an empty piece")
    ctx.raises(ValueError, lambda: MidiReader.write(seqs, "", do_overwrite=True), "an empty file name")
    ctx.raises(ValueError, lambda: MidiReader.write(seqs, None, do_overwrite=True), "no file name")
    ctx.check(open(path, "rb").read() == content, "a refused write changed the file")
    # nothing is in the file of no time at all, and it is a file all the same
    MidiReader.write(seqs, path, from_start=0, to_end=0, do_overwrite=True)
    ctx.eq([i["notes"] for i in written(path)[0]["instruments"]], [], "notes of a file that ends at 0")
    MidiReader.write(seqs, path, to_end=0.0, do_overwrite=True)
    ctx.eq([i["notes"] for i in written(path)[0]["instruments"]], [], "notes of a file that ends at 0")
    MidiReader.write(seqs, path, do_overwrite=True)
    now = open(path, "rb").read()
    other = os.path.join(os.getcwd(), "other.mid")
    MidiReader.write(seqs, other)
    ctx.check(now == open(other, "rb").read(), "an overwritten file differs from a new one")
    os.remove(path)
    os.remove(other)


def refuse_strategy(tier):
    return st.fixed_dictionaries({"piece": built(tier), "content": st.lists(st.integers(0, 255), max_size=40),
                                  "bad": st.floats(0.001, 100)})


def file_cases(tier):
    fs = songs.corpus(limit=8, max_bytes=40000) if tier == "quick" else songs.corpus(limit=150)
    return [{"file": f} for f in fs]


def rich(song):
    want = midifmt.interpret(song)
    return sum(len(i["notes"]) for i in want["instruments"]) >= 2 and (
        len(want["instruments"]) > 1 or len(want["tmap"].points) > 1 or any(i["cc"] or i["pb"] for i in want["instruments"]))


SUBS = [
    Sub("rewrite", check_rewrite, lambda tier: clean_song(tier), quick=180, thorough=4000, shards=3, nontrivial=rich,
        rule="a generated file with two or more notes and several instruments, tempos or controller events"),
    Sub("orchestra", check_rewrite, lambda tier: clean_song(tier, st.one_of(st.integers(8, 18), st.integers(5, 34)), 2),
        quick=60, thorough=800, shards=2, nontrivial=lambda c: sum(any(e[1] == "on" for e in t) for t in c["tracks"]) >= 10,
        rule="a file of ten or more tracks that sound, more than there are channels in some"),
    Sub("many", check_rewrite, lambda tier: many_strategy(tier).map(one_program), quick=8, thorough=150,
        nontrivial=lambda c: len(c["tracks"]) > 16, rule="a file of more tracks than there are channels"),
    Sub("any", check_rewrite, lambda tier: gen.song(tier=tier).map(songs.distinct_meta).map(one_program), quick=120, thorough=2500, nontrivial=rich,
        rule="the same over the files of C01 (notes that stop nowhere, notes struck again)"),
    Sub("built", check_built, lambda tier: built(tier), quick=250, thorough=5000, shards=2,
        nontrivial=lambda c: sum(len(t["notes"]) for t in c["tracks"]) >= 2 and (len(c["tempo"]) > 0 or len(c["tracks"]) > 1),
        rule="a piece built by hand with two or more notes and a tempo or a second track"),
    Sub("single", check_single, lambda tier: single(tier), quick=150, thorough=3000,
        nontrivial=lambda c: len(c["notes"]) >= 2, rule="a single sequence with two or more notes written to a file"),
    Sub("callback", check_callback, lambda tier: callback(tier), quick=80, thorough=1500,
        nontrivial=lambda c: len(c["notes"]) >= 2 and c["tempo"] is not None, rule="two or more notes written at a tempo of their own"),
    Sub("channel", check_channel, lambda tier: st.fixed_dictionaries({"song": gen.song(tier=tier), "channel": st.integers(0, 15)}), quick=60, thorough=1500,
        nontrivial=lambda c: c["channel"] != 9 and any(e[1] == "on" and e[2] in (9, c["channel"]) for t in c["song"]["tracks"] for e in t), rule="a note on the channel of the drums"),
    Sub("refuse", check_refuse, refuse_strategy, quick=40, thorough=400, rule="every case writes over a file"),
    Sub("long", check_rewrite, lambda tier: gen.long_song(tier), quick=15, thorough=400, shards=2, nontrivial=gen.is_long,
        rule="a file with fifty notes, controllers, tempos or signatures on a track"),
    Sub("corpus", check_file, cases=file_cases, rule="every real file of the data set that is rewritten"),
]

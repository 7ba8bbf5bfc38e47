"""C04: the way a file is handed to the reader does not matter, and bad input is refused."""
import io
import os
import zlib

import mido
from hypothesis import strategies as st

from pbt import gen, midifmt, songs
from pbt.core import Sub
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C04"
ASSUMPTIONS = [
    "texts of a file are latin-1, as mido decodes them",
    "files whose last event lies beyond two million ticks are left out (the reader allocates an entry per tick)",
    "mutated bytes: mido decides whether the bytes are a MIDI file at all",
]
MAX_TICKS = 2_000_000


def facts(seqs):
    """Everything a piece tells about itself, as plain data."""
    out = dict(resolution=seqs.resolution, total=float(seqs.total_time),
               ts=[(float(x.midi_time), x.numerator, x.denominator) for x in seqs.time_signatures],
               ks=[(float(x.midi_time), int(x.midi_key), str(x.mode)) for x in seqs.key_signatures],
               tempo=[(float(x.midi_time), float(x.qpm)) for x in seqs.tempo_signatures])
    tracks = []
    for k in seqs:
        s = seqs[k]
        tracks.append((
            k, s.instrument.instrument_num, bool(s.instrument.is_drum), s.instrument.name, float(s.total_time),
            [(n.pitch, n.velocity, float(n.start_time), float(n.end_time), n.program, n.instrument, bool(n.is_drum),
              n.numerator, n.denominator) for n in s.notes],
            [(c.cc_number, c.cc_value, float(c.cc_time), c.program, bool(c.is_drum)) for c in s.control_changes],
            [(b.amount, float(b.midi_time), b.program, bool(b.is_drum)) for b in s.pitch_bends]))
    out["tracks"] = tracks
    return out


def messages(m):
    return [[(x.type, x.time, tuple(sorted((k, repr(v)) for k, v in vars(x).items()))) for x in tr] for tr in m.tracks]


def same(ctx, a, b, what):
    for k in a:
        ctx.eq(b[k], a[k], f"{what}: {k}")


NAMES = ["song.mid", "a song (1).mid", "Song.MIDI", "song", "~song.mid", "s\u00f6ng \u266b.mid", "%s.mid", "song.mid.bak", "$HOME.mid", "#1.mid", "'q'.mid", "-x.mid", "song.txt",
         "MThd", "1.mid", "http:song.mid", os.path.join("~", "song.mid"), os.path.join("a b", "c", "song.mid"), " song.mid ", "*.mid", "song.zip"]


def loaded(pm):
    """What an object of the MIDI class holds, as plain data."""
    return dict(resolution=pm.resolution, tempo=[list(map(float, t)) for t in pm.get_tempo_changes()], end=pm.get_end_time(),
                ts=[(t.time, t.numerator, t.denominator) for t in pm.time_signature_changes], ks=[(k.time, k.key_number) for k in pm.key_signature_changes],
                lyrics=[(t.time, t.text) for t in pm.lyrics],
                tracks=[(i.program, i.is_drum, i.name, [(n.start, n.end, n.pitch, n.velocity) for n in i.notes],
                         [(b.time, b.pitch) for b in i.pitch_bends], [(c.time, c.number, c.value) for c in i.control_changes]) for i in pm.instruments])


def listing():
    return sorted((d, f, os.stat(os.path.join(d, f)).st_mtime_ns, os.stat(os.path.join(d, f)).st_mode) for d, _, fs in os.walk(os.getcwd()) for f in fs)


def agree(ctx, data, deep=True):
    # the name of the file is any
    name = NAMES[zlib.crc32(data) % len(NAMES)]
    path = os.path.join(os.getcwd(), name)
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    files = listing()
    base = facts(MidiReader.read(path))
    same(ctx, base, facts(MidiReader.read(name)), f"read from the relative path {name!r}")
    same(ctx, base, facts(MidiReader.read(os.path.join(".", name), is_debug=False)), "read without debugging, from a relative path")
    one = loaded(CustomPrettyMIDI(path))
    same(ctx, one, loaded(CustomPrettyMIDI(io.BytesIO(data))), "loaded from a stream")
    with open(path, "rb") as f:
        same(ctx, one, loaded(CustomPrettyMIDI(f)), "loaded from an open file")
    same(ctx, base, facts(MidiReader.read(data)), "read from bytes")
    m = mido.MidiFile(file=io.BytesIO(data))
    before, mtype = messages(m), m.type
    same(ctx, base, facts(MidiReader.read(m)), "read from a mido object")
    ctx.eq(messages(m), before, "the messages of the mido object after it was read")
    ctx.eq((m.type, m.ticks_per_beat, m.charset, m.filename), (mtype, mido.MidiFile(file=io.BytesIO(data)).ticks_per_beat, "latin1", None), "the mido object after it was read")
    same(ctx, base, facts(MidiReader.read(m)), "read a second time from the same mido object")
    same(ctx, base, facts(MidiReader.from_file(path)), "loaded with from_file")
    same(ctx, base, facts(MidiReader.read(path)), "read a second time")
    same(ctx, base, facts(MidiNoteSequences.from_file(path, MidiReader())), "loaded through the container")
    with open(path, "rb") as f:
        ctx.check(f.read() == data, "reading changed the file")
    ctx.eq(listing(), files, "the files of the directory, their modes and the times they were written at, after all that")
    # an object that was parsed is what it is, whatever became of the file
    m = mido.MidiFile(path)
    with open(path, "wb") as f:
        f.write(OTHER)
    same(ctx, base, facts(MidiReader.read(m)), "read from a mido object whose file was replaced since")
    same(ctx, facts(MidiReader.read(OTHER)), facts(MidiReader.read(path)), "read from the path after the file was replaced")
    os.remove(path)
    return base


OTHER = midifmt.encode({"ppq": 96, "type": 1, "running": False, "tracks": [[[3, "on", 0, 40, 50], [90, "off", 0, 40, 0]]]})


def check_forms(case, ctx):
    agree(ctx, midifmt.encode(case))


def check_file(case, ctx):
    with open(os.path.join(songs.REPO, case["file"]), "rb") as f:
        agree(ctx, f.read())


def mutate(data, muts):
    b = bytearray(data)
    for kind, pos, val in muts:
        if not b:
            break
        i = min(len(b) - 1, pos * len(b) // 1000)
        if kind == "set":
            b[i] = val
        elif kind == "flip":
            b[i] ^= 1 << (val % 8)
        elif kind == "del":
            del b[i:i + 1 + val % 6]
        elif kind == "ins":
            b[i:i] = bytes([val] * (1 + val % 3))
        elif kind == "cut":
            del b[i:]
        elif kind == "trim":
            del b[-(1 + val % 4):]
        elif kind == "pad":
            b += bytes([pos % 256]) * (1 + val % 4)
        elif kind == "dup":
            b[i:i] = b[i:i + val]
        elif kind == "div":
            # the division of the header: none at all, or frames per second and ticks per frame (SMPTE)
            b[12:14] = [(0, 0), (256 - 24, 80), (256 - 25, 40), (256 - 29, 1), (256 - 30, 100), (128, 0), (255, 255)][pos % 7]
    return bytes(b)


def sound(ctx, seqs):
    ctx.check(isinstance(seqs, MidiNoteSequences), f"reading gave {type(seqs)}")
    end = 0.0
    for k in seqs:
        s = seqs[k]
        for n in s.notes:
            ctx.check(0 <= n.pitch <= 127 and 1 <= n.velocity <= 127, f"a note has pitch {n.pitch}, velocity {n.velocity}")
            ctx.check(0 <= n.start_time <= n.end_time, f"a note goes from {n.start_time} to {n.end_time}")
            end = max(end, n.end_time)
        for c in s.control_changes:
            ctx.check(0 <= c.cc_number <= 127 and 0 <= c.cc_value <= 127 and c.cc_time >= 0, f"control change {c}")
        for b in s.pitch_bends:
            ctx.check(-8192 < b.amount < 8192 and b.midi_time >= 0, f"pitch bend {b}")
        ctx.check(0 <= s.instrument.instrument_num <= 127, "program out of range")
    ctx.near(float(seqs.total_time), float(end), "total time", 1e-9)
    ctx.check(seqs.resolution > 0, f"resolution {seqs.resolution}")
    for name in ("time_signatures", "key_signatures", "tempo_signatures"):
        for x in getattr(seqs, name):
            ctx.check(x.midi_time >= 0, f"{name}: a change at {x.midi_time}")


def saved(m):
    """Does mido itself keep this object as it is? (It closes a track that has no end, or refuses some.)"""
    try:
        out = io.BytesIO()
        m.save(file=out)
        return messages(mido.MidiFile(file=io.BytesIO(out.getvalue()))) == messages(m)
    except Exception:
        return False


def check_bytes(case, ctx):
    data = mutate(midifmt.encode(case["song"]), case["muts"])
    m = None
    try:
        m = mido.MidiFile(file=io.BytesIO(data))
    except Exception:
        pass
    if m is not None:
        top = max([sum(e.time for e in tr) for tr in m.tracks] or [0])
        if top > MAX_TICKS:
            ctx.label("too long, left out")
            return
    path = os.path.join(os.getcwd(), "bytes.mid")
    with open(path, "wb") as f:
        f.write(data)
    outcome = []
    for how, fn in (("bytes", lambda: MidiReader.read(data)), ("path", lambda: MidiReader.read(path))):
        try:
            seqs = fn()
        except Exception as e:
            outcome.append(None)
            continue
        outcome.append(facts(seqs))
        sound(ctx, seqs)
    if m is None:
        ctx.label("not a MIDI file")
        ctx.check(outcome == [None, None], "a file that cannot be decoded was read")
    ctx.eq(outcome[1], outcome[0], "read from path, against read from bytes")
    try:
        third = facts(MidiReader.from_file(path))
    except ValueError:
        third = None
    ctx.eq(third, outcome[0], "loaded with from_file")
    try:
        third = facts(MidiNoteSequences.from_file(path, MidiReader()))
    except ValueError:
        third = None
    ctx.eq(third, outcome[0], "loaded through the container")
    if m is not None and saved(m):
        # whatever mido makes of the bytes is what the reader makes of them
        try:
            fourth = facts(MidiReader.read(m))
        except Exception:
            fourth = None
        ctx.eq(outcome[0], fourth, "read from bytes, against the object mido makes of them")
    ctx.label("read" if outcome[0] is not None else "refused")
    os.remove(path)


BAD = [None, 3, 1.5, [], {}, ["x.mid"], True]


def check_bad(case, ctx):
    if case["kind"] == "type":
        v = BAD[case["i"]]
        ctx.raises(ValueError, lambda: MidiReader.read(v), f"reading {v!r}")
        ctx.raises(ValueError, lambda: MidiReader.from_file(v), f"loading {v!r}")
        ctx.raises(ValueError, lambda: MidiNoteSequences.from_file(v, MidiReader()), f"loading {v!r} through the container")
    else:
        ctx.raises(Exception, lambda: MidiReader.read(case["path"]), f"reading {case['path']!r}")
        ctx.raises(ValueError, lambda: MidiReader.from_file(case["path"]), f"loading {case['path']!r}")
        ctx.raises(ValueError, lambda: MidiNoteSequences.from_file(case["path"], MidiReader()), f"loading {case['path']!r} through the container")


def bytes_strategy(tier):
    rough = st.tuples(st.sampled_from(["set", "flip", "del", "ins", "cut", "dup", "trim"]),
                      st.integers(0, 999), st.integers(0, 255)).map(list)
    mild = st.tuples(st.sampled_from(["set", "flip"]), st.integers(0, 999), st.integers(0, 127)).map(list)
    end = st.tuples(st.sampled_from(["trim", "pad"]), st.integers(0, 999), st.integers(0, 255)).map(lambda t: [list(t)])
    div = st.integers(0, 6).map(lambda i: [["div", i, 0]])
    return st.fixed_dictionaries({"song": gen.song(tier=tier, max_tracks=2, max_events=16),
                                  "muts": st.one_of(end, div, st.lists(mild, min_size=1, max_size=2),
                                                    st.lists(rough, min_size=1, max_size=4))})


def file_cases(tier):
    fs = songs.corpus(limit=8, max_bytes=40000) if tier == "quick" else songs.corpus(limit=120)
    return [{"file": f} for f in fs]


def bad_cases(tier):
    out = [{"kind": "type", "i": i} for i in range(len(BAD))]
    return out + [{"kind": "path", "path": p} for p in ("", "no-such-file.mid", ".", "/nonexistent/dir/a.mid")]


SUBS = [
    Sub("forms", check_forms, lambda tier: gen.song(tier=tier), quick=120, thorough=2500, shards=3,
        nontrivial=lambda c: songs.note_count(c) >= 2,
        rule="a generated file with two or more notes, read from path, bytes, mido object, twice and by from_file"),
    Sub("bytes", check_bytes, bytes_strategy, quick=250, thorough=6000, shards=3,
        nontrivial=lambda c: songs.note_count(c["song"]) >= 1,
        rule="the bytes of a file with notes after one to six mutations"),
    Sub("bad", check_bad, cases=bad_cases, rule="every listed illegal argument"),
    Sub("long", check_forms, lambda tier: gen.long_song(tier), quick=10, thorough=200, shards=2, nontrivial=gen.is_long,
        rule="a file with fifty notes, controllers, tempos or signatures on a track"),
    Sub("corpus", check_file, cases=file_cases, rule="every real file of the data set that is read"),
]

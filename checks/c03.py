"""C03: control changes and pitch bends read from a MIDI file."""
import os
from collections import Counter

from hypothesis import strategies as st

from pbt import gen, midifmt, songs
from pbt.core import Sub
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C03"
ASSUMPTIONS = [
    "one program per channel and track: which instrument gets a controller event between two programs is not specified",
    "events on a channel of a track that has no note are not part of any instrument",
    "a pitch bend of -8192 is read as -8191, the least amount the library represents",
]


def compare(ctx, song, seqs):
    want = midifmt.interpret(song)
    tmap = want["tmap"]
    marks = [0]
    for ins in want["instruments"]:
        marks += [e[0] for e in ins["cc"] + ins["pb"]]
        marks += [e[2] for e in ins["notes"]] + [e[3] for e in ins["notes"]]
    ticks = songs.Ticks(tmap, marks)
    got = []
    for k in seqs:
        s = seqs[k]
        cc = Counter((ticks.of(c.cc_time, "control change"), c.cc_number, c.cc_value) for c in s.control_changes)
        pb = Counter((ticks.of(b.midi_time, "pitch bend"), b.amount) for b in s.pitch_bends)
        notes = Counter((n.pitch, n.velocity, ticks.of(n.start_time, "note")) for n in s.notes)
        for c in list(s.control_changes) + list(s.pitch_bends):
            ctx.eq(c.program, s.instrument.instrument_num, "program of a controller event")
            ctx.eq(bool(c.is_drum), s.instrument.is_drum, "drum flag of a controller event")
        # within an instrument the events keep the order of time
        for name, times in (("control changes", [c.cc_time for c in s.control_changes]),
                            ("pitch bends", [b.midi_time for b in s.pitch_bends])):
            ctx.check(all(a <= b for a, b in zip(times, times[1:])), f"{name} are not in order of time: {times[:10]}")
        got.append((s.instrument.instrument_num, s.instrument.is_drum, notes, cc, pb))
    for ins in want["instruments"]:
        notes = Counter((p, v, a) for p, v, a, b in ins["notes"] if not songs.negligible(tmap, a, b))
        some = Counter((p, v, a) for p, v, a, b in ins["notes"])
        cc = Counter(tuple(e) for e in ins["cc"])
        pb = Counter((t, max(v, -8191)) for t, v in ins["pb"])
        hit = [i for i, g in enumerate(got) if g[0] == ins["program"] and g[1] == ins["drum"]
               and not (notes - g[2]) and not (g[2] - some) and g[3] == cc and g[4] == pb]
        if not hit:
            near = [dict(program=g[0], cc=songs.counter_diff(g[3], cc), pb=songs.counter_diff(g[4], pb)) for g in got
                    if g[0] == ins["program"]][:4]
            ctx.fail(f"no instrument (program {ins['program']}, drum {ins['drum']}) of the piece holds the control changes "
                     f"{sorted(cc.elements())[:8]} and pitch bends {sorted(pb.elements())[:8]} (tick first): {near}")
        got.pop(hit[0])
    for g in got:
        ctx.check(not g[2] and not g[3] and not g[4], f"an instrument the file does not have: {g}")


def check_generated(case, ctx):
    compare(ctx, case, MidiReader.read(midifmt.encode(case)))


def one_program(song):
    """program changes are moved to the head of their track, one per channel."""
    tracks = []
    for tr in song["tracks"]:
        progs = {}
        evs = []
        carry = 0
        for e in tr:
            if e[1] == "prog":
                progs[e[2]] = e[3]
                carry += e[0]
            else:
                evs.append([e[0] + carry] + e[1:])
                carry = 0
        tracks.append([[0, "prog", c, p] for c, p in sorted(progs.items())] + evs)
    return dict(song, tracks=tracks)


def check_file(case, ctx):
    path = os.path.join(songs.REPO, case["file"])
    song = songs.song_from_file(path)
    for tr in song["tracks"]:
        progs = [e[2] for e in tr if e[1] == "prog"]
        if len(progs) != len(set(progs)) or any(e[1] == "prog" for i, e in enumerate(tr)
                                                if any(x[1] == "on" for x in tr[:i])):
            ctx.label("more than one program on a channel")
            return
    compare(ctx, song, MidiReader.read(path))


def check_every(case, ctx):
    """Value v of every controller number, and one in 128 of all bends, on a channel."""
    v = case["v"]
    ch = v % 16
    evs = [[0, "prog", ch, v], [7, "on", ch, 60, 100], [400, "off", ch, 60, 0]]
    evs += [[k % 3, "cc", ch, k, v] for k in range(128)]
    evs += [[k % 3, "pb", ch, v + 128 * k - 8192] for k in range(128)]
    evs += [[1, "on", ch, v, 1], [9, "off", ch, v, 0]]
    compare_song = {"ppq": 96, "type": 1, "running": bool(v % 2), "tracks": [evs]}
    compare(ctx, compare_song, MidiReader.read(midifmt.encode(compare_song)))


def strategy(tier):
    ch = st.sampled_from([0, 0, 1, 9])
    ev = st.one_of(
        st.tuples(st.just("on"), ch, st.integers(60, 66), gen.VEL),
        st.tuples(st.just("off"), ch, st.integers(60, 66), st.just(0)),
        st.tuples(st.just("cc"), ch, st.integers(0, 127), st.integers(0, 127)),
        st.tuples(st.just("cc"), ch, st.sampled_from([0, 1, 6, 7, 10, 11, 32, 38, 64, 65, 66, 67, 68, 69, 91, 93, 98, 99, 100, 101, 120, 121, 122, 123, 126, 127]), st.integers(0, 127)),
        st.tuples(st.just("pb"), ch, st.one_of(st.integers(-8192, 8191), st.sampled_from([-8192, -8191, 0, 8191]))),
        st.tuples(st.just("prog"), ch, st.integers(0, 127)))
    tempo = st.tuples(st.just("tempo"), gen.TEMPO)

    def tr(first):
        step = st.tuples(gen.DELTA, st.one_of(*([ev] * 6 + ([tempo] if first else []))), st.sampled_from([1, 1, 1, 1, 1, 2]))
        # now and then an event comes twice at one tick
        return st.lists(step, max_size=40 if tier == "quick" else 150).map(
            lambda l: [[d * (not k)] + list(e) for d, e, n in l for k in range(n)])
    return st.builds(lambda ppq, a, b, run: one_program({"ppq": ppq, "type": 1, "running": run, "tracks": [a] + b}),
                     gen.PPQ, tr(True), st.lists(tr(False), max_size=2), st.booleans())


def nontrivial(case):
    want = midifmt.interpret(case)
    return any(len(i["cc"]) + len(i["pb"]) >= 2 for i in want["instruments"])


def file_cases(tier):
    fs = songs.corpus(limit=14, max_bytes=60000) if tier == "quick" else songs.corpus()
    return [{"file": f} for f in fs]


SUBS = [
    Sub("events", check_generated, strategy, quick=600, nontrivial=nontrivial, shards=4,
        rule="an instrument with two or more control changes or pitch bends"),
    Sub("every", check_every, cases=lambda tier: [{"v": v} for v in range(128)],
        rule="each value 0..127 of each of the 128 controllers and each of the 16384 bends once"),
    Sub("long", check_generated, lambda tier: gen.long_song(tier), quick=20, thorough=600, shards=2, nontrivial=gen.is_long,
        rule="a file with fifty notes, controllers, tempos or signatures on a track"),
    Sub("corpus", check_file, cases=file_cases, rule="every real file of the data set that is read"),
]

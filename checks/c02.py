"""C02: tempo, time signature and key signature of a read piece at any time."""
import os

from hypothesis import strategies as st

from pbt import gen, midifmt, songs
from pbt.core import Sub
from neural_graph_composer.midi_reader import MidiReader
from neural_graph_composer.midi.midi_key_signature import KeySignatureType

PROPERTY = "C02"
ASSUMPTIONS = [
    "tempo, time and key signature events are on the first track, at most one of a kind per tick",
    "changes closer than two microseconds are not told apart",
]
MODE = {0: KeySignatureType.MAJOR, 1: KeySignatureType.MINOR}


def effective(changes, default):
    """The list of (time, value) in force, beginning with the default when nothing is set at the start."""
    if not changes or changes[0][0] > 1e-6:
        changes = [(0.0, default)] + changes
    return changes


def compare(ctx, song, seqs):
    want = midifmt.interpret(song)
    tmap = want["tmap"]
    sec = tmap.seconds
    ts = effective([(sec(t), (n, d)) for t, n, d in want["ts"]], (4, 4))
    ks = effective([(sec(t), (MODE[mi], pc)) for t, pc, mi in want["ks"]], (MODE[0], 0))
    tempo = tmap.changes()

    def times_ok(name, got, exp):
        if any(songs.ambiguous(exp[:i], t) for i, (t, _) in enumerate(exp)):
            ctx.label("changes too close")
            return False
        ctx.eq(len(got), len(exp), f"number of {name} changes ({[g[0] for g in got][:8]} vs {[e[0] for e in exp][:8]})")
        for (g, gv), (e, ev) in zip(got, exp):
            ctx.near(g, e, f"time of a {name} change", 1e-9 * max(1, abs(e)) + 1e-12)
        return True

    got = [(x.midi_time, (x.numerator, x.denominator)) for x in seqs.slice_time_signatures()]
    if times_ok("time signature", got, ts):
        ctx.eq([v for _, v in got], [v for _, v in ts], "time signatures")
        for t, v in got:
            ctx.eq(seqs.time_signature(t), v, f"time signature at its own time {t}")
    got = [(x.midi_time, (x.mode, x.midi_key)) for x in seqs.slice_key_signatures()]
    if times_ok("key signature", got, ks):
        ctx.eq([v for _, v in got], [v for _, v in ks], "key signatures")
        for t, v in got:
            ctx.eq(seqs.key_signature(t), v, f"key signature at its own time {t}")
    got = [(x.midi_time, x.qpm) for x in seqs.slice_tempo_signature()]
    if times_ok("tempo", got, tempo):
        for (_, g), (_, e) in zip(got, tempo):
            ctx.near(g, e, "tempo", 1e-6 * e)
        ctx.near(seqs.initial_tempo(), tempo[0][1], "initial tempo", 1e-6 * tempo[0][1])
        for t, v in got:
            ctx.eq(seqs.tempo_signature(t)[0], int(v), f"tempo at its own time {t}")
    ctx.eq(seqs.resolution, song["ppq"], "resolution")

    last = max([t for t, _ in ts + ks + tempo])
    probes = {0.0, last + 1.0, last * 2 + 3}
    for seq in (ts, ks, tempo):
        for (a, _), (b, _) in zip(seq, seq[1:]):
            probes.add((a + b) / 2)
        probes.add(seq[-1][0] + 0.125)
    for p in sorted(probes):
        if not songs.ambiguous(ts[1:], p):
            ctx.eq(seqs.time_signature(p), songs.last_change(ts, p, (4, 4)), f"time signature at {p}")
        if not songs.ambiguous(ks[1:], p):
            ctx.eq(seqs.key_signature(p), songs.last_change(ks, p, (MODE[0], 0)), f"key signature at {p}")
        if not songs.ambiguous(tempo[1:], p):
            q, res = seqs.tempo_signature(p)
            e = songs.last_change(tempo, p, 120.0)
            ctx.check(int(e - 1e-6 * e) <= q <= int(e + 1e-6 * e), f"tempo at {p}: got {q}, expected {e}")
            ctx.eq(res, song["ppq"], "resolution of the tempo")


def check_generated(case, ctx):
    compare(ctx, case, MidiReader.read(midifmt.encode(case)))


def check_file(case, ctx):
    path = os.path.join(songs.REPO, case["file"])
    song = songs.song_from_file(path)
    seen = set()
    t = 0
    for e in song["tracks"][0]:
        t += e[0]
        if e[1] in ("tempo", "ts", "key"):
            if (e[1], t) in seen:
                ctx.label("several changes of a kind on one tick")
                return
            seen.add((e[1], t))
    compare(ctx, song, MidiReader.read(path))


def changes_strategy(tier):
    """A first track rich in changes, some other tracks with notes."""
    meta = st.one_of(st.tuples(st.just("tempo"), st.one_of(gen.TEMPO, st.integers(20000, 4000000), st.integers(700000, 700004), st.integers(700000, 700004))),
                     st.tuples(st.just("ts"), st.integers(1, 32), st.integers(0, 6)),
                     st.tuples(st.just("key"), st.integers(-7, 7), st.integers(0, 1)))
    note = st.tuples(st.just("on"), st.integers(0, 2), gen.PITCH, gen.VEL)
    off = st.tuples(st.just("off"), st.integers(0, 2), gen.PITCH, st.just(0))
    first = st.lists(st.tuples(gen.DELTA, st.one_of(meta, meta, meta, note, off)),
                     max_size=25 if tier == "quick" else 80).map(lambda l: [[d] + list(e) for d, e in l])
    rest = st.lists(st.tuples(gen.DELTA, st.one_of(note, off)), max_size=6).map(
        lambda l: [[d] + list(e) for d, e in l])
    return st.builds(lambda ppq, a, b: {"ppq": ppq, "type": 1, "running": False, "tracks": [a] + b},
                     gen.PPQ, first, st.lists(rest, max_size=2)).map(songs.distinct_meta)


def nontrivial(case):
    kinds = [e[1] for e in case["tracks"][0] if e[1] in ("tempo", "ts", "key")]
    return len(kinds) >= 3 and len(set(kinds)) >= 2


def file_cases(tier):
    fs = songs.corpus(limit=12, max_bytes=60000) if tier == "quick" else songs.corpus()
    return [{"file": f} for f in fs]


SUBS = [
    Sub("changes", check_generated, changes_strategy, quick=700, nontrivial=nontrivial, shards=4,
        rule="three or more changes of at least two kinds (tempo, time signature, key signature)"),
    Sub("songs", check_generated, lambda tier: gen.song(tier=tier).map(songs.distinct_meta), quick=250,
        nontrivial=nontrivial, rule="the same, inside generated pieces"),
    Sub("long", check_generated, lambda tier: gen.long_song(tier), quick=20, thorough=600, shards=2, nontrivial=gen.is_long,
        rule="a file with fifty notes, controllers, tempos or signatures on a track"),
    Sub("corpus", check_file, cases=file_cases, rule="every real file of the data set that is read"),
]

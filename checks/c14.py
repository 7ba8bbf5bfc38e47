"""C14: the tracks of a piece under any history of edits."""
from collections import Counter

from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences

PROPERTY = "C14"
ASSUMPTIONS = ["tracks are numbered 0 to 127", "the total time of a piece is that of the tracks it was made of; it is not asked for after edits"]
WRONG = (TypeError, ValueError)
WITNESS = {"truncate-from-start": ("history", {"made": [[[0, False, "a"], [[60, 64, 0.0, 1.0]]]], "how": "list", "ops": [["truncate", 2.0]]})}


class Track:
    def __init__(self, ins, facts):
        self.ins, self.facts = ins, list(facts)     # ins: (number, name, drum); None: not specified


def ins_of(s):
    return (s.instrument.instrument_num, s.instrument.name, s.instrument.is_drum)


def build(case, ctx):
    seqs = [N.sequence(ins, notes) for ins, notes in case["made"]]
    model = {}
    bad = False
    for s in seqs:
        k = s.instrument.instrument_num
        if k in model:
            bad = bad or ins_of(s) != model[k].ins
            model[k].facts += N.facts(s)
        else:
            model[k] = Track(ins_of(s), N.facts(s))
    if case["how"] == "none" or not seqs:
        return MidiNoteSequences(is_debug=False), {}
    if case["how"] == "one":
        s = seqs[0]
        return MidiNoteSequences(is_debug=False, midi_seq=s), {s.instrument.instrument_num: Track(ins_of(s), N.facts(s))}
    if bad:
        ctx.raises(WRONG, lambda: MidiNoteSequences(is_debug=False, midi_seq=seqs), "two different instruments of one number")
        return MidiNoteSequences(is_debug=False), {}
    return MidiNoteSequences(is_debug=False, midi_seq=seqs), model


def compare(ctx, p, model, what):
    ctx.eq(list(p), sorted(model), f"{what}: track numbers")
    ctx.eq(len(p), len(model), f"{what}: length")
    ctx.eq(p.num_track(), len(model), f"{what}: number of tracks")
    for k in sorted(model):
        t, s = model[k], p[k]
        ctx.check(p[k] is s, f"{what}: track {k} is another object the second time")
        ctx.eq(Counter(N.facts(s)), Counter(t.facts), f"{what}: notes of track {k}")
        ctx.eq(p.instrument_midi_seq_len(k), len(t.facts), f"{what}: number of notes of track {k}")
        if t.ins is not None:
            ctx.eq(ins_of(s), t.ins, f"{what}: instrument of track {k}")
    ctx.eq([(i.instrument_num, i.name, i.is_drum) for i in p.instruments], [ins_of(p[k]) for k in sorted(model)], f"{what}: instruments")
    ctx.eq(p.num_instruments(), len({ins_of(p[k])[0] for k in model}), f"{what}: number of instruments")
    events = p.get_all_sequence_events()
    ctx.eq(Counter(N.fact(e) for e in events), Counter(f for t in model.values() for f in t.facts), f"{what}: all events")
    ctx.check(all(a.start_time <= b.start_time for a, b in zip(events, events[1:])), f"{what}: events out of order")
    ctx.eq(p.is_quantized(), all(f[9] >= 0 and f[10] >= 0 for t in model.values() for f in t.facts), f"{what}: quantized")
    ctx.eq(p.instrument_midi_seq_len(max(model, default=-1) + 1), 0, f"{what}: notes of a track that is not there")
    ctx.check(isinstance(str(p), str) and isinstance(repr(p), str), f"{what}: printed")
    ctx.eq(list(p), sorted(model), f"{what}: track numbers after the questions")


def check_history(case, ctx):
    p, model = build(case, ctx)
    ctx.eq(p.total_time, max([f[3] for t in model.values() for f in t.facts], default=0.0), "total time of a new piece")
    compare(ctx, p, model, "new piece")
    for step, op in enumerate(case["ops"]):
        what = f"step {step} {op[0]}"
        if op[0] == "get":
            k = op[1]
            if not 0 <= k < 128:
                ctx.raises(ValueError, lambda: p[k], f"{what}: track {k}")
            else:
                s = p[k]
                if k not in model:
                    model[k] = Track(None, [])
                    ctx.eq((s.instrument.instrument_num, len(s.notes), s.resolution), (k, 0, p.resolution), f"{what}: a new track")
        elif op[0] in ("put", "set"):
            k, (ins, notes), as_list = op[1], op[2], op[3]
            value = [N.mk(n, 0, False) for n in notes] if as_list else N.sequence(ins, notes)
            facts = [N.fact(n) for n in value] if as_list else N.facts(value)
            if op[0] == "put":
                if not 0 <= k < 128:
                    ctx.raises(ValueError, lambda: p.__setitem__(k, value), f"{what}: track {k}")
                    compare(ctx, p, model, what)
                    continue
                p[k] = value
            else:
                k = max(0, min(127, k))
                p.set_sequence(k, value)
            if not as_list:
                ctx.check(p[k] is value, f"{what}: the track that was set is not the one that is there")
            model[k] = Track(None if as_list else ins_of(value), facts)
        elif op[0] in ("create", "track"):
            k, (num, drum, name) = op[1], op[2]
            k = max(0, min(127, k))
            if op[0] == "create":
                ctx.eq(p.create_track(k, num, name, drum), k, f"{what}: number of the track")
            else:
                s = p.get_track(k, name=name, program=num, is_drum=drum)
                ctx.check(s is p[k], f"{what}: not the track of that number")
            if k not in model:
                model[k] = Track((num, name or N.info([num, drum, name]).name, drum), [])
                ctx.eq(p[k].resolution, p.resolution, f"{what}: resolution of a new track")
        elif op[0] == "note":
            k = op[1]
            if k in model:
                s = p[k]
                n = N.mk(op[2], s.instrument.instrument_num, s.instrument.is_drum)
                s.add_note(n)
                model[k].facts.append(N.fact(n))
        elif op[0] == "quantize":
            k = op[1]
            if k in model:
                p[k].quantize(sps=4)
                model[k].facts = N.facts(p[k])
        elif op[0] == "truncate":
            events = [f for t in model.values() for f in t.facts]
            if op[1] is None:
                if events:
                    ctx.eq(p.truncate(), max(f[3] for f in events), f"{what}: time of the last event")
            elif op[1] < 0:
                ctx.raises(ValueError, lambda: p.truncate(from_start=op[1]), f"{what}: a negative offset")
            elif not any(f[3] <= op[1] for f in events):
                ctx.eq(p.truncate(from_start=op[1]), None, f"{what}: no event ends by {op[1]}")
            elif not ctx.known("truncate-from-start"):
                got = p.truncate(from_start=op[1])
                ctx.check(got is not None and got <= op[1], f"{what}: last event {got}")
                return
        elif op[0] == "bad":
            bads = [lambda: p["1"], lambda: p.__setitem__("1", []), lambda: p.__setitem__(1, "notes"), lambda: p.create_track(1, 200, "x", False),
                    lambda: p.create_track(1, 5, 7, False), lambda: p.create_track(1, 5, "x", "no"), lambda: p.get_track(200, "x", 1, False),
                    lambda: MidiNoteSequences(midi_seq=3), lambda: MidiNoteSequences(time_signatures=3), lambda: MidiNoteSequences(key_signatures=[1]),
                    lambda: MidiNoteSequences(filename=3), lambda: MidiNoteSequences(resolution="220"), lambda: MidiNoteSequences(resolution=1.5),
                    lambda: MidiNoteSequences(is_debug="yes"), lambda: MidiNoteSequences(midi_seq=[p, 3]), lambda: MidiNoteSequences(midi_seq=[None]),
                    lambda: MidiNoteSequences(time_signatures=["4/4"]), lambda: MidiNoteSequences(tempo_signatures=120.0),
                    lambda: MidiNoteSequences(tempo_signatures=[120.0]), lambda: MidiNoteSequences(key_signatures=0), lambda: p.__setitem__(1.0, []),
                    lambda: p[None], lambda: p.__setitem__(-1, [])]
            ctx.raises(WRONG, bads[op[1] % len(bads)], f"{what}: bad value {op[1] % len(bads)}")
        compare(ctx, p, model, what)


NOTE = N.note()
INS = st.sampled_from([[0, False, "a"], [0, False, "a"], [0, False, "b"], [3, False, ""], [3, False, ""], [9, True, "kit"], [127, False, "z"]])


def history(tier):
    k = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 127), st.sampled_from([-1, 127, 128, 200]))
    # a few starts are next to each other
    few = st.lists(st.one_of(NOTE, NOTE, st.tuples(NOTE, st.integers(-20, 20), st.sampled_from([10, 10, 14, 20])).map(
        lambda x: [x[0][0], x[0][1], max(0.0, 1.0 + x[1] / 2 ** x[2]), x[0][3]])), max_size=4)
    seq = st.tuples(INS, few).map(list)
    op = st.one_of(
        st.tuples(st.just("get"), k), st.tuples(st.just("put"), k, seq, st.booleans()), st.tuples(st.just("set"), k, seq, st.booleans()),
        st.tuples(st.just("create"), k, INS), st.tuples(st.just("track"), k, INS), st.tuples(st.just("note"), st.integers(0, 4), N.note()),
        st.tuples(st.just("note"), st.integers(0, 4), N.note()), st.tuples(st.just("quantize"), st.integers(0, 4)),
        st.tuples(st.just("truncate"), st.one_of(st.none(), st.none(), N.TIME, st.just(-1.0))), st.tuples(st.just("bad"), st.integers(0, 22)))
    return st.fixed_dictionaries({"made": st.lists(seq, max_size=4), "how": st.sampled_from(["none", "one", "list", "list"]),
                                  "ops": gen.history(op.map(list), 12 if tier == "quick" else 40)})


def full(tier):
    """A piece of up to all 128 tracks, edited a little."""
    def case(start, step, count, note, ops):
        nums = [(start + i * step) % 128 for i in range(count)]
        return {"made": [[[k, i % 5 == 4, f"t{k}"], [note] * (i % 3 > 0)] for i, k in enumerate(nums)], "how": "list", "ops": ops}
    k = st.integers(-1, 128)
    op = st.one_of(st.tuples(st.just("get"), k), st.tuples(st.just("set"), k, st.tuples(INS, st.lists(NOTE, max_size=2)).map(list), st.booleans()),
                   st.tuples(st.just("create"), k, INS), st.tuples(st.just("track"), k, INS))
    return st.builds(case, st.integers(0, 127), st.integers(0, 63).map(lambda i: 2 * i + 1), st.sampled_from([128, 128, 127, 64, 33, 17]), NOTE,
                     gen.history(op.map(list), 5))


SUBS = [
    Sub("long", check_history, lambda tier: gen.with_many(history(tier), made=st.lists(st.tuples(INS, N.many()).map(list), min_size=1, max_size=2)),
        quick=20, thorough=300, nontrivial=lambda c: len(c["ops"]) >= 2, rule="fifty notes or more on a track, and two operations"),
    Sub("full", check_history, full, quick=12, thorough=300, nontrivial=lambda c: len(c["made"]) > 16, shards=2,
        rule="a piece of more than 16 tracks, edited"),
    Sub("history", check_history, history, quick=400, thorough=10000, shards=6,
        nontrivial=lambda c: len(c["ops"]) >= 3 and len({o[0] for o in c["ops"]} & {"get", "put", "set", "create", "track"}) >= 2,
        rule="a history that makes and sets tracks in two or more ways"),
]

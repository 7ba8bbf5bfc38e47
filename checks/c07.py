"""C07: the time, key and tempo signatures of a piece, as a history of additions and look-ups."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from neural_graph_composer.midi.midi_key_signature import KeySignatureType, MidiKeySignature
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature

PROPERTY = "C07"
ASSUMPTIONS = [
    "two times are the same when they are equal and different when they are 30 microseconds or more apart (nothing closer is generated)",
    "signatures are added through the add methods, not by editing the lists",
]
DEFAULT = {"ts": (4, 4), "ks": (KeySignatureType.MAJOR, 0), "tempo": (120, 480)}


def make(kind, t, v):
    if kind == "ts":
        return MidiTimeSignature(numerator=v[0], denominator=2 ** v[1], midi_time=t)
    if kind == "ks":
        return MidiKeySignature(midi_time=t, midi_key=v[0] % 12, midi_mode=v[1] % 2)
    return MidiTempoSignature(midi_time=t, qpm=v[0] * 3.7 + 20, resolution=96 * (v[1] + 1))


def value(kind, v):
    if kind == "ts":
        return v[0], 2 ** v[1]
    if kind == "ks":
        return (KeySignatureType.MINOR if v[1] % 2 else KeySignatureType.MAJOR), v[0] % 12
    return int(v[0] * 3.7 + 20), 96 * (v[1] + 1)


def full(kind, v):
    """All that was given, to the last digit."""
    return v[0] * 3.7 + 20 if kind == "tempo" else value(kind, v)


def given(kind, x):
    if kind == "ts":
        return x.numerator, x.denominator
    return (x.mode, x.midi_key) if kind == "ks" else float(x.qpm)


class Model:
    """The list of a kind: entries in order of time, entries of one time in order of addition, except that an
    entry at the time of the first one takes its place."""

    def __init__(self, entries):
        self.entries = list(entries)

    def add(self, t, val, obj, all_of_it):
        if self.entries and self.entries[0][0] == t:
            self.entries[0] = (t, val, obj, all_of_it)
            return
        i = len(self.entries)
        while i > 0 and self.entries[i - 1][0] > t:
            i -= 1
        self.entries.insert(i, (t, val, obj, all_of_it))

    def at(self, t, default):
        out = default
        for e in self.entries:
            if e[0] <= t:
                out = e[1]
        return out


LISTS = {"ts": "time_signatures", "ks": "key_signatures", "tempo": "tempo_signatures"}
ADD = {"ts": "add_time_signatures", "ks": "add_key_signatures", "tempo": "add_tempo_signature"}
LOOK = {"ts": "time_signature", "ks": "key_signature", "tempo": "tempo_signature"}
SLICE = {"ts": "slice_time_signatures", "ks": "slice_key_signatures", "tempo": "slice_tempo_signature"}


def build(how, case, objs):
    if how == "default":
        seqs = MidiNoteSequences(is_debug=False)
        models = {k: Model([(0.0, DEFAULT[k], None, 120.0)]) for k in DEFAULT}
        return seqs, models
    if how == "empty":
        return (MidiNoteSequences(is_debug=False, time_signatures=[], key_signatures=[], tempo_signatures=[]),
                {k: Model([]) for k in DEFAULT})
    seqs = MidiNoteSequences(is_debug=False, time_signatures=objs["ts"], key_signatures=objs["ks"], tempo_signatures=objs["tempo"])
    return seqs, {k: Model(sorted([(t, value(k, v), o, full(k, v)) for (t, v), o in zip(case["given"], objs[k])], key=lambda e: e[0])) for k in DEFAULT}


def check_history(case, ctx):
    objs = {k: [make(k, t, v) for t, v in case["given"]] for k in DEFAULT}
    lists = {k: list(v) for k, v in objs.items()}
    world = [build(h, case, objs) for h in case["pieces"]]
    asked = list(case["final"])
    for s, ms in world:
        for kind in DEFAULT:
            for t in asked:
                ctx.eq(getattr(s, LOOK[kind])(t), ms[kind].at(t, DEFAULT[kind]), f"at first: {kind} in force at {t}")
    for step, op in enumerate(case["ops"]):
        seqs, models = world[op[1] % len(world)]
        if op[0] == "add":
            kind, t, v = op[2], op[3], op[4]
            obj = make(kind, t, v)
            ctx.eq(getattr(seqs, ADD[kind])(obj), None, "result of an addition")
            models[kind].add(t, value(kind, v), obj, full(kind, v))
        elif op[0] == "look":
            kind, t = op[2], op[3]
            ctx.eq(getattr(seqs, LOOK[kind])(t), models[kind].at(t, DEFAULT[kind]), f"step {step}: {kind} in force at {t}")
        elif op[0] == "tempo0":
            es = models["tempo"].entries
            if es:
                zero = [e for e in es if e[0] == 0.0]
                e = zero[0] if zero else es[0]
                ctx.near(seqs.initial_tempo(), e[3], f"step {step}: initial tempo", 1e-9)
        else:
            kind, bound = op[2], op[3]
            got = list(getattr(seqs, SLICE[kind])(bound) if op[4] else getattr(seqs, SLICE[kind])(bound, sort_first=False))
            exp = [e[0] for e in models[kind].entries if bound is None or e[0] <= bound]
            ctx.eq([float(x.midi_time) for x in got], exp, f"step {step}: times of the {kind} slice up to {bound}")
        asked.append(op[3] if op[0] in ("add", "look") else 0.0)
        for s, ms in world:
            for kind in DEFAULT:
                for t in sorted(set(asked)):     # what was asked before is asked again
                    ctx.eq(getattr(s, LOOK[kind])(t), ms[kind].at(t, DEFAULT[kind]), f"step {step}: {kind} in force at {t}, asked again")
                have = getattr(s, LISTS[kind])
                ctx.eq([float(x.midi_time) for x in have], [e[0] for e in ms[kind].entries], f"step {step}: times of {kind}")
                for x, e in zip(have, ms[kind].entries):
                    if e[2] is not None:
                        ctx.check(x is e[2], lambda: f"step {step}: the {kind} at {e[0]} is {x!r}, not the one that was added")
                        ctx.eq(given(kind, x), e[3], f"step {step}: what the {kind} at {e[0]} holds")
    ctx.check(objs == lists and all(a is b for k in objs for a, b in zip(objs[k], lists[k])), "the lists a piece was made of have changed")
    for s, ms in world:
        for kind in DEFAULT:
            for t in case["final"]:
                ctx.eq(getattr(s, LOOK[kind])(t), ms[kind].at(t, DEFAULT[kind]), f"in the end: {kind} in force at {t}")


def check_sequence(case, ctx):
    """A sequence answers with the tempo it starts with, as tempos come in."""
    s = MidiNoteSequence()
    have = []
    for t, v in case["tempos"]:
        obj = make("tempo", t, v)
        s.tempo_signature.append(obj)
        s.tempo_signature.sort(key=lambda x: x.midi_time)
        have = sorted(have + [(t, full("tempo", v))], key=lambda x: x[0])
        zero = [q for t, q in have if t == 0.0]
        ctx.eq(s.initial_tempo(), zero[0] if zero else have[0][1], f"initial tempo of a sequence with tempos at {have}")
        for what, c in (("a clone", s.clone()), ("an empty clone", s.clone_empty())):
            ctx.eq([(x.midi_time, x.qpm) for x in c.tempo_signature], have, f"tempos of {what}")
            ctx.eq(c.initial_tempo(), s.initial_tempo(), f"initial tempo of {what}")
            # a clone is its own
            c.tempo_signature[0].qpm = c.tempo_signature[0].qpm + 1
            c.tempo_signature.append(make("tempo", 100.0, v))
            ctx.eq([(x.midi_time, x.qpm) for x in s.tempo_signature], have, f"tempos after {what} was changed")


TIME = st.one_of(st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.0, 2.25, 3.0]), st.integers(0, 4000).map(lambda k: k / 100),
                 st.sampled_from([1 / 3, 2 / 3, 1.0004, 0.0001, 2.99996, 0.4996]), st.integers(0, 60000).map(lambda k: k / 10000),
                 st.builds(lambda base, k: base + k / 2 ** 13, st.sampled_from([2, 64, 1000, 5000]), st.integers(0, 4)))
KIND = st.sampled_from(["ts", "ks", "tempo"])
VAL = st.tuples(st.integers(1, 64), st.integers(0, 6))


def strategy(tier):
    piece = st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just("add"), piece, KIND, TIME, VAL), st.tuples(st.just("add"), piece, KIND, TIME, VAL),
        st.tuples(st.just("look"), piece, KIND, TIME), st.tuples(st.just("look"), piece, KIND, TIME),
        st.tuples(st.just("tempo0"), piece),
        st.tuples(st.just("slice"), piece, KIND, st.one_of(st.none(), TIME), st.booleans()))
    return st.fixed_dictionaries({
        "pieces": st.lists(st.sampled_from(["default", "default", "empty", "given"]), min_size=1, max_size=2),
        "given": st.lists(st.tuples(TIME, VAL).map(list), max_size=4, unique_by=lambda x: x[0]),
        "ops": gen.history(op.map(list), 25 if tier == "quick" else 80),
        "final": st.lists(TIME, max_size=4)})


def long(tier):
    def vary(o, rnd):
        if o[0] == "add":
            o[3] = rnd.randint(0, 60000) / 1000
        return o
    add = st.tuples(st.just("add"), st.integers(0, 1), KIND, TIME, VAL).map(list)
    return st.builds(lambda c, a: dict(c, ops=a + c["ops"]), gen.with_many(strategy("quick"), given=gen.many(
        st.tuples(TIME, VAL).map(list), 80, 0, lambda x, rnd: [rnd.randint(0, 60000) / 1000, x[1]]).map(lambda g: list({x[0]: x for x in g}.values()))),
        gen.many(add, 200, 50, vary))


def nontrivial(case):
    adds = [(o[1], o[2], o[3]) for o in case["ops"] if o[0] == "add"]
    return len(adds) >= 3 and any(o[0] in ("look", "slice") for o in case["ops"])


SUBS = [
    Sub("history", check_history, strategy, quick=900, thorough=20000, shards=4, nontrivial=nontrivial,
        rule="a history with three or more additions and a look-up or slice, over one or two pieces"),
    Sub("long", check_history, long, quick=20, thorough=500, shards=2, nontrivial=nontrivial, rule="fifty additions or more"),
    Sub("sequence", check_sequence, lambda tier: st.fixed_dictionaries({"tempos": st.lists(st.tuples(TIME, VAL).map(list), max_size=6)}), quick=200, thorough=4000,
        nontrivial=lambda c: len(c["tempos"]) >= 2, rule="two or more tempos set on one sequence, asked after each"),
]

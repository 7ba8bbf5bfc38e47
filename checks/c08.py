"""C08: a note sequence under any history of edits."""
from collections import Counter

from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence

PROPERTY = "C08"
ASSUMPTIONS = [
    "notes carry the drum flag of the sequence they are put into",
    "the end of an emptied copy is that of its source, as its documentation says; every other total time is a note end",
]


class Model:
    def __init__(self, ins, notes, total, res, cc=(), pb=()):
        self.ins, self.notes, self.total, self.res, self.cc, self.pb = ins, list(notes), total, res, list(cc), list(pb)

    def end(self):
        return max([n[3] for n in self.notes], default=0.0)

    def foreign(self):
        return any(n[5] != self.ins[0] for n in self.notes)


def controls(s):
    return [(c.cc_number, c.cc_value, c.cc_time) for c in s.control_changes]


def bends(s):
    return [(b.amount, b.midi_time) for b in s.pitch_bends]


def order(n):
    return (n[2], n[3], n[0])


def key(ins):
    i = N.info(ins)
    return (i.instrument_num, i.name, i.is_drum)


def refused(fn):
    try:
        fn()
    except (ValueError, TypeError):
        return True
    return False


def compare(ctx, step, i, s, m):
    w = f"step {step}, sequence {i}: "
    got = N.facts(s)
    ctx.eq(got, m.notes, w + "notes")
    ctx.eq(len(s), len(m.notes), w + "length")
    ctx.eq([N.fact(n) for n in s], m.notes, w + "iteration")
    ctx.eq([N.fact(s[k]) for k in range(len(m.notes))], m.notes, w + "indexing")
    ctx.eq([N.fact(n) for n in s.get_midi_events()], m.notes, w + "events")
    ctx.eq([N.fact(n) for n in s.drum_events], m.notes if m.ins[1] else [], w + "drum events")
    ctx.eq(s.total_time, m.total, w + "total time")
    ctx.eq((s.instrument.instrument_num, s.instrument.name, s.instrument.is_drum), key(m.ins), w + "instrument")
    ctx.eq(s.resolution, m.res, w + "resolution")
    ctx.eq(controls(s), m.cc, w + "control changes (number, value, time)")
    ctx.eq(bends(s), m.pb, w + "pitch bends (amount, time)")
    ctx.eq(s.is_quantized(), all(n[9] >= 0 and n[10] >= 0 for n in m.notes), w + "quantized")


def check_history(case, ctx):
    world = []
    for ins, notes, res in case["start"]:
        s = N.sequence(ins, notes, resolution=res)
        m = Model(ins, N.facts(s), 0.0, res)
        ctx.eq([f[:7] for f in m.notes],
               [(n[0], n[1], n[2], n[2] + n[3], ins[0], ins[0], ins[1]) for n in notes], "notes given to a sequence")
        m.total = m.end()
        world.append((s, m))
    for step, op in enumerate(case["ops"]):
        s, m = world[op[1] % len(world)]
        other = None
        name = op[0]
        if name in ("append", "extend", "add_note", "insert"):
            n = N.mk(op[2], m.ins[0], m.ins[1])
            f = N.fact(n)
            getattr(s, name)(n)
            if name == "insert":
                pos = [k for k in range(len(s.notes)) if s.notes[k] is n]
                ctx.eq(len(pos), 1, f"step {step}: places of the inserted note")
                if all(order(a) <= order(b) for a, b in zip(m.notes, m.notes[1:])):
                    have = N.facts(s)
                    ctx.check(all(order(a) <= order(b) for a, b in zip(have, have[1:])),
                              f"step {step}: the sequence was in order, but is not after the insertion: {have}")
                m.notes.insert(pos[0], f)
                m.total = m.end()
            else:
                m.notes.append(f)
                m.total = max(m.total, f[3])
        elif name in ("append_list", "extend_list"):
            ns = [N.mk(x, m.ins[0], m.ins[1]) for x in op[2]]
            getattr(s, name[:6])(ns)
            m.notes += [N.fact(n) for n in ns]
            m.total = max([m.total] + [n.end_time for n in ns])
        elif name == "foreign":
            ctx.check(refused(lambda: s.add_note(N.mk(op[2], (m.ins[0] + 1) % 128, m.ins[1]))),
                      f"step {step}: a note of another instrument was accepted")
        elif name == "set":
            s.notes = [N.mk(x, m.ins[0], m.ins[1]) for x in op[2]]
            m.notes = N.facts(s)
            m.total = m.end()
            ctx.eq(len(m.notes), len(op[2]), f"step {step}: notes that were set")
        elif name == "cc":
            s.add_control_changes(MidiControlChange(cc_number=op[2][0], cc_value=op[2][1], cc_time=op[2][2]))
            m.cc.append(tuple(op[2]))
        elif name == "pb":
            s.add_pitch_bends(MidiPitchBend(op[2][0], midi_time=op[2][2]))
            m.pb.append((op[2][0], op[2][2]))
        elif name == "edit":                                     # a controller and a bend of the sequence, in place
            k, t = op[2][0], op[2][2]
            if m.cc:
                k %= len(m.cc)
                s.control_changes[k].cc_value, s.control_changes[k].cc_time = op[2][1], t
                m.cc[k] = (m.cc[k][0], op[2][1], t)
            k = op[2][0]
            if m.pb:
                k %= len(m.pb)
                s.pitch_bends[k].amount, s.pitch_bends[k].midi_time = op[2][1], t
                m.pb[k] = (op[2][1], t)
        elif name == "sort":
            m.notes.sort(key=lambda n: n[2])
            ctx.eq(s.as_note_seq(), [n[0] for n in m.notes], f"step {step}: pitches in order of time")
        elif name == "cut_in_place":
            s.cut_in_place(op[2])
            m.notes = m.notes[:op[2]]
            m.total = m.end()
        elif name == "cut":
            other = (s.cut(op[2]), Model(m.ins, m.notes[:op[2]], 0.0, m.res))
            other[1].total = other[1].end()
        elif name == "clone":
            other = (s.clone(), Model(m.ins, m.notes, m.total, m.res, m.cc, m.pb))
            ctx.check(not {id(n) for n in s.notes} & {id(n) for n in other[0].notes}, f"step {step}: a clone shares notes")
        elif name == "clone_empty":
            other = (s.clone_empty(), Model(m.ins, [], m.total, m.res))
        elif name in ("add", "merge"):
            t, tm = world[op[2] % len(world)]
            same = key(m.ins) == key(tm.ins)
            if name == "add":
                if not same:
                    ctx.check(refused(lambda: s + t), f"step {step}: sequences of two instruments were added")
                else:
                    other = (s + t, Model(m.ins, m.notes + tm.notes, 0.0, m.res))
                    other[1].total = other[1].end()
            elif not same or m.res != tm.res:
                ctx.check(refused(lambda: s.merge(t)), f"step {step}: sequences that differ were merged")
            else:
                want = Counter(m.notes) + Counter(tm.notes)
                s.merge(t)
                m.notes = N.facts(s)
                ctx.eq(Counter(m.notes), want, f"step {step}: merged notes")
                ctx.check(all(order(a) <= order(b) for a, b in zip(m.notes, m.notes[1:])),
                          f"step {step}: merged notes are not in order: {m.notes}")
                m.total = m.end()
        elif name == "last":
            ctx.eq(s.truncate_to_last_event(op[2]), None if op[2] is None else m.end() + op[2], f"step {step}: last event")
        elif name == "min_step":
            starts = sorted((n[2], n[3]) for n in m.notes)
            if len({a for a, _ in starts}) == len(starts):
                gaps = [b[0] - a[0] for a, b in zip(starts, starts[1:]) if a[1] < b[0]]
                ctx.eq(s.calculate_min_step(), min(gaps, default=0.0), f"step {step}: smallest step")
        elif name == "valid":
            ctx.eq(s.validate_instrument(), None, f"step {step}: instruments of the notes")
        elif name == "bad":
            bads = [lambda: s.append("C4"), lambda: s.extend((1, 2)), lambda: s + 1, lambda: s.merge([]),
                    lambda: MidiNoteSequence(notes=tuple(s.notes)), lambda: MidiNoteSequence(instrument="x"),
                    lambda: MidiNoteSequence(resolution=1.5), lambda: setattr(s, "total_time", "1")]
            ctx.check(refused(bads[op[2] % len(bads)]), f"step {step}: bad value {op[2] % len(bads)} was accepted")
        if other is not None:
            world.append(other)
            if len(world) > 4:
                world.pop(0)
        for i, (x, mx) in enumerate(world):
            compare(ctx, step, i, x, mx)


def check_make(case, ctx):
    """What a constructor is given is what the sequence holds."""
    ins, notes, drums = case["ins"], case["notes"], case["drums"]
    s = MidiNoteSequence(notes=None if notes is None else [N.mk(n, ins[0], ins[1]) for n in notes],
                         drum_events=[N.mk(n, ins[0], True) for n in drums] if ins[1] else None, instrument=N.info(ins))
    want = (notes or []) + (drums if ins[1] else [])
    ctx.eq([f[:4] for f in N.facts(s)], [(n[0], n[1], n[2], n[2] + n[3]) for n in want], "notes")
    ctx.eq(s.total_time, max([n[2] + n[3] for n in want], default=0.0), "total time")
    t = MidiNoteSequence.from_notes([N.mk(n) for n in notes or []])
    ctx.eq([f[:4] for f in N.facts(t)], [(n[0], n[1], n[2], n[2] + n[3]) for n in notes or []], "notes of from_notes()")
    ctx.eq(t.total_time, max([n[2] + n[3] for n in notes or []], default=0.0), "total time of from_notes()")
    u = MidiNoteSequence(instrument=ins[0])
    ctx.eq((u.instrument.instrument_num, u.instrument.is_drum, len(u), u.total_time), (ins[0], False, 0, 0.0), "empty sequence")
    a, b = MidiNoteSequence(instrument=case["two"][0]), MidiNoteSequence(instrument=case["two"][1])
    if case["two"][0] != case["two"][1]:
        ctx.eq(a < b, case["two"][0] < case["two"][1], "order of sequences by instrument")


def history(tier):
    idx = st.integers(0, 3)
    note = N.note()
    few = st.lists(note, max_size=4)
    cut = st.one_of(st.integers(0, 3), st.integers(0, 20))
    ev = st.tuples(st.integers(0, 127), st.integers(0, 127), N.TIME).map(list)
    op = st.one_of(
        *[st.tuples(st.just(k), idx, note) for k in ("append", "extend", "add_note", "insert", "insert", "foreign")],
        *[st.tuples(st.just(k), idx, few) for k in ("append_list", "extend_list", "set")],
        st.tuples(st.just("cc"), idx, ev), st.tuples(st.just("pb"), idx, ev), st.tuples(st.just("edit"), idx, ev),
        *[st.tuples(st.just(k), idx, cut) for k in ("cut", "cut_in_place")],
        *[st.tuples(st.just(k), idx, idx) for k in ("add", "merge", "merge")],
        *[st.tuples(st.just(k), idx) for k in ("clone", "clone_empty", "sort", "min_step", "valid")],
        st.tuples(st.just("last"), idx, st.one_of(st.none(), st.sampled_from([0.0, 0.5, 2.0]))),
        st.tuples(st.just("bad"), idx, st.integers(0, 7)))
    ins = st.sampled_from([[0, False, ""], [0, False, ""], [5, False, "a"], [5, False, "b"], [0, True, ""], [127, False, ""]])
    return st.fixed_dictionaries({
        "start": st.lists(st.tuples(ins, st.lists(note, max_size=6), st.sampled_from([220, 220, 480])).map(list), min_size=1, max_size=3),
        "ops": gen.history(op.map(list), 20 if tier == "quick" else 60)})


def long(tier):
    def grown(c, notes):
        c["start"][0][1] = notes
        return dict(c, ops=c["ops"][:8])
    return st.builds(grown, history(tier), N.many())


def make(tier):
    few = st.lists(N.note(), max_size=6)
    return st.fixed_dictionaries({"ins": N.INSTRUMENT, "notes": st.one_of(st.none(), few), "drums": few,
                                  "two": st.tuples(st.integers(0, 127), st.integers(0, 127)).map(list)})


def nontrivial(case):
    kinds = {o[0] for o in case["ops"]}
    return len(kinds & {"append", "extend", "add_note", "insert", "set", "append_list", "extend_list"}) >= 1 and \
        bool(kinds & {"cut", "cut_in_place", "merge", "add", "clone", "clone_empty", "sort"})


SUBS = [
    Sub("long", check_history, long, quick=25, thorough=500, shards=2, nontrivial=lambda c: len(c["ops"]) >= 2, rule="fifty notes or more, and two operations"),
    Sub("history", check_history, history, quick=700, thorough=15000, shards=6, nontrivial=nontrivial,
        rule="a history that adds notes and cuts, merges, adds up, clones or sorts"),
    Sub("make", check_make, make, quick=200, nontrivial=lambda c: bool(c["notes"]) and bool(c["drums"]),
        rule="notes and drum events given to the constructor"),
]

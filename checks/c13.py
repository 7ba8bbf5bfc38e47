"""C13: instruments, signatures, control changes and pitch bends hold the values they are given."""
import copy
import json

from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_key_signature import KeySignatureType, MidiKeySignature
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature

PROPERTY = "C13"
ASSUMPTIONS = [
    "controller numbers, values, programs within the MIDI range (0 to 127) or below it; the library itself allows up to 255",
    "the families of instruments are numbered from 1, as the library's tests have it; number 0 without a name is 'Unknown'",
]
FAMILIES = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed", "Pipe", "Synth Lead",
            "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]
WRONG = (TypeError, ValueError, AssertionError)


def strangers(ctx, x):
    """No event equals a thing of another kind, and asking is not an error."""
    for other in (None, 3, "x", (), object(), MidiInstrumentInfo(1), MidiTimeSignature(), MidiControlChange(1, 2), MidiPitchBend(3)):
        if type(other) is not type(x):
            ctx.check(not (x == other) and x != other and other != x, f"{x} equals {other!r}")


def clamp(x, lo, hi):
    return max(lo, min(hi, x))


def check_instrument(case, ctx):
    items = []
    for num, drum, name in case["ins"]:
        if not 0 <= num <= 255:
            ctx.raises(ValueError, lambda: MidiInstrumentInfo(num, name=name, is_drum=drum), f"instrument {num}")
            continue
        i = MidiInstrumentInfo(num, name=name, is_drum=drum)
        want = name or (FAMILIES[(num - 1) // 8] if 1 <= num <= 128 else "Unknown")
        ctx.eq((i.instrument_num, i.name, i.is_drum), (num, want, drum), "fields of an instrument")
        back = MidiInstrumentInfo.from_dict(json.loads(json.dumps(i.to_dict())))
        ctx.eq((back.instrument_num, back.name, back.is_drum), (num, want, drum), "instrument from its dictionary")
        ctx.check(back == i and not (back != i) and hash(back) == hash(i), "an instrument and the one from its dictionary differ")
        items.append((i, (num, want, drum)))
        for other in (name.swapcase(), name + " ", " " + name, name + "a", name[:-1], name[::-1]):
            if other and other != want:
                j = MidiInstrumentInfo(num, name=other, is_drum=drum)
                ctx.check(not (i == j) and i != j and not (j == i), lambda: f"{i} and {j} are equal")
    for a, ka in items:
        for b, kb in items:
            ctx.eq(a == b, ka == kb, f"{a} == {b}")
            ctx.eq(a != b, ka != kb, f"{a} != {b}")
            ctx.eq(a < b, ka[0] < kb[0], f"{a} < {b}")
            if ka == kb:
                ctx.eq(hash(a), hash(b), "hashes of equal instruments")
    ctx.eq(len({i for i, _ in items}), len({k for _, k in items}), "instruments in a set")
    for i, _ in items:
        strangers(ctx, i)
    plain = MidiInstrumentInfo(7, "x")
    ctx.eq((plain.instrument_num, plain.name, plain.is_drum), (7, "x", False), "fields of an instrument given a number and a name")
    for bad in (dict(instrument="1"), dict(instrument=1.5), dict(instrument=1, name=3), dict(instrument=1, is_drum="yes")):
        ctx.raises(WRONG, lambda: MidiInstrumentInfo(**bad), f"instrument of {bad}")


def check_signatures(case, ctx):
    for t, qpm, res in case["tempo"]:
        if qpm <= 0 or res <= 0:
            ctx.raises(WRONG, lambda: MidiTempoSignature(midi_time=t, qpm=qpm, resolution=res), f"tempo {qpm}, resolution {res}")
            continue
        s = MidiTempoSignature(midi_time=t, qpm=qpm, resolution=res)
        ctx.eq((s.midi_time, s.qpm, s.resolution), (t, qpm, res), "fields of a tempo")
        ctx.near(s.seconds_per_quarter, 60.0 / qpm, "seconds of a quarter", 1e-9 * max(1, 60.0 / qpm))
        ctx.near(s.seconds_per_tick * res, 60.0 / qpm, "seconds of the ticks of a quarter", 1e-9 * max(1, 60.0 / qpm))
        ctx.near(MidiTempoSignature.tempo_to_qpm(6e7 / qpm), qpm, "quarters per minute of the microseconds per quarter", 1e-6 * qpm)
        b = s.bpm
        s.bpm = b
        ctx.near(s.qpm, qpm, "tempo set to its own beats", 1e-9 * qpm)
        s.qpm = 2 * qpm
        ctx.near(s.bpm, 2 * b, "beats of a minute at twice the tempo", 1e-9 * b)
        ctx.near(s.seconds_per_quarter, 30.0 / qpm, "seconds of a quarter at twice the tempo", 1e-9 * max(1, 60.0 / qpm))
    good = []
    for t, num, den in case["time"]:
        if num <= 0 or den <= 0 or den & (den - 1):
            ctx.raises(WRONG, lambda: MidiTimeSignature(midi_time=t, numerator=num, denominator=den), f"time signature {num}/{den}")
            continue
        s = MidiTimeSignature(midi_time=t, numerator=num, denominator=den)
        ctx.eq((s.midi_time, s.numerator, s.denominator), (t, num, den), "fields of a time signature")
        good.append(s)
    ctx.raises(WRONG, lambda: MidiTimeSignature(numerator=2.5), "two and a half beats")
    for t, key, mode in case["key"]:
        if mode not in (0, 1):
            ctx.raises(WRONG, lambda: MidiKeySignature(midi_time=t, midi_key=key, midi_mode=mode), f"mode {mode}")
            continue
        s = MidiKeySignature(midi_time=t, midi_key=key, midi_mode=mode)
        ctx.eq((s.midi_time, s.midi_key, s.mode), (t, key, [KeySignatureType.MAJOR, KeySignatureType.MINOR][mode]), "fields of a key signature")
    for num, den in ((3, 4), (4, 4)):
        for t in [x[0] for x in case["time"]]:
            after = t + 10.0 ** -case["near"]
            for late, early in ((MidiTimeSignature(midi_time=after, numerator=num, denominator=den), MidiTimeSignature(midi_time=t)),
                                (MidiTempoSignature(midi_time=after, qpm=30.0 * num), MidiTempoSignature(midi_time=t, qpm=90.0)),
                                (MidiKeySignature(midi_time=after, midi_key=num), MidiKeySignature(midi_time=t, midi_key=3))):
                late.seq, early.seq = 0, 1
                ctx.check(early < late and not (late < early), f"{type(late).__name__}s at {t} and {after}, the first made last, are out of order")
    for k, s in enumerate(good):
        s.seq = k
    ctx.eq([(s.midi_time, s.seq) for s in sorted(good)], sorted((s.midi_time, s.seq) for s in good), "order of the time signatures")


def check_cc(case, ctx):
    items = []
    for num, val, t, prog, drum, qs, a, b in case["cc"]:
        def mk(**kw):
            d = dict(cc_number=num, cc_value=val, cc_time=t, program=prog, instrument=prog, is_drum=drum, quantized_step=qs,
                     quantized_start_step=a, quantized_end_step=b)
            return MidiControlChange(**dict(d, **kw))

        def fact(c):
            return (c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, c.is_drum, c.quantized_step, c.quantized_start_step, c.quantized_end_step)
        c = MidiControlChange(num, val)
        ctx.eq(fact(c)[:7], (max(0, num), max(0, val), 0.0, 0, 0, False, 4), "fields of a control change of a number and a value")
        strangers(ctx, c)
        both = mk(quantized_start_step=2, quantized_end_step=6)
        ctx.raises(ValueError, lambda: setattr(both, "quantized_start_step", 6), "start step at the end step")
        ctx.raises(ValueError, lambda: setattr(both, "quantized_end_step", 2), "end step at the start step")
        both.quantized_start_step = 5
        ctx.eq((both.quantized_start_step, both.quantized_end_step), (5, 6), "steps next to each other")
        c = mk()
        want = (max(0, num), max(0, val), max(0.0, t), max(0, prog), max(0, prog), drum, clamp(qs, 1, 32), a, b)
        ctx.eq(fact(c), want, "fields of a control change")
        ctx.eq(c.is_quantized(), a >= 0 and b >= 0, "quantized")
        for d in (c.make_copy(), copy.deepcopy(c)):
            ctx.eq(fact(d), want, "fields of a copy")
            ctx.check(d is not c and d == c and not (d != c), "a copy differs")
        ctx.eq(fact(c.make_copy(cc_time=t + 9, quantized_start_step=3, quantized_end_step=5)), want[:2] + (max(0.0, t + 9),) + want[3:7] + (3, 5), "copy with other values")
        for p, q in ((0, 0), (0, 1), (7, 0), (0, 7)):
            ctx.eq(fact(c.make_copy(quantized_start_step=p, quantized_end_step=q)), want[:7] + (p, q), "copy with the steps given")
        ctx.eq(fact(c.make_copy(cc_time=0.0)), want[:2] + (0.0,) + want[3:], "copy moved to time zero")
        if case["near"] < 7:
            late, early = mk(cc_time=max(0.0, t) + 10.0 ** -case["near"]), mk()
            late.seq, early.seq = 0, 1
            ctx.check(early < late and not (late < early), f"control changes at {early.cc_time} and {late.cc_time}, the first read last, are out of order")
        for k, v in (("cc_number", max(0, num) + 1), ("cc_value", max(0, val) + 1), ("cc_time", max(0.0, t) + 1), ("program", max(0, prog) + 1),
                     ("is_drum", not drum), ("quantized_step", clamp(qs, 1, 32) % 32 + 1), ("quantized_start_step", a + 1), ("quantized_end_step", b + 1)):
            ctx.check(c != mk(**{k: v}) and not (c == mk(**{k: v})), f"control changes that differ in {k} are equal")
        for k in ("quantized_start_step", "quantized_end_step"):
            # one that was not on the grid is on it once it is given a step
            new = MidiControlChange(cc_number=num, cc_value=val, cc_time=t, program=prog, instrument=prog, is_drum=drum)
            ctx.check(not new.is_quantized(), "a new control change is quantized")
            setattr(new, k, 5)
            ctx.eq((getattr(new, k), new.is_quantized()), (5, True), f"{k} and whether it is quantized")
        later = max(0.0, t) + 10.0 ** -case["near"]
        ctx.check(c != mk(cc_time=later) and not (c == mk(cc_time=later)), f"control changes at {t} and {later} are equal")
        for v in case["sets"]:
            if 1 <= v <= 32:
                c.quantized_step = v
                want = want[:6] + (v,) + want[7:]
            else:
                ctx.raises(ValueError, lambda: setattr(c, "quantized_step", v), f"{v} steps")
            if v > want[7] and v >= 0:
                c.quantized_end_step = v
                want = want[:8] + (v,)
            else:
                ctx.raises(ValueError, lambda: setattr(c, "quantized_end_step", v), f"end step {v} after start step {want[7]}")
            if 0 <= v - 2 and (want[8] < 0 or v - 2 < want[8]):
                c.quantized_start_step = v - 2
                want = want[:7] + (v - 2,) + want[8:]
            else:
                ctx.raises(ValueError, lambda: setattr(c, "quantized_start_step", v - 2), f"start step {v - 2} before end step {want[8]}")
            ctx.eq(fact(c), want, f"after steps were set to {v}")
        items.append(c)
    for k, c in enumerate(items):
        c.seq = k
    ctx.eq([(c.cc_time, c.seq) for c in sorted(items)], sorted((c.cc_time, c.seq) for c in items), "order of the control changes")
    for k, c in MidiControlChange.MIDI_CC_NAME_TO_CC.items():
        ctx.eq((c.cc_number, c.cc_min, c.cc_max), (k, 0, 127), f"entry {k} of the table of controllers")


def check_bend(case, ctx):
    made = []
    for amount, t, prog, ins, drum in case["bends"]:
        def mk(**kw):
            return MidiPitchBend(**dict(dict(amount=amount, midi_time=t, program=prog, instrument=ins, is_drum=drum), **kw))
        if not -8191 <= amount <= 8191 or not 0 <= prog <= 127 or not 0 <= ins <= 127 or t < 0:
            ctx.raises(ValueError, mk, f"pitch bend {amount} at {t} of program {prog}, instrument {ins}")
            continue
        b = mk()
        want = (amount, t, prog, ins, drum)
        fact = lambda x: (x.amount, float(x.midi_time), x.program, x.instrument, x.is_drum)
        ctx.eq(fact(b), want, "fields of a pitch bend")
        ctx.eq((float(b.event_start_time), float(b.event_end_time)), (t, t), "times of the event")
        ctx.check(b == mk() and b == copy.deepcopy(b), "equal pitch bends differ")
        later = t + 10.0 ** -case["near"]
        if later != t:
            ctx.check(not (b == mk(midi_time=later)), f"pitch bends at {t} and {later} are equal")
        for k, v in (("amount", amount - 1 if amount > 0 else amount + 1), ("midi_time", t + 1), ("program", (prog + 1) % 128),
                     ("instrument", (ins + 1) % 128), ("is_drum", not drum)):
            ctx.check(not (b == mk(**{k: v})), f"pitch bends that differ in {k} are equal")
        for v in case["times"] + [-(10.0 ** -case["near"]), 0.0, 10.0 ** -case["near"]]:
            if v < 0:
                ctx.raises(ValueError, lambda: setattr(b, "midi_time", v), f"time {v}")
            else:
                b.midi_time = v
                want = (amount, v) + want[2:]
            ctx.eq(fact(b), want, f"after the time was set to {v}")
            ctx.eq((float(b.event_start_time), float(b.event_end_time)), (want[1],) * 2, f"times of the event after the time was set to {v}")
        for v in case["nums"]:
            for pos, k in ((2, "program"), (3, "instrument")):
                if 0 <= v <= 127:
                    setattr(b, k, v)
                    want = want[:pos] + (v,) + want[pos + 1:]
                else:
                    ctx.raises(ValueError, lambda: setattr(b, k, v), f"{k} {v}")
                ctx.eq(fact(b), want, f"after {k} was set to {v}")
        strangers(ctx, b)
        made.append(b)
    for k in ("program", "instrument"):
        for v in (-1, 128):
            ctx.raises(ValueError, lambda: MidiPitchBend(0, **{k: v}), f"{k} {v}")
        for v in (0, 127):
            ctx.eq(getattr(MidiPitchBend(0, **{k: v}), k), v, k)
    plain = MidiPitchBend(5)
    ctx.eq((plain.amount, float(plain.midi_time), plain.program, plain.instrument, plain.is_drum), (5, 0.0, 0, 0, False), "fields of a bend of an amount")


INT7 = st.integers(0, 127)
NEAR = st.integers(0, 9)
T = st.one_of(N.TIME, st.integers(-8, 0).map(lambda k: k / 4))


def tup(*a):
    return st.tuples(*a).map(list)


def instruments(tier):
    num = st.one_of(st.integers(0, 255), st.integers(0, 3), st.integers(-3, 260))
    return st.fixed_dictionaries({"ins": st.lists(tup(num, st.booleans(), st.one_of(st.sampled_from(["", "", "a", "Piano", " ", "  ", "Unknown", " a", "A"]), gen.NAME)), min_size=1, max_size=6)})


def signatures(tier):
    return st.fixed_dictionaries({
        "tempo": st.lists(tup(N.TIME, st.one_of(st.integers(1, 4000).map(lambda k: k / 8), st.integers(1, 400).map(lambda k: k + 2.0 ** -40), st.integers(100000, 9000000).map(lambda us: 6e7 / us), st.integers(-2, 1).map(float)),
                              st.one_of(st.integers(1, 960), st.integers(-2, 1))), max_size=4),
        "time": st.lists(tup(N.TIME, st.one_of(st.integers(1, 64), st.integers(-1, 2)), st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32, 64]), st.integers(-2, 40))), max_size=8),
        "near": st.integers(0, 6),
        "key": st.lists(tup(N.TIME, st.integers(0, 11), st.one_of(st.integers(0, 1), st.integers(-1, 3))), max_size=4)})


def ccs(tier):
    step = st.integers(-1, 20)
    low = st.one_of(INT7, INT7, st.integers(-4, 0))
    return st.fixed_dictionaries({"cc": st.lists(tup(low, low, T, low, st.booleans(), st.integers(-2, 40), step, step), min_size=1, max_size=4), "near": NEAR,
                                  "sets": st.lists(st.integers(-3, 40), max_size=5)})


def bends(tier):
    am = st.one_of(st.integers(-8191, 8191), st.sampled_from([-8193, -8192, -8191, 0, 8191, 8192]))
    num = st.one_of(INT7, INT7, INT7, st.integers(-2, 130))
    return st.fixed_dictionaries({"bends": st.lists(tup(am, st.one_of(N.TIME, N.TIME, T), num, num, st.booleans()), min_size=1, max_size=4), "near": NEAR,
                                  "times": st.lists(T, max_size=3), "nums": st.lists(st.integers(-2, 130), max_size=3)})


SUBS = [
    Sub("instrument", check_instrument, instruments, quick=1000, thorough=6000, nontrivial=lambda c: len(c["ins"]) >= 2, rule="two or more instruments compared"),
    Sub("signatures", check_signatures, signatures, quick=1000, thorough=6000, nontrivial=lambda c: len(c["time"]) >= 2 and bool(c["tempo"]), rule="two time signatures and a tempo"),
    Sub("cc", check_cc, ccs, quick=800, thorough=5000, nontrivial=lambda c: bool(c["sets"]), rule="control changes whose steps are set"),
    Sub("bend", check_bend, bends, quick=1000, thorough=6000, nontrivial=lambda c: bool(c["times"]), rule="pitch bends whose time is set"),
]

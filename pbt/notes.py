"""Notes and note sequences as plain data, shared by the checks of sequences, containers and graphs."""
import numpy as np
from hypothesis import strategies as st

from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from pbt import gen

# times on a grid of sixteenths of a second are exact in binary, so sums and differences of them are exact too
GRID = st.one_of(st.integers(0, 16), st.integers(0, 160)).map(lambda k: k / 16)
# some times lie beside the grid by a few microseconds; all are binary fractions
BESIDE = st.builds(lambda t, j: t + j * 2.0 ** -18, GRID, st.integers(1, 7))
TIME = st.one_of(GRID, GRID, GRID, BESIDE)
DUR = st.one_of(st.integers(1, 8), st.integers(1, 64)).map(lambda k: k / 16)
DUR = st.one_of(DUR, DUR, DUR, st.builds(lambda t, j: t + j * 2.0 ** -18, DUR, st.integers(1, 7)))
FIELDS = ("pitch", "velocity", "start", "end", "program", "instrument", "drum", "num", "den", "qs", "qe", "voice")


def note(pitch=gen.PITCH, vel=gen.VEL, time=TIME, dur=DUR):
    """[pitch, velocity, start, duration]"""
    return st.tuples(pitch, vel, time, dur).map(list)


def whole(t, yes=True):
    """A whole number of seconds as an int, if it is one."""
    return int(t) if yes and t == int(t) else t


def mk(n, instrument=0, drum=False, **kw):
    start, end = whole(n[2], n[0] % 2), whole(n[2] + n[3], n[0] % 2)
    pitch, vel = n[0], n[1]
    if n[0] % 7 == 3:     # numbers as a MIDI package hands them over
        pitch, vel, start, end = np.int64(pitch), np.int64(vel), np.float64(start), np.float64(end)
    return MidiNote(pitch=pitch, velocity=vel, start_time=start, end_time=end, program=instrument,
                    instrument=instrument, is_drum=drum, **kw)


def fact(n):
    """A note object as a tuple of plain data."""
    pitch, vel = (x.item() if isinstance(x, np.generic) else x for x in (n.pitch, n.velocity))
    return (pitch, vel, float(n.start_time), float(n.end_time), n.program, n.instrument, bool(n.is_drum),
            n.numerator, n.denominator, n.quantized_start_step, n.quantized_end_step, n.voice)


def facts(seq):
    return [fact(n) for n in seq.notes]


def info(ins):
    """ins: [number, drum, name]"""
    return MidiInstrumentInfo(ins[0], name=ins[2], is_drum=ins[1])


def sequence(ins, notes, **kw):
    return MidiNoteSequence(notes=[mk(n, ins[0], ins[1]) for n in notes], instrument=info(ins), **kw)


INSTRUMENT = st.tuples(st.one_of(st.sampled_from([0, 1, 40]), st.integers(0, 127)),
                       st.sampled_from([False, False, False, True]), st.sampled_from(["", "Lead", "x"])).map(list)


def many(top=140, low=50, pitch=(0, 127), last=160, unit=16, elem=None):
    """Many notes, some of them chords of more than a few."""
    def vary(n, rnd):
        n[0] = rnd.randint(*pitch)
        if rnd.random() < 0.6:
            n[1] = rnd.randint(1, 127)
            n[2] = rnd.randint(0, last) / unit
        return n
    return gen.many(elem if elem is not None else note(), top, low, vary)

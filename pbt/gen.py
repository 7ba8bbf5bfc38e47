"""Shared strategies."""
import copy
import random

from hypothesis import strategies as st

PITCH = st.one_of(st.integers(0, 127), st.sampled_from([0, 127, 60, 64, 67]), st.integers(58, 66))
VEL = st.one_of(st.integers(1, 127), st.sampled_from([1, 64, 127]))
CHANNEL = st.one_of(st.sampled_from([0, 0, 1, 9]), st.integers(0, 15))
PPQ = st.one_of(st.sampled_from([24, 48, 96, 120, 220, 384, 480, 960]), st.integers(1, 2000))
TEMPO = st.one_of(st.sampled_from([500000, 250000, 1000000, 600000]), st.integers(150000, 3000000),
                  st.integers(1000, 0xFFFFFF), st.integers(499600, 500400))
DELTA = st.one_of(st.just(0), st.integers(0, 8), st.sampled_from([1, 60, 120, 240, 480]), st.integers(0, 3000))
NAME = st.one_of(st.just(""), st.text(st.characters(min_codepoint=32, max_codepoint=255), max_size=12))


def channel_event(channel=CHANNEL, pitch=PITCH):
    return st.one_of(
        st.tuples(st.just("on"), channel, pitch, VEL),
        st.tuples(st.just("on"), channel, pitch, VEL),
        st.tuples(st.just("on"), channel, pitch, VEL),
        st.tuples(st.just("off"), channel, pitch, st.integers(0, 127)),
        st.tuples(st.just("off"), channel, pitch, st.integers(0, 127)),
        st.tuples(st.just("on"), channel, pitch, st.just(0)),
        st.tuples(st.just("cc"), channel, st.one_of(st.integers(0, 127), st.sampled_from([64, 120, 123])), st.integers(0, 127)),
        st.tuples(st.just("pb"), channel, st.one_of(st.integers(-8192, 8191), st.sampled_from([-8192, 0, 8191]))),
        st.tuples(st.just("at"), channel, st.integers(0, 127)),
        st.tuples(st.just("pat"), channel, pitch, st.integers(0, 127)),
    )


def program_event(channel=CHANNEL):
    return st.tuples(st.just("prog"), channel, st.integers(0, 127))


def meta_event():
    return st.one_of(
        st.tuples(st.just("tempo"), TEMPO),
        st.tuples(st.just("ts"), st.integers(1, 32), st.integers(0, 6)),
        st.tuples(st.just("key"), st.integers(-7, 7), st.integers(0, 1)),
        st.tuples(st.just("name"), NAME),
        st.tuples(st.just("text"), NAME),
        st.tuples(st.just("lyric"), NAME),
    )


def as_event(delta, ev):
    return [delta] + list(ev)


@st.composite
def track(draw, first, max_events):
    """A track of a song: program changes fall only where the channel is silent (the reader takes the program at
    the end of a note for the whole note, so a change in the middle of a note is left out of the domain)."""
    kinds = [channel_event()] * 8 + [program_event()]
    if first:
        kinds += [meta_event()] * 2
    else:
        kinds += [st.tuples(st.just("name"), NAME)]
    raw = draw(st.lists(st.tuples(DELTA, st.one_of(*kinds)), max_size=max_events))
    events = [as_event(d, list(e)) for d, e in raw]
    # now and then an event comes twice at one tick
    for k in draw(st.one_of(st.just([]), st.lists(st.integers(0, max_events), max_size=3))):
        if k < len(events):
            events.insert(k + 1, [0] + events[k][1:])
    if draw(st.booleans()):
        events.append([draw(DELTA), "end"])
    return silence_program_changes(events)


def silence_program_changes(events):
    """Close the sounding notes of a channel before each of its program changes (one tick later when they began on it)."""
    out = []
    sounding = {}
    t = 0
    for e in events:
        t += e[0]
        k = e[1]
        delta = e[0]
        if k == "on" and e[4] > 0:
            sounding.setdefault(e[2], {})[e[3]] = t
        elif k in ("off", "on"):
            s = sounding.get(e[2], {})
            if e[3] in s and s[e[3]] != t:
                del s[e[3]]
        elif k == "prog" and sounding.get(e[2]):
            if any(s == t for s in sounding[e[2]].values()):
                delta += 1
                t += 1
            for p in sorted(sounding[e[2]]):
                out.append([delta, "off", e[2], p, 0])
                delta = 0
            sounding[e[2]] = {}
        out.append([delta] + e[1:])
    return out


@st.composite
def song(draw, tier="quick", max_tracks=4, max_events=None):
    if max_events is None:
        max_events = 40 if tier == "quick" else 160
    n = draw(st.integers(1, max_tracks))
    tracks = [draw(track(i == 0, max_events)) for i in range(n)]
    return {"ppq": draw(PPQ), "type": 1 if n > 1 else draw(st.integers(0, 1)), "running": draw(st.booleans()),
            "tracks": tracks}


def history(op, top):
    """Lists of operations: short ones, and ones of some length (Hypothesis alone draws about five elements)."""
    return st.one_of(st.lists(op, max_size=top), st.lists(op, min_size=top // 2, max_size=top))


@st.composite
def long_song(draw, tier="quick", tracks=3, events=True):
    """A song with many of everything: up to some hundred tempos, signatures, notes, chords of many notes and controllers
    per track. Hypothesis draws the amounts and a seed, the rest follows from those."""
    top = 300 if tier == "quick" else 900
    some = lambda: draw(st.one_of(st.sampled_from([0, 1, 20, 50, 70, 130]), st.integers(0, top)))
    rnd = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    n = draw(st.integers(1, tracks))
    wide = draw(st.booleans())
    out = []
    for i in range(n):
        evs = []
        ch = draw(st.integers(0, 15))
        evs.append((0, 0, ["prog", ch, rnd.randrange(128)]))
        now, free = 0, {}
        for k in range(max(some(), 1)):
            now += rnd.choice([0, 0, 0, rnd.randint(0, 300)] if wide or k % 90 else [rnd.randint(1, 300)])
            if wide and k % 120 == 0:
                now += 1000
            p = rnd.randrange(128)
            a = max(now, free.get(p, 0))
            b = a + rnd.randint(2, 900)
            free[p] = b
            evs.append((a, 3, ["on", ch, p, rnd.randint(1, 127)]))
            evs.append((b, 2, ["off", ch, p, rnd.choice([0, 64])]))
        end = max(e[0] for e in evs)
        if events:
            for t in sorted(rnd.randint(0, 2 * end) for _ in range(some())):
                evs.append((t, 1, ["cc", ch, rnd.randrange(128), rnd.randrange(128)]))
            for t in sorted(rnd.randint(0, 2 * end) for _ in range(some())):
                evs.append((t, 1, ["pb", ch, rnd.randint(-8192, 8191)]))
        if i == 0:
            marks = lambda k: sorted(rnd.sample(range(max(end, 2 * k + 1)), k))
            for t in marks(some()):
                evs.append((t, 0, ["tempo", rnd.randint(150000, 1500000)]))
            for t in marks(some()):
                evs.append((t, 0, ["ts", rnd.randint(1, 32), rnd.randint(0, 6)]))
            for t in marks(some()):
                evs.append((t, 0, ["key", rnd.randint(-7, 7), rnd.randint(0, 1)]))
        evs.sort(key=lambda e: (e[0], e[1]))
        tr, last = [], 0
        for t, _, e in evs:
            tr.append([t - last] + e)
            last = t
        out.append(tr)
    return {"ppq": draw(PPQ), "type": 1, "running": draw(st.booleans()), "tracks": out}


def is_long(song):
    """Fifty events of one kind or more on a track."""
    kinds = [[e[1] for e in t] for t in song["tracks"]]
    return any(k.count(x) > 48 for k in kinds for x in ("tempo", "ts", "key", "on", "cc", "pb"))


def many(elem, top=140, low=50, vary=None):
    """A list of some length: a few elements are drawn, the rest are these again, varied by vary(element, random)."""
    def make(pool, seed, n):
        rnd = random.Random(seed)
        out = [copy.deepcopy(rnd.choice(pool)) for _ in range(n)]
        return [vary(x, rnd) for x in out] if vary else out
    return st.builds(make, st.lists(elem, min_size=2, max_size=8), st.integers(0, 2 ** 32 - 1), st.integers(low, top))


def with_many(case, **lists):
    """The cases of a strategy with some of their fields replaced."""
    return st.builds(lambda c, more: dict(c, **more), case, st.fixed_dictionaries(lists))

"""Helpers of the checks that read and write MIDI files."""
import glob
import os
from bisect import bisect_left
from collections import Counter

from pbt import midifmt

REPO = os.environ.get("VERIF_REPO", "/repo")


def distinct_meta(song):
    """At most one tempo, time signature and key signature per tick (later ones of a tick are dropped)."""
    out = dict(song)
    tracks = []
    for tr in song["tracks"]:
        seen = set()
        t = 0
        evs = []
        carry = 0
        for e in tr:
            t += e[0]
            d = e[0] + carry
            carry = 0
            if e[1] in ("tempo", "ts", "key"):
                if (e[1], t) in seen:
                    carry = d
                    continue
                seen.add((e[1], t))
            evs.append([d] + list(e[1:]))
        tracks.append(evs)
    out["tracks"] = tracks
    return out


class Ticks:
    """Maps a time in seconds back to the tick it stands for, among the ticks of a song."""

    def __init__(self, tmap, ticks):
        self.ticks = sorted(set(ticks))
        self.secs = [tmap.seconds(t) for t in self.ticks]

    def of(self, sec, what):
        i = bisect_left(self.secs, sec)
        best = None
        for j in (i - 1, i):
            if 0 <= j < len(self.secs):
                d = abs(self.secs[j] - sec)
                if best is None or d < best[0]:
                    best = (d, self.ticks[j])
        if best is None or best[0] > 1e-9 * max(1.0, abs(sec)) + 1e-9:
            from pbt.core import Violation
            raise Violation(f"{what}: time {sec!r} is not the time of any event of the file (nearest {best})")
        return best[1]


def negligible(tmap, a, b):
    s, e = tmap.seconds(a), tmap.seconds(b)
    return e - s <= 1e-8 * max(abs(s), abs(e))


def corpus(limit=None, max_bytes=None):
    files = sorted(glob.glob(os.path.join(REPO, "neural_graph_composer/dataset/**/*.mid"), recursive=True))
    if max_bytes:
        files = [f for f in files if os.path.getsize(f) <= max_bytes]
    rel = [os.path.relpath(f, REPO) for f in files]
    if limit and len(rel) > limit:
        step = len(rel) / limit
        rel = [rel[int(i * step)] for i in range(limit)]
    return rel


def song_from_file(path):
    """An event list from a file, decoded by mido (the only place where the reader's own decoder is trusted)."""
    import mido
    return song_from_mido(mido.MidiFile(path))


def song_from_mido(m):
    keys = {}
    from mido.midifiles import meta as mm
    for (sf, mi), name in mm._key_signature_decode.items():
        keys[name] = (sf, mi)
    tracks = []
    for tr in m.tracks:
        evs = []
        carry = 0
        for e in tr:
            d = e.time + carry
            carry = 0
            t = e.type
            if t == "note_on":
                evs.append([d, "on", e.channel, e.note, e.velocity])
            elif t == "note_off":
                evs.append([d, "off", e.channel, e.note, e.velocity])
            elif t == "control_change":
                evs.append([d, "cc", e.channel, e.control, e.value])
            elif t == "pitchwheel":
                evs.append([d, "pb", e.channel, e.pitch])
            elif t == "program_change":
                evs.append([d, "prog", e.channel, e.program])
            elif t == "set_tempo":
                evs.append([d, "tempo", e.tempo])
            elif t == "time_signature":
                evs.append([d, "ts", e.numerator, e.denominator.bit_length() - 1])
            elif t == "key_signature":
                sf, mi = keys[e.key]
                evs.append([d, "key", sf, mi])
            elif t == "track_name":
                evs.append([d, "name", e.name])
            elif t == "end_of_track":
                evs.append([d, "end"])
            else:
                carry = d
        tracks.append(evs)
    return {"ppq": m.ticks_per_beat, "type": m.type, "running": False, "tracks": tracks}


def last_change(changes, t, default):
    """value in force at t: the last (time, value) with time <= t."""
    out = default
    for c in changes:
        if c[0] <= t:
            out = c[1]
        else:
            break
    return out


def ambiguous(changes, t, eps=2e-6):
    return any(abs(c[0] - t) <= eps for c in changes)


def note_count(song):
    return sum(1 for tr in song["tracks"] for e in tr if e[1] == "on" and e[4] > 0)


def counter_diff(got, want):
    g, w = Counter(got), Counter(want)
    return f"missing {sorted((w - g).elements())[:6]}, surplus {sorted((g - w).elements())[:6]}"

"""An independent Standard MIDI File encoder and an independent interpreter of event lists.

A song is plain JSON data:
  {"ppq": int, "type": 0|1, "running": bool, "tracks": [[[delta, kind, ...], ...], ...]}
kinds: on ch pitch vel | off ch pitch vel | cc ch num val | pb ch amount | prog ch p | at ch v | pat ch pitch v
       tempo us | ts num dpow | key sf minor | name str | text str | lyric str | end
A track without "end" gets an end of track at the time of its last event.
"""
from collections import defaultdict

import numpy as np


def vlq(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.append((n & 0x7F) | 0x80)
        n >>= 7
    return bytes(reversed(out))


def _meta(kind, data):
    return bytes([0xFF, kind]) + vlq(len(data)) + data


def encode_event(e):
    """bytes of one event and its status byte (None for meta)."""
    k = e[1]
    if k == "on":
        return bytes([e[3], e[4]]), 0x90 | e[2]
    if k == "off":
        return bytes([e[3], e[4]]), 0x80 | e[2]
    if k == "pat":
        return bytes([e[3], e[4]]), 0xA0 | e[2]
    if k == "cc":
        return bytes([e[3], e[4]]), 0xB0 | e[2]
    if k == "prog":
        return bytes([e[3]]), 0xC0 | e[2]
    if k == "at":
        return bytes([e[3]]), 0xD0 | e[2]
    if k == "pb":
        v = e[3] + 8192
        return bytes([v & 0x7F, v >> 7]), 0xE0 | e[2]
    if k == "tempo":
        return _meta(0x51, e[2].to_bytes(3, "big")), None
    if k == "ts":
        return _meta(0x58, bytes([e[2], e[3], 24, 8])), None
    if k == "key":
        return _meta(0x59, bytes([e[2] & 0xFF, e[3]])), None
    if k == "name":
        return _meta(0x03, e[2].encode("latin-1")), None
    if k == "text":
        return _meta(0x01, e[2].encode("latin-1")), None
    if k == "lyric":
        return _meta(0x05, e[2].encode("latin-1")), None
    if k == "end":
        return _meta(0x2F, b""), None
    raise ValueError(k)


def encode(song):
    chunks = []
    for tr in song["tracks"]:
        out = bytearray()
        status = None
        ended = False
        for e in tr:
            body, st = encode_event(e)
            out += vlq(e[0])
            if st is None:
                out += body
                status = None
            else:
                if not (song.get("running") and st == status):
                    out.append(st)
                out += body
                status = st
            ended = e[1] == "end"
        if not ended:
            out += vlq(0) + _meta(0x2F, b"")
        chunks.append(b"MTrk" + len(out).to_bytes(4, "big") + bytes(out))
    head = b"MThd" + (6).to_bytes(4, "big") + song.get("type", 1).to_bytes(2, "big") \
        + len(chunks).to_bytes(2, "big") + song["ppq"].to_bytes(2, "big")
    return head + b"".join(chunks)


# ------------------------------------------------------------------ interpreter
class TempoMap:
    """Piecewise linear map tick -> seconds from the tempo events of the first track."""

    def __init__(self, ppq, tempos):
        self.ppq = ppq
        pts = [(0, 500000)]
        for tick, us in tempos:
            if tick == 0:
                pts = [(0, us)]
            elif pts[-1][0] == tick:
                pts[-1] = (tick, us)
            else:
                pts.append((tick, us))
        merged = [pts[0]]
        for p in pts[1:]:
            if p[1] != merged[-1][1]:
                merged.append(p)
        self.points = merged
        self.start = [0.0]
        for (a, ua), (b, _) in zip(merged, merged[1:]):
            self.start.append(self.start[-1] + (b - a) * ua / 1e6 / ppq)

    def seconds(self, tick):
        i = len(self.points) - 1
        while self.points[i][0] > tick:
            i -= 1
        t, us = self.points[i]
        return self.start[i] + (tick - t) * us / 1e6 / self.ppq

    def changes(self):
        return [(s, 6e7 / us) for s, (_, us) in zip(self.start, self.points)]


KEYS_MAJOR = {-7: 11, -6: 6, -5: 1, -4: 8, -3: 3, -2: 10, -1: 5, 0: 0, 1: 7, 2: 2, 3: 9, 4: 4, 5: 11, 6: 6, 7: 1}


def key_pitch_class(sf, minor):
    """tonic pitch class of a key signature."""
    major = (sf * 7) % 12
    return (major + 9) % 12 if minor else major


def interpret(song):
    """What a song means: tempo map, signatures, and instruments with their notes and controller events."""
    tempos, ts, ks, lyrics = [], [], [], []
    absolute = []
    for tr in song["tracks"]:
        t = 0
        evs = []
        for e in tr:
            t += e[0]
            evs.append([t] + e[1:])
        if not evs or evs[-1][1] != "end":
            evs.append([t, "end"])
        absolute.append(evs)
    for e in absolute[0]:
        if e[1] == "tempo":
            tempos.append((e[0], e[2]))
        elif e[1] == "ts":
            ts.append((e[0], e[2], 2 ** e[3]))
        elif e[1] == "key":
            ks.append((e[0], key_pitch_class(e[2], e[3]), e[3]))
        elif e[1] == "lyric":
            lyrics.append((e[0], e[2]))
    tmap = TempoMap(song["ppq"], tempos)
    instruments = {}        # (program, channel, track) -> dict, in order of their first finished note
    for ti, evs in enumerate(absolute):
        program = [0] * 16
        name = ""
        open_notes = defaultdict(list)      # (channel, pitch) -> [(tick, vel)]
        early = defaultdict(lambda: dict(cc=[], pb=[]))   # controller events of a channel with no instrument yet

        def instrument(ch):
            key = (program[ch], ch, ti)
            if key not in instruments:
                # all events of the channel before its instrument belong to the instrument that appears
                e = early[ch]
                instruments[key] = dict(program=program[ch], channel=ch, track=ti, drum=ch == 9, name=name,
                                        notes=[], cc=e["cc"], pb=e["pb"])
            return instruments[key]

        def finish(ch, pitch, tick, end=False):
            if not open_notes[(ch, pitch)]:
                return
            closing = [n for n in open_notes[(ch, pitch)] if end or n[0] != tick]
            keep = [n for n in open_notes[(ch, pitch)] if not end and n[0] == tick]
            for start, vel in closing:
                instrument(ch)["notes"].append((pitch, vel, start, tick))
            open_notes[(ch, pitch)] = keep

        for e in evs:
            t, k = e[0], e[1]
            if k == "prog":
                program[e[2]] = e[3]
            elif k == "name":
                name = e[2]
            elif k == "on" and e[4] > 0:
                finish(e[2], e[3], t)
                open_notes[(e[2], e[3])].append((t, e[4]))
            elif k == "off" or k == "on":
                finish(e[2], e[3], t)
            elif k == "end":
                for (ch, pitch) in list(open_notes):
                    finish(ch, pitch, t, end=True)
            elif k in ("cc", "pb"):
                key = (program[e[2]], e[2], ti)
                dest = instruments[key] if key in instruments else early[e[2]]
                dest[k].append((t,) + tuple(e[3:]))
    return dict(tmap=tmap, ts=ts, ks=ks, lyrics=lyrics, instruments=list(instruments.values()),
                max_tick=max(evs[-1][0] for evs in absolute))

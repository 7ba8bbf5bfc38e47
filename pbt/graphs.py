"""Reference model of the graph of a note sequence: chords, walk, edges, features."""
from fractions import Fraction as F
import math

import numpy as np


def tolerance(starts, percentile=95):
    """The 95th percentile of the gaps between successive onsets; zero when there are fewer than two gaps."""
    starts = sorted(starts)
    if len(starts) < 3:
        return 0.0
    return float(np.percentile(np.diff(starts), percentile))


def chords(facts, drum=False, single=True, tol=None, precision=2):
    """facts: tuples that begin with pitch, velocity, start and hold the drum flag at 6.
    Lists of (pitch, velocity) in order of time; single: keep chords of one note."""
    if tol is None:
        tol = 0.0 if drum else tolerance([f[2] for f in facts])
    out = {}
    for f in facts:
        if f[6] or not f[1]:
            continue
        key = f[2] if tol == 0 else round(round(f[2] / tol) * tol, precision)
        out.setdefault(key, []).append((f[0], f[1]))
    return {k: out[k] for k in sorted(out) if single or len(out[k]) > 1}


def rescaled(vs, low=32, high=127):
    """Velocities of a chord rescaled to 32..127, or another range."""
    if len(vs) == 1:
        return [round(F(vs[0] * (high - low), 127) + low)]
    lo, hi = min(vs), max(vs)
    if lo == hi:
        return [low] * len(vs)
    return [math.floor(F((v - lo) * (high - low), hi - lo) + low) for v in vs]


def walk(groups, size):
    """[(set of pitches, {pitch: rescaled velocity})]: a chord that is larger than the feature size is split from low to high."""
    out = []
    for notes in groups.values():
        ps = sorted({p for p, _ in notes})
        for i in range(0, len(ps), size):
            part = ps[i:i + size]
            vel = rescaled([max(v for q, v in notes if q == p) for p in part])
            out.append((frozenset(part), dict(zip(part, vel))))
    return out


# two chords of one hash: the hashes of sets of pitches are linear enough for chords of seven notes to meet
SAME_HASH = [8, 9, 20, 24, 44, 65, 66], [68, 72, 85, 87, 95, 109, 110]


def same_hash(chords):
    """Whether two different chords among these have one hash (the known finding hash-collision)."""
    chords = set(chords)
    return len({hash(c) for c in chords}) < len(chords)


class Graph:
    """nodes in order of discovery, edges {(a, b): weight}; adding a walk to a graph that has nodes links its first chord to the last node discovered"""

    def __init__(self):
        self.nodes, self.edges, self.vels = [], {}, {}

    def add(self, steps):
        last = self.nodes[-1] if self.nodes else None
        for chord, vel in steps:
            if chord not in self.vels:
                self.nodes.append(chord)
            self.vels.setdefault(chord, []).append(vel)
            if last is None:
                last = chord
            if (chord, last) in self.edges:
                self.edges[chord, last] += 1
            else:
                self.edges[last, chord] = self.edges.get((last, chord), 0) + 1
            last = chord
        return self


def compare(ctx, g, m, what, exact_nodes=True):
    """g: networkx graph, m: Graph."""
    ids = {hash(c): c for c in m.nodes}
    ctx.eq([ids.get(n, n) for n in g.nodes], m.nodes, f"{what}: nodes in order of discovery")
    got = {(ids[u], ids[v]): d.get("weight") for u, v, d in g.edges(data=True)}
    ctx.eq(got, m.edges, f"{what}: edges and weights")
    ctx.eq(sum(d["weight"] for _, _, d in g.edges(data=True)), sum(m.edges.values()), f"{what}: total weight")
    for n in g.nodes:
        ctx.eq(g.nodes[n]["node_hash"], n, f"{what}: hash of a node")


def features(ctx, x, chord, size, vels, what):
    """x: nested list of one node's features; vels: the rescaled velocities of the chord's occurrences, None without."""
    if vels is None:
        ctx.eq(len(x), size, f"{what}: feature size")
        ctx.eq(sorted(x), sorted([float(p) for p in chord] + [0.0] * (size - len(chord))), f"{what}: features of {set(chord)}")
        return
    ctx.eq([len(r) for r in x], [size, size], f"{what}: feature size")
    n = len(chord)
    ctx.eq(sorted(x[0][:n]), sorted(float(p) for p in chord), f"{what}: pitches of {set(chord)}")
    ctx.check(not any(x[0][n:]) and not any(x[1][n:]), f"{what}: the features of {set(chord)} are not padded with zeros: {x}")
    have = {int(p): v for p, v in zip(x[0][:n], x[1][:n])}
    ctx.check(any(have == {p: float(v) for p, v in vel.items()} for vel in vels),
              f"{what}: velocities of {set(chord)} are {have}, those of its occurrences {vels[:5]}")

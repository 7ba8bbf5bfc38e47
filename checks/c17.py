"""C17: the graph of a sequence: chords as nodes, transitions as weighted edges."""
import os
import random

import networkx as nx
from hypothesis import strategies as st

from pbt import gen
from pbt import graphs as G
from pbt import notes as N
from pbt.core import Sub
from pbt.songs import REPO, corpus
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder as B, NodeAttributeType as A
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C17"
ASSUMPTIONS = ["nodes are identified by the hash of the frozen set of their pitches, as documented",
               "a chord larger than the feature size is split from low to high",
               "the velocities of a node are those of one of the occurrences of its chord"]


def in_turn(*chords):
    return [[p, 64, float(t), 1.0, 0] for t, c in enumerate(chords) for p in c]


WITNESS = {"hash-collision": ("build", {"notes": in_turn(*G.SAME_HASH), "drum": False, "size": 12, "filter": False, "vel": False, "mix": 0, "up": 0, "more": []})}


def model(facts, size, drum=False, single=True, g=None):
    return (g or G.Graph()).add(G.walk(G.chords(facts, drum, single), size))


def compare(ctx, b, g, m, size, vel, what):
    ctx.check(isinstance(g, nx.DiGraph), f"{what}: a {type(g).__name__}")
    G.compare(ctx, g, m, what)
    for c in m.nodes:
        node = g.nodes[hash(c)]
        G.features(ctx, node["attr"].tolist(), c, size, m.vels[c] if vel else None, what)
        ctx.eq(b.hash_to_notes[hash(c)], c, f"{what}: pitches of a node")
        ctx.eq(b.notes_to_hash[c], hash(c), f"{what}: node of {set(c)}")


def plain(g):
    return [(n, g.nodes[n]["attr"].tolist()) for n in g.nodes], [(u, v, d["weight"]) for u, v, d in g.edges(data=True)]


def check_seq(ctx, seq, size, single, vel, what):
    facts, drum = N.facts(seq), seq.instrument.is_drum
    b = B()
    g = b.build_sequence(seq, feature_vec_size=size, filter_single_notes=not single, is_include_velocity=vel)
    m = model(facts, size, drum, single)
    compare(ctx, b, g, m, size, vel, what)
    ctx.eq(set(b.hash_to_notes), {hash(c) for c in m.nodes}, f"{what}: known chords")
    ctx.eq(N.facts(seq), facts, f"{what}: the sequence after its graph was built")
    return b, g, m


def check_build(case, ctx):
    seq = N.sequence([0, case["drum"], ""], [])
    seq.notes = [N.mk(n, 0, case["drum"] or bool(n[4])) for n in case["notes"]]
    size, single, vel = case["size"], not case["filter"], case["vel"]
    if G.same_hash(model(N.facts(seq), size, case["drum"], single).nodes) and ctx.known("hash-collision"):
        return
    b, g, m = check_seq(ctx, seq, size, single, vel, "graph")
    ctx.label(f"{min(len(m.nodes), 10)} nodes")
    # the order of the notes in the list is of no importance
    mixed = N.sequence([0, case["drum"], ""], [])
    mixed.notes = list(seq.notes)
    random.Random(case["mix"]).shuffle(mixed.notes)
    again = B().build_sequence(mixed, feature_vec_size=size, filter_single_notes=not single, is_include_velocity=vel)
    ctx.eq(plain(again), plain(g), "graph of the same notes in another order")
    # a transposed piece has the transposed graph
    room = 127 - max([n.pitch for n in seq.notes], default=0)
    up = min(case["up"], room)
    high = N.sequence([0, case["drum"], ""], [])
    high.notes = [N.mk([n[0] + up] + n[1:4], 0, case["drum"] or bool(n[4])) for n in case["notes"]]
    moved = B().build_sequence(high, feature_vec_size=size, filter_single_notes=not single, is_include_velocity=vel)
    ids = {hash(c): hash(frozenset(p + up for p in c)) for c in m.nodes}
    ctx.eq(list(moved.nodes), [ids[n] for n in g.nodes], f"nodes of the piece {up} semitones higher")
    ctx.eq([(u, v, d["weight"]) for u, v, d in moved.edges(data=True)], [(ids[u], ids[v], d["weight"]) for u, v, d in g.edges(data=True)],
           f"edges of the piece {up} semitones higher")
    # a second sequence goes on from the chord that was found last
    more = N.sequence([1, False, ""], case["more"])
    grown = b.build_sequence(more, feature_vec_size=size, filter_single_notes=not single, is_include_velocity=vel, g=g)
    ctx.check(grown is g, "a graph that was given is not the one that comes back")
    model(N.facts(more), size, False, single, m)
    compare(ctx, b, grown, m, size, vel, "graph of two sequences")
    ctx.check(len(g) == 0 or nx.is_weakly_connected(g), "the graph is in pieces")


def check_one_hot(case, ctx):
    seq = N.sequence([0, False, ""], case["notes"])
    g = B().build_sequence(seq, node_attr_type=A.OneHotTensor, feature_vec_size=case["size"])
    m = model(N.facts(seq), case["size"])
    G.compare(ctx, g, m, "one hot")
    for c in m.nodes:
        x = g.nodes[hash(c)]["attr"]
        ctx.eq(x.shape[0], len(c), "rows of a one hot node")
        ctx.eq(sorted((r.argmax().item(), r.sum().item()) for r in x), sorted((p, 1) for p in c), f"one hot rows of {set(c)}")


def check_bad(case, ctx):
    seq = N.sequence([0, False, ""], case["notes"])
    b = B()
    for kw in (dict(feature_vec_size=0), dict(feature_vec_size=129), dict(feature_vec_size=2.5), dict(velocity_num_buckets=0), dict(node_attr_type="Tensor"),
               dict(filter_single_notes="no"), dict(tolerance=-0.1), dict(tolerance=1.5), dict(tolerance=1), dict(is_include_velocity="yes")):
        ctx.raises(ValueError, lambda: b.build_sequence(seq, **kw), f"build_sequence({kw})")
    ctx.raises(TypeError, lambda: b.build_sequence(case["notes"]), "build_sequence of a list")
    for kw in (dict(tolerance=-1), dict(feature_size=0), dict(feature_size=128), dict(feature_size=1.5)):
        ctx.raises(ValueError, lambda: B(**kw), f"a builder with {kw}")
    ctx.raises(TypeError, lambda: B(midi_data=case["notes"]), "a builder of a list")
    ctx.eq(len(b.hash_to_notes), 0, "chords known after refused calls")
    ctx.eq((B(feature_size=case["size"]).feature_size, B(feature_size=None).feature_size), (case["size"], 12), "feature size")
    for make in (lambda: B.from_midi_sequence(seq, feature_size=case["size"], is_include_velocity=case["vel"]),):
        if not case["notes"]:
            ctx.raises(ValueError, make, "a builder of an empty sequence")
        else:
            x = make()
            ctx.eq((x.feature_size, x.is_include_velocity, x.pre_instrument), (case["size"], case["vel"], True), "builder of a sequence")
            ctx.eq([N.facts(x.midi_sequences[k]) for k in x.midi_sequences], [N.facts(seq)], "notes of the builder")


def check_corpus(case, ctx):
    piece = MidiReader.read(os.path.join(REPO, case["path"]))
    for s in piece:
        check_seq(ctx, piece[s], case["size"], not case["filter"], case["vel"], f"track {s} of {case['path']}")


SMALL = st.integers(60, 66)
WIDE = st.one_of(gen.PITCH, st.sampled_from([0, 1, 33, 65, 97, 127, 32, 64, 96]))


def dims(pitch):
    time = st.one_of(st.integers(0, 12).map(lambda k: k / 2), st.integers(0, 12).map(lambda k: k / 2), st.integers(0, 160).map(lambda k: k / 16),
                     st.tuples(st.integers(0, 8), st.integers(0, 8)).map(lambda x: x[0] / 2 + x[1] / 512))
    return st.tuples(pitch, st.one_of(st.integers(1, 127), st.integers(1, 127), st.integers(1, 127), st.just(0)), time, st.integers(1, 16).map(lambda k: k / 8),
                     st.sampled_from([0] * 15 + [1])).map(list)


SIZE = st.one_of(st.just(12), st.sampled_from([1, 2, 3, 12, 127, 128]))


def builds(tier):
    top = 30 if tier == "quick" else 150
    notes = st.one_of(*[st.one_of(st.lists(dims(p), max_size=8), st.lists(dims(p), min_size=4, max_size=top)) for p in (SMALL, SMALL, st.integers(60, 61), WIDE)],
                      st.lists(st.tuples(WIDE, st.integers(1, 127), st.sampled_from([0.0, 0.0, 4.0]), st.just(1.0), st.just(0)).map(list), min_size=10, max_size=40))
    return st.fixed_dictionaries({"notes": notes, "drum": st.sampled_from([False] * 9 + [True]), "size": SIZE, "filter": st.sampled_from([False, False, False, True]),
                                  "vel": st.booleans(), "mix": st.integers(0, 99), "up": st.integers(0, 24), "more": st.lists(N.note(pitch=SMALL), max_size=6)})


def one_hots(tier):
    return st.fixed_dictionaries({"notes": st.lists(N.note(pitch=st.one_of(WIDE, SMALL), vel=st.integers(1, 127)), max_size=12), "size": SIZE})


def bads(tier):
    return st.fixed_dictionaries({"notes": st.lists(N.note(), max_size=4), "size": st.integers(1, 127), "vel": st.booleans()})


def files(tier):
    fs = corpus(12, 40_000) if tier == "quick" else corpus()
    return [{"path": p, "size": (12, 12, 4, 2)[i % 4], "filter": i % 5 == 4, "vel": i % 3 == 0} for i, p in enumerate(fs)]


MANY = gen.many(dims(WIDE), 200, 50, lambda n, rnd: [rnd.randint(0, 127), rnd.randint(1, 127), n[2] if rnd.random() < 0.5 else rnd.randint(0, 64) / 4] + n[3:])
SUBS = [
    Sub("long", check_build, lambda tier: gen.with_many(builds(tier), notes=MANY), quick=20, thorough=500, shards=2, nontrivial=lambda c: len(c["notes"]) >= 50, rule="fifty notes or more"),
    Sub("build", check_build, builds, quick=600, thorough=20000, shards=6,
        nontrivial=lambda c: len(G.walk(G.chords([tuple(n[:3]) + (0, 0, 0, bool(n[4])) for n in c["notes"]]), c["size"])) >= 3,
        rule="a walk of three or more chords"),
    Sub("one_hot", check_one_hot, one_hots, quick=150, thorough=3000, nontrivial=lambda c: len(c["notes"]) >= 2, rule="two or more notes"),
    Sub("bad", check_bad, bads, quick=60, thorough=500, nontrivial=lambda c: bool(c["notes"]), rule="a sequence with notes"),
    Sub("corpus", check_corpus, cases=files, rule="a real file", nontrivial=lambda c: True),
]

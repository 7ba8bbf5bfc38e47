"""C18: the graphs of a piece, per instrument or merged, and the chord numbers across builds."""
import os
import random

import networkx as nx
import torch
from hypothesis import strategies as st

from pbt import gen
from pbt import graphs as G
from pbt import notes as N
from pbt.core import Sub
from pbt.songs import REPO, corpus
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder as B, NodeAttributeType as A
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C18"
ASSUMPTIONS = ["the graphs of one build come in order of the track numbers",
               "tracks of a single note and drum tracks have no graph, as the builder documents and does"]
WITNESS = {"one-hot-sizes": ("history", {"ops": [["build", [[[0, False, "a"], [[60, 64, 0.0, 1.0], [62, 64, 1.0, 1.0], [64, 64, 1.0, 1.0]]]],
                                                  {"size": 12, "vel": False, "per": True, "filter": False, "hot": True}]]}),
           "hash-collision": ("history", {"ops": [["build", [[[0, False, "a"], [[p, 64, float(t), 1.0] for t, c in enumerate(G.SAME_HASH) for p in c]]],
                                                   {"size": 12, "vel": False, "per": True, "filter": False, "hot": False}]]})}


def piece_of(tracks):
    seqs = {}
    for ins, notes in tracks:
        seqs[ins[0]] = N.sequence(ins, notes)
    return MidiNoteSequences(midi_seq=list(seqs.values())) if seqs else MidiNoteSequences()


def expected(piece, opt, known):
    """The graphs of a build; known: chords in order of discovery over all builds, extended."""
    out, big = [], None
    for s in piece:
        seq = piece[s]
        if seq.instrument.is_drum or len(seq.notes) == 1:
            continue
        steps = G.walk(G.chords(N.facts(seq), single=not opt["filter"]), opt["size"])
        for c, _ in steps:
            if c not in known:
                known[c] = len(known) + 1
        if not steps:
            continue
        if opt["per"]:
            out.append(G.Graph().add(steps))
        elif big is None:
            big = G.Graph().add(steps)
            out.append(big)
        else:
            big.add(steps)
    return out


def compare_data(ctx, d, m, opt, what):
    n = len(m.nodes)
    at = {c: i for i, c in enumerate(m.nodes)}
    ctx.eq(list(d.node_hash), [hash(c) for c in m.nodes], f"{what}: hashes of the nodes")
    ctx.eq(d.num_nodes, n, f"{what}: number of nodes")
    ctx.eq(d.x.shape[0], n, f"{what}: rows of x")
    if not opt["hot"]:
        for row, c in zip(d.x.tolist(), m.nodes):
            G.features(ctx, row, c, opt["size"], m.vels[c] if opt["vel"] else None, what)
    else:
        for row, c in zip(d.x, m.nodes):
            ctx.eq(sorted(r.argmax().item() for r in row), sorted(c), f"{what}: one hot rows of {set(c)}")
    ctx.eq((d.edge_index.dtype, tuple(d.edge_index.shape), tuple(d.edge_attr.shape)), (torch.long, (2, len(m.edges)), (len(m.edges), 1)), f"{what}: edges")
    got = {(u, v): w for u, v, w in zip(*d.edge_index.tolist(), d.edge_attr[:, 0].tolist())}
    ctx.eq(got, {(at[a], at[b]): float(w) for (a, b), w in m.edges.items()}, f"{what}: edges and weights of the data")


def compare_maps(ctx, b, known, what):
    ctx.eq(b.hash_to_index, {hash(c): i for c, i in known.items()}, f"{what}: numbers of the chords")
    ctx.eq(b.index_to_hash, {i: hash(c) for c, i in known.items()}, f"{what}: chords of the numbers")
    ctx.eq(b.hash_to_notes, {hash(c): c for c in known}, f"{what}: pitches of the chords")
    ctx.eq(b.notes_to_hash, {c: hash(c) for c in known}, f"{what}: chords of the pitches")
    for view in (b.hash_to_index, b.index_to_hash, b.hash_to_notes, b.notes_to_hash):
        view.clear()
    ctx.eq(len(b.hash_to_index), len(known), f"{what}: chords after a copy of the map was cleared")


def build(ctx, b, piece, opt, known, pending, what, given=True):
    before = {s: N.facts(piece[s]) for s in piece}
    want = expected(piece, opt, known)
    kw = dict(feature_vec_size=opt["size"], is_include_velocity=opt["vel"], is_per_instrument=opt["per"], filter_single_notes=opt["filter"])
    if opt["hot"]:
        kw["node_attr_type"] = A.OneHotTensor
    ctx.eq(b.build(piece, **kw) if given else b.build(**kw), None, f"{what}: result")
    pending += [(m, opt) for m in want]
    ctx.eq({s: N.facts(piece[s]) for s in piece}, before, f"{what}: the piece after it was built")


def look(ctx, b, known, pending, what):
    ctx.eq((len(b.pyg_data), len(b.sub_graphs)), (len(pending), len(pending)), f"{what}: number of graphs")
    for i, (m, opt) in enumerate(pending):
        G.compare(ctx, b.sub_graphs[i], m, f"{what}, graph {i}")
        ctx.check(nx.is_weakly_connected(b.sub_graphs[i]), f"{what}: graph {i} is in pieces")
        compare_data(ctx, b.pyg_data[i], m, opt, f"{what}, graph {i}")
    compare_maps(ctx, b, known, what)


def emit(ctx, b, known, pending, how, what):
    if not known:
        ctx.raises(ValueError, lambda: list(b.graphs()), f"{what}: graphs of a builder that has built none")
        return
    gen_ = {"plain": lambda: b.graphs(), "skip": lambda: b.graphs(skip_label=True), "sane": lambda: b.graphs(is_sanity_check=True),
            "iter": lambda: iter(b), "part": lambda: b.graphs()}[how]()
    for i, (m, opt) in enumerate(pending):
        d = next(gen_)
        compare_data(ctx, d, m, opt, f"{what}, emitted graph {i}")
        numbers = [known[c] for c in m.nodes]
        ctx.eq((d.y.tolist(), d.y.dtype), (numbers, torch.long), f"{what}: y of graph {i}")
        ctx.eq(getattr(d, "label", None), None if how == "skip" else numbers, f"{what}: label of graph {i}")
        if how == "part":
            gen_.close()
            look(ctx, b, known, pending, f"{what}: after a look at the first graph")
            return
    ctx.eq(list(gen_), [], f"{what}: more graphs than were built")
    pending.clear()
    look(ctx, b, known, pending, f"{what}: after all graphs were emitted")


def check_history(case, ctx):
    own = piece_of(case["own"]) if case.get("own") is not None else None
    b = B(own) if own is not None else B()
    known, pending = {}, []
    for step, op in enumerate(case["ops"]):
        what = f"step {step} {op[0]}"
        if op[0] == "build":
            if op[1] is None and own is None:
                continue
            # the builder's own piece is built when none is given, and may be given as well
            piece, opt, given = own if op[1] is None else piece_of(op[1]), op[2], op[1] is not None or step % 2 == 0
            if G.same_hash(list(known) + [c for m in expected(piece, opt, dict(known)) for c in m.nodes]) and ctx.known("hash-collision"):
                return
            if opt["hot"]:
                opt = dict(opt, vel=False)
                want = expected(piece, opt, dict(known))
                if any(len({len(c) for c in m.nodes}) > 1 for m in want) and ctx.known("one-hot-sizes"):
                    continue
            build(ctx, b, piece, opt, known, pending, what, given)
        elif op[0] == "emit":
            emit(ctx, b, known, pending, op[1], what)
        elif op[0] == "bad":
            p = piece_of([[[0, False, ""], [[60, 64, 0.0, 1.0], [61, 64, 1.0, 1.0]]]])
            if own is None:
                ctx.raises(ValueError, lambda: b.build(), f"{what}: nothing to build")
            for kw in (dict(default_trim_time=1.5), dict(feature_vec_size="12"), dict(velocity_num_buckets=2.5)):
                ctx.raises(TypeError, lambda: b.build(p, **kw), f"{what}: {kw}")
            ctx.raises(ValueError, lambda: b.build(p, tolerance=-0.5), f"{what}: a negative tolerance")
        look(ctx, b, known, pending, what)


def check_given(case, ctx):
    """The piece given to the constructor is what build() builds."""
    piece = piece_of(case["tracks"])
    opt = dict(case["opt"], hot=False)
    kw = dict(feature_vec_size=opt["size"], is_include_velocity=opt["vel"], is_per_instrument=opt["per"], filter_single_notes=opt["filter"])
    makers = [lambda: B(piece), lambda: B.from_midi_sequences(piece)]
    if len(piece) == 1 and len(piece[list(piece)[0]].notes):
        makers += [lambda: B(piece[list(piece)[0]]), lambda: B.from_midi_sequence(piece[list(piece)[0]])]
    for i, make in enumerate(makers):
        b, known = make(), {}
        b.build(**kw)
        want = expected(piece, opt, known)
        look(ctx, b, known, [(m, opt) for m in want], f"builder {i}")


def check_corpus(case, ctx):
    """Real files one after another through one builder, as the data set does."""
    b, known, pending = B(), {}, []
    opt = dict(case["opt"], hot=False)
    for path in case["paths"]:
        build(ctx, b, MidiReader.read(os.path.join(REPO, path)), opt, known, pending, path)
    look(ctx, b, known, pending, "real files")
    emit(ctx, b, known, pending, "sane", "real files")
    f = B.from_file(os.path.join(REPO, case["paths"][0]), is_include_velocity=opt["vel"], feature_size=opt["size"])
    ctx.eq((f.is_include_velocity, f.pre_instrument, f.feature_size), (opt["vel"], True, opt["size"]), "builder of a file")
    f.build(feature_vec_size=opt["size"], is_include_velocity=opt["vel"])
    known = {}
    want = expected(MidiReader.read(os.path.join(REPO, case["paths"][0])), dict(opt, per=True, filter=False), known)
    look(ctx, f, known, [(m, dict(opt, per=True)) for m in want], "builder of a file")


OPT = st.fixed_dictionaries({"size": st.one_of(st.just(12), st.sampled_from([1, 2, 3, 12])), "vel": st.booleans(), "per": st.booleans(),
                             "filter": st.sampled_from([False, False, False, True]), "hot": st.sampled_from([False] * 7 + [True])})
P = st.one_of(st.integers(60, 64), st.integers(60, 64), st.integers(60, 61), gen.PITCH)
T = st.one_of(st.integers(0, 8).map(lambda k: k / 2), st.integers(0, 80).map(lambda k: k / 16))
NOTES = st.one_of(st.lists(N.note(pitch=P, time=T), max_size=3), st.lists(N.note(pitch=P, time=T), min_size=2, max_size=12))
TRACKS = st.lists(st.tuples(st.tuples(st.one_of(st.integers(0, 4), st.integers(0, 4), st.sampled_from([126, 127, 0, 1]), st.integers(0, 127)), st.sampled_from([False] * 5 + [True]), st.just("t")).map(list), NOTES).map(list), max_size=4)


def history(tier):
    op = st.one_of(st.tuples(st.just("build"), TRACKS, OPT), st.tuples(st.just("build"), st.none(), OPT), st.tuples(st.just("build"), TRACKS, OPT),
                   st.tuples(st.just("emit"), st.sampled_from(["plain", "plain", "skip", "sane", "iter", "part"])), st.tuples(st.just("bad")))
    return st.fixed_dictionaries({"own": st.one_of(st.none(), TRACKS, TRACKS), "ops": gen.history(op.map(list), 6 if tier == "quick" else 16)})


def given_(tier):
    return st.fixed_dictionaries({"tracks": TRACKS, "opt": OPT})


def files(tier):
    fs = corpus(14, 30_000) if tier == "quick" else corpus()
    out = []
    for i in range(0, len(fs), 7):
        out.append({"paths": fs[i:i + 7], "opt": {"size": 12 if i % 2 == 0 else 4, "vel": bool(i // 7 % 2), "per": i // 7 % 3 != 1, "filter": False}})
    return out


def many_tracks(tier):
    """Pieces of as many tracks as there are programs, and builders that see many pieces."""
    note = N.note(pitch=P, time=T)

    def make(notes, drums, n, opt, seed):
        rnd = random.Random(seed)
        return {"tracks": [[[i, i in drums, "t"], [rnd.choice(notes) for _ in range(rnd.randint(0, 3))]] for i in rnd.sample(range(128), n)], "opt": opt}

    return st.builds(make, st.lists(note, min_size=3, max_size=8), st.sets(st.integers(0, 127), max_size=9), st.integers(50, 128), OPT, st.integers(0, 2 ** 32 - 1))


def many_builds(tier):
    build = st.tuples(st.just("build"), TRACKS.map(lambda t: t[:2]), OPT).map(list)
    return st.builds(lambda ops, how: {"own": None, "ops": ops + [["emit", how]]}, gen.many(build, 70, 50), st.sampled_from(["plain", "skip", "sane", "iter", "part"]))


SUBS = [
    Sub("many_tracks", check_given, many_tracks, quick=8, thorough=200, nontrivial=lambda c: len(c["tracks"]) >= 50, rule="fifty tracks or more"),
    Sub("many_builds", check_history, many_builds, quick=4, thorough=60, nontrivial=lambda c: len(c["ops"]) >= 50, rule="fifty pieces or more through one builder"),
    Sub("long", check_given, lambda tier: gen.with_many(given_(tier), tracks=st.lists(st.tuples(st.tuples(st.integers(0, 127), st.booleans(), st.just("t")).map(list), N.many()).map(list), min_size=1, max_size=3)),
        quick=15, thorough=300, shards=2, nontrivial=lambda c: len(c["tracks"]) >= 2, rule="two or more tracks of fifty notes or more"),
    Sub("history", check_history, history, quick=350, thorough=10000, shards=6, nontrivial=lambda c: sum(o[0] == "build" and len(o[1] or []) >= 2 for o in c["ops"]) >= 2,
        rule="two or more pieces of several tracks through one builder"),
    Sub("given", check_given, given_, quick=150, thorough=3000, nontrivial=lambda c: len(c["tracks"]) >= 2, rule="a piece of several tracks"),
    Sub("corpus", check_corpus, cases=files, rule="real files", nontrivial=lambda c: True),
]

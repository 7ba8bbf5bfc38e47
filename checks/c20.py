"""C20: data sets made of MIDI files."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

import torch
from hypothesis import strategies as st

from checks import c18
from pbt import gen
from pbt import midifmt
from pbt.core import Sub
from pbt.songs import REPO, corpus
from neural_graph_composer.midi_dataset import MidiDataset, NodeHashIndexMapper
from neural_graph_composer.midi_reader import MidiReader

PROPERTY = "C20"
ASSUMPTIONS = ["files of one data set have different base names, and a directory is used for one list of files, filter and split",
               "at least one graph is left in the data set"]
MASKS = ("train_mask", "val_mask", "test_mask")


def song_bytes(tracks):
    """tracks: [[channel, program, [[start, length, pitch, velocity]]]]; 4 ticks of 120 per unit."""
    out = [[[0, "tempo", 500000]]]
    for channel, program, notes in tracks:
        ev = [(0, 0, ["prog", channel, program])]
        for s, d, p, v in notes:
            ev += [(s * 60, 2, ["on", channel, p, v]), ((s + d) * 60, 1, ["off", channel, p, 0])]
        t, tr = 0, []
        for at, _, e in sorted(ev, key=lambda e: e[:2]):
            tr.append([at - t] + e)
            t = at
        out.append(tr)
    return midifmt.encode({"ppq": 120, "type": 1, "running": False, "tracks": out})


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


class AtLeast:
    def __init__(self, k):
        self.k, self.seen = k, []

    def __call__(self, data):
        self.seen.append((data.num_nodes, any(m in data for m in MASKS)))
        return data.num_nodes >= self.k

    def __repr__(self):
        return f"AtLeast({self.k})"


class Mark:
    def __init__(self):
        self.seen = []

    def __call__(self, data):
        data.mark = torch.tensor([data.num_nodes])
        self.seen.append([m in data for m in MASKS])
        return data

    def __repr__(self):
        return "Mark()"


class Twice:
    def __call__(self, data):
        data.x = data.x * 2
        data.twice = True
        return data


def compare(ctx, ds, graphs, known, opt, what):
    ctx.eq(len(ds), len(graphs), f"{what}: number of graphs")
    o = {"size": opt["size"], "vel": opt["vel"], "hot": False}
    for turn in range(2):
        for i, m in enumerate(graphs):
            d = ds[i]
            w = f"{what}, graph {i}" + (", looked at again" if turn else "")
            if opt["transform"]:
                ctx.eq(d.twice, True, f"{w}: transformed")
                d.x = d.x / 2
            else:
                ctx.check("twice" not in d, f"{w}: transformed though no transform is set")
            c18.compare_data(ctx, d, m, o, w)
            n = len(m.nodes)
            ctx.eq((d.y.tolist(), d.y.dtype), ([known[c] for c in m.nodes], torch.long), f"{w}: y")
            if opt["per"]:
                ctx.eq("label" in d, not opt["remove_label"], f"{w}: label present")
            if "label" in d:
                ctx.eq(list(d.label), d.y.tolist(), f"{w}: label")
            ctx.eq([k in d for k in MASKS], [opt["mask"]] * 3, f"{w}: masks present")
            if opt["mask"]:
                sizes = [int(opt["ratio"][0] * n), int(opt["ratio"][1] * n)]
                sizes.append(n - sum(sizes))
                for k, size in zip(MASKS, sizes):
                    ctx.eq((d[k].dtype, tuple(d[k].shape), int(d[k].sum())), (torch.bool, (n,), size), f"{w}: {k} of {n} nodes at {opt['ratio']}")
                total = sum(d[k].int() for k in MASKS)
                ctx.eq(total.tolist(), [1] * n, f"{w}: number of masks of each node")
            ctx.eq(ds.get_graph_id(), i, f"{w}: id")
            if opt["mark"]:
                ctx.eq(d.mark.tolist(), [n], f"{w}: what pre_transform put there")
            ctx.eq([ds.index_to_hash[y] for y in d.y.tolist()], list(d.node_hash), f"{w}: nodes of y")
    ctx.eq(len(list(ds)), len(graphs), f"{what}: graphs of an iteration")
    ctx.eq(ds.num_classes, max(known[c] for m in graphs for c in m.nodes) + 1, f"{what}: classes")
    ctx.eq(ds.total_num_classes, len(known), f"{what}: chords of the data set")
    if not opt["transform"]:
        ctx.eq(quiet(ds.compute_statistics), {"num_nodes": sum(len(m.nodes) for m in graphs), "num_edges": sum(len(m.edges) for m in graphs),
                                              "num_labels": sum(len(m.nodes) for m in graphs)}, f"{what}: statistics")
    c18.compare_maps(ctx, ds, known, what)


def model(paths, opt):
    known, graphs = {}, []
    for p in paths:
        graphs += c18.expected(MidiReader.read(p), {"size": opt["size"], "vel": opt["vel"], "per": opt["per"], "filter": opt["filter"]}, known)
    kept = [m for m in graphs if opt["at_least"] is None or len(m.nodes) >= opt["at_least"]]
    return graphs, kept, known


DEFAULTS = dict(transform=None, pre_transform=None, pre_filter=None, train_ratio=0.7, val_ratio=0.15, per_instrument_graph=True, feature_vec_size=12, velocity_num_buckets=8,
                tolerance=0.2, filter_single_notes=False, include_velocity=False, do_split_mask=True, remove_label=True, do_sanity_check=False)


def make(ctx, d, given, loc, opt):
    """-> data set, pre_filter, pre_transform"""
    keep = AtLeast(opt["at_least"]) if opt["at_least"] is not None else None
    mark = Mark() if opt["mark"] else None
    files = None if given is None else list(given)
    kw = dict(root=os.path.join(d, "set"), midi_files=files, default_midi_loc=loc, per_instrument_graph=opt["per"],
              feature_vec_size=opt["size"], include_velocity=opt["vel"], filter_single_notes=opt["filter"],
              train_ratio=opt["ratio"][0], val_ratio=opt["ratio"][1], do_split_mask=opt["mask"], remove_label=opt["remove_label"],
              do_sanity_check=opt["sane"], pre_filter=keep, pre_transform=mark, transform=Twice() if opt["transform"] else None)
    kw.update({k: opt[k] for k in ("velocity_num_buckets", "tolerance") if k in opt})
    if opt.get("omit"):
        # what is not said is as documented
        kw = {k: v for k, v in kw.items() if k in ("root", "midi_files", "default_midi_loc") or v is not DEFAULTS[k] and v != DEFAULTS[k]}
        if list(opt["ratio"]) == [0.7, 0.15]:
            ctx.label("default ratios")
    ds = quiet(lambda: MidiDataset(**kw))
    ctx.eq(files, given, "the caller's list of files")
    return ds, keep, mark


def used(opt, per, *more):
    return dict(opt, per=per)


def check_one(ctx, d, paths, given, loc, opt, what):
    both = {per: model(paths, used(opt, per)) for per in (True, False)}
    if any(not kept for _, kept, _ in both.values()):
        ctx.label("no graph is left")
        return False
    graphs, kept, known = both[opt["per"]]
    state = torch.random.get_rng_state()
    ds, keep, mark = make(ctx, d, given, loc, opt)
    compare(ctx, ds, kept, known, opt, what)
    if keep is not None and keep.seen:
        ctx.eq(sorted(n for n, _ in keep.seen), sorted(len(m.nodes) for g, _, _ in both.values() for m in g), f"{what}: graphs shown to pre_filter")
    if mark is not None and mark.seen:
        ctx.eq(mark.seen, [[opt["mask"]] * 3] * sum(len(k) for _, k, _ in both.values()), f"{what}: masks of the graphs shown to pre_transform")
    first = [ds[i] for i in range(len(ds))]
    # a second data set of the same directory reads what the first one wrote
    again, keep, mark = make(ctx, d, given, loc, opt)
    compare(ctx, again, kept, known, opt, f"{what}, read again")
    ctx.eq([len(f.seen) for f in (keep, mark) if f is not None], [0] * ((keep is not None) + (mark is not None)), f"{what}, read again: graphs that were filtered again")
    for i, a in enumerate(first):
        b = again[i]
        ctx.eq(sorted(a.keys()), sorted(b.keys()), f"{what}, read again: attributes of graph {i}")
        for k in MASKS:
            if k in a:
                ctx.eq(b[k].tolist(), a[k].tolist(), f"{what}, read again: {k} of graph {i}")
    # the other view of the pieces was written at the same time
    other = dict(opt, per=not opt["per"])
    ds, _, _ = make(ctx, d, given, loc, other)
    compare(ctx, ds, both[other["per"]][1], both[other["per"]][2], other, f"{what}, other view")
    torch.random.set_rng_state(state)
    return True


def check_build(case, ctx):
    opt = case["opt"]
    names = case.get("names", NAMES[0]) + [f"n{i}" for i in range(len(case["files"]))]
    d = tempfile.mkdtemp(prefix="c20")
    here = os.getcwd()
    try:
        loc = os.path.join(d, "set", "raw") if case["where"] == "raw" else os.path.join(d, "in")
        os.makedirs(loc)
        os.makedirs(os.path.join(d, "in", "x"), exist_ok=True)
        paths = []
        for i, tracks in enumerate(case["files"]):
            sub = "x" if case["where"] == "relative" and i % 2 else ""
            if case["where"] == "twins":
                # one name in several directories, and a name that a copy might get
                sub, name = "xyz"[i % 3], "aab"[i % 3] if i < 3 else "a_1"
                os.makedirs(os.path.join(loc, sub), exist_ok=True)
            else:
                name = names[i]
            p = os.path.join(loc, sub, f"{name}.mid")
            with open(p, "wb") as f:
                f.write(song_bytes(tracks))
            paths.append(p)
        made = list(paths)
        given = {"absolute": paths, "relative": [os.path.relpath(p, d) for p in paths],
                 "twins": [os.path.relpath(p, d) for p in paths], "raw": None}[case["where"]]
        if given is None:
            with open(os.path.join(loc, "notes.txt"), "w") as f:
                f.write("not a piece")
            paths = [os.path.join(loc, f) for f in os.listdir(loc) if f.endswith(".mid")]
            ctx.eq(sorted(paths), sorted(made), "files of the raw directory")
        os.chdir(d)
        if not check_one(ctx, d, paths, given, loc, opt, "data set"):
            return
        if case["second"]:
            # another size in the same directory
            o2 = dict(opt, size=opt["size"] % 12 + 1, vel=case["second"] == "vel")
            check_one(ctx, d, paths, given, loc, o2, "second data set")
            ds, _, _ = make(ctx, d, given, loc, opt)
            _, kept, known = model(paths, opt)
            compare(ctx, ds, kept, known, opt, "first data set after the second")
        for p, tracks in zip(made, case["files"]) if case["where"] != "twins" else []:
            with open(p, "rb") as f:
                ctx.eq(f.read(), song_bytes(tracks), f"{os.path.basename(p)} after the data set was made")
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def check_corpus(case, ctx):
    d = tempfile.mkdtemp(prefix="c20")
    try:
        paths = [os.path.join(REPO, p) for p in case["paths"]]
        check_one(ctx, d, paths, paths, d, case["opt"], "real files")
    finally:
        shutil.rmtree(d)


BAD = [("type", dict(root=5)), ("type", dict(root=None)), ("type", dict(transform=3)), ("type", dict(pre_transform="x")), ("type", dict(pre_filter=[])),
       ("type", dict(default_node_attr=1)), ("type", dict(midi_files="a.mid")), ("type", dict(midi_files=("a.mid",))), ("type", dict(default_webserver=None)),
       ("type", dict(train_ratio="0.5")), ("type", dict(val_ratio=None)), ("type", dict(per_instrument_graph=1)), ("type", dict(per_instrument_graph=None)), ("type", dict(train_ratio=[0.5])), ("type", dict(val_ratio="0.1")), ("type", dict(per_graph_slit="yes")),
       ("type", dict(default_midi_loc=None)), ("type", dict(feature_vec_size=12.0)), ("type", dict(velocity_num_buckets="8")), ("type", dict(velocity_num_buckets=1.5)), ("type", dict(velocity_num_buckets=[8])), ("type", dict(feature_vec_size="12")), ("type", dict(tolerance=None)), ("type", dict(tolerance=1)),
       ("type", dict(filter_single_notes=0)), ("type", dict(include_velocity=None)),
       ("value", dict(midi_files=["a.mid", 3])), ("value", dict(midi_files=[None])), ("value", dict(train_ratio=-0.1)), ("value", dict(train_ratio=1.1, val_ratio=0)),
       ("value", dict(val_ratio=-1)), ("value", dict(val_ratio=2, train_ratio=0)), ("value", dict(train_ratio=0.8, val_ratio=0.3)), ("value", dict(train_ratio=0.7, val_ratio=0.302)), ("value", dict(train_ratio=1.0005, val_ratio=0)),
       ("value", dict(val_ratio=1.0005, train_ratio=0)), ("value", dict(train_ratio=-0.0005)), ("value", dict(val_ratio=-0.0005)), ("value", dict(train_ratio=0.5, val_ratio=0.50001)),
       ("value", dict(feature_vec_size=0)), ("value", dict(feature_vec_size=129)), ("value", dict(feature_vec_size=-3)), ("value", dict(velocity_num_buckets=0)),
       ("value", dict(default_midi_loc="/nonexistent/place"))]


def check_arguments(case, ctx):
    kind, kw = case["kind"], case["kw"]
    kw = {k: tuple(v["tuple"]) if isinstance(v, dict) else v for k, v in kw.items()}
    d = tempfile.mkdtemp(prefix="c20")
    try:
        full = dict(root=os.path.join(d, "set"), midi_files=None, default_midi_loc=d)
        full.update(kw)
        ctx.raises({"type": TypeError, "value": ValueError}[kind], lambda: quiet(lambda: MidiDataset(**full)), f"data set of {case['kw']}")
        ctx.eq(os.listdir(d), [], f"files written before {case['kw']} was refused")
    finally:
        shutil.rmtree(d)


def check_mapper(case, ctx):
    ms, models = [NodeHashIndexMapper() for _ in range(2)], [[], []]
    for op, i, k in case["ops"]:
        m, mo = ms[i], models[i]
        if op == "add":
            m.add_node_hash(k)
            if k not in mo:
                mo.append(k)
        elif op == "merge":
            m.merge_with(ms[1 - i])
            mo += [h for h in models[1 - i] if h not in mo]
        elif op == "self":
            m.merge_with(m)
        for m, mo in zip(ms, models):
            ctx.eq([m.get_index(h) for h in mo], list(range(len(mo))), f"after {op}: numbers of the hashes")
            ctx.eq([m.get_node_hash(n) for n in range(len(mo))], mo, f"after {op}: hashes of the numbers")
            ctx.eq((len(m.hash_to_index), len(m.index_to_hash)), (len(mo),) * 2, f"after {op}: size")
            ctx.raises(KeyError, lambda: m.get_index("none"), "number of an unknown hash")
            ctx.raises(KeyError, lambda: m.get_node_hash(len(mo)), "hash of an unknown number")


P = st.one_of(st.integers(60, 63), st.integers(60, 63), gen.PITCH)
NOTE = st.tuples(st.integers(0, 10), st.integers(1, 3), P, gen.VEL).map(list)
TRACK = st.tuples(st.sampled_from([0, 1, 2, 3, 9]), st.integers(0, 127),
                  st.one_of(st.lists(NOTE, max_size=2), st.lists(NOTE, min_size=6, max_size=12), st.lists(NOTE, min_size=4, max_size=12))).map(list)
TONAL = st.tuples(st.just(4), st.integers(0, 127), st.lists(NOTE, min_size=6, max_size=12)).map(list)
FILE = st.one_of(st.lists(TRACK, max_size=3, unique_by=lambda t: t[0]), st.tuples(TONAL, st.lists(TRACK, max_size=3, unique_by=lambda t: t[0])).map(lambda t: [t[0]] + t[1]))
NAMES = [["c", "a", "b", "d"], ["a.1", "a", "b.x.mid", "d e"], ["10", "9", "é", "A"], ["-", ".x", "~", "a,b"]]
RATIO = st.one_of(st.tuples(st.integers(0, 1000), st.integers(0, 1000)).map(lambda t: [t[0] / 1000, min(t[1], 1000 - t[0]) / 1000]).filter(lambda r: r[0] + r[1] <= 1), st.sampled_from([[0.125, 0.375], [0.3125, 0.0625], [0.0625, 0.0625]]),
                  st.just([0.7, 0.15]), st.sampled_from([[0, 0], [1, 0], [0, 1], [0.5, 0.5], [1.0, 0.0], [0.6, 0.4]]),
                  st.tuples(st.integers(0, 100), st.integers(0, 100)).map(lambda t: [t[0] / 100, t[1] * (100 - t[0]) / 10000]))
OPT = st.fixed_dictionaries({"per": st.booleans(), "size": st.one_of(st.just(12), st.integers(1, 12)), "vel": st.sampled_from([False, False, True]),
                             "filter": st.sampled_from([False, False, False, True]), "ratio": RATIO, "mask": st.sampled_from([True, True, True, False]),
                             "remove_label": st.booleans(), "sane": st.booleans(), "at_least": st.sampled_from([None, None, None, 2, 3, 5]),
                             "mark": st.booleans(), "transform": st.sampled_from([False, False, True]),
                             "velocity_num_buckets": st.sampled_from([8, 8, 1, 127, 200]), "tolerance": st.sampled_from([0.2, 0.2, 0.0, 1.0, 0.05]), "omit": st.booleans()})


def build(tier):
    return st.fixed_dictionaries({"files": st.lists(FILE, min_size=1, max_size=4), "names": st.sampled_from(NAMES), "opt": OPT, "where": st.sampled_from(["absolute", "relative", "twins", "raw"]),
                                  "second": st.sampled_from([None, None, "size", "vel"])})


def large(tier):
    """A file of many notes, or many files."""
    def vary(n, rnd):
        return [rnd.randint(0, 300), n[1], rnd.randint(40, 90), rnd.randint(1, 127)]
    big = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 127), gen.many(NOTE, 260, 80, vary)).map(list), min_size=1, max_size=2, unique_by=lambda t: t[0])
    small = st.lists(st.lists(TRACK, min_size=1, max_size=1), min_size=1, max_size=3)
    return st.one_of(gen.with_many(build(tier), files=st.lists(big, min_size=1, max_size=2)),
                     gen.with_many(build(tier), files=gen.many(st.lists(TRACK, min_size=1, max_size=1), 24, 17), second=st.none()),
                     gen.with_many(build(tier), files=gen.many(st.lists(TRACK, min_size=1, max_size=1), 70, 50), second=st.none()))


def mapper(tier):
    h = st.one_of(st.integers(0, 5), st.integers(-2**62, 2**62))
    op = st.tuples(st.sampled_from(["add", "add", "add", "merge", "self"]), st.integers(0, 1), h).map(list)
    return st.fixed_dictionaries({"ops": gen.history(op, 8 if tier == "quick" else 30)})


def arguments(tier):
    return [{"kind": k, "kw": {a: {"tuple": list(v)} if isinstance(v, tuple) else v for a, v in kw.items()}} for k, kw in BAD]


def files(tier):
    fs = corpus(10, 25_000) if tier == "quick" else corpus()
    return [{"paths": fs[i:i + 5], "opt": {"per": i % 10 == 0, "size": 12 if i % 3 else 4, "vel": i % 15 == 0, "filter": False, "ratio": [0.7, 0.15], "mask": True,
                                           "remove_label": True, "sane": False, "at_least": None, "mark": False, "transform": False}} for i in range(0, len(fs), 5)]


def rich(c):
    return len(c["files"]) >= 2 and sum(t[0] != 9 and len(t[2]) >= 3 for f in c["files"] for t in f) >= 2


SUBS = [
    Sub("build", check_build, build, quick=120, thorough=4000, shards=7, nontrivial=rich, rule="two or more files with two or more tracks of three or more notes"),
    Sub("large", check_build, large, quick=3, thorough=100, shards=4, nontrivial=lambda c: len(c["files"]) > 16 or any(len(t[2]) > 64 for f in c["files"] for t in f),
        rule="a file of more than 64 notes, or more than 16 files"),
    Sub("arguments", check_arguments, cases=arguments, rule="arguments the data set refuses", nontrivial=lambda c: True),
    Sub("mapper", check_mapper, mapper, quick=150, thorough=4000, nontrivial=lambda c: len({o[2] for o in c["ops"]}) >= 3, rule="three or more hashes"),
    Sub("corpus", check_corpus, cases=files, rule="real files", nontrivial=lambda c: True),
]

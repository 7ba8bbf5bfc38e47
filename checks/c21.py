"""C21: the transforms of graph data, and one hot rows."""
import contextlib
import io

import numpy as np
import torch
from hypothesis import strategies as st
from torch_geometric.data import Data

from checks import c18
from pbt import gen
from pbt.core import Sub
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
from neural_graph_composer.transforms import AddDegreeTransform, GraphIDTransform, RandomEdgeDrop, RandomNodeDrop
from neural_graph_composer.utils import np_onehot

PROPERTY = "C21"
ASSUMPTIONS = ["the adjacency filter, when it is not told the number of nodes, is asked to keep nodes that the edges reach"]
SMALL = ("uint8", "int8", "bool", "float16")
TYPE = ("float", "float", "float", "double", "long", "int32") + SMALL
MASKS = ("train_mask", "val_mask", "test_mask")


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def data_of(case):
    """Data with features that name the node (row * 1000 + column) and edge weights that name the edge."""
    n = case["n"]
    edges = [(a % n, b % n) for a, b in case["edges"]]
    if not case.get("parallel"):
        edges = list(set(edges))
    edges.sort(key=lambda e: ((e[0] * 7 + e[1] * 3) % 11, e))
    shape = {0: [n], 1: [n, case["width"]], 2: [n, 2, case["width"]]}[case["rank"]]
    count = int(np.prod(shape[1:]))
    x = (torch.arange(n).reshape(-1, 1) * 1000 + torch.arange(count).reshape(1, -1)).reshape(shape)
    x = (x % 120).to(getattr(torch, case["type"])) if case.get("type") in SMALL else x.to(getattr(torch, case.get("type", "float")))
    d = Data(x=x, edge_index=torch.tensor(edges, dtype=torch.long).reshape(-1, 2).t().contiguous(), y=torch.arange(n) + 1)
    if case["attr"]:
        d.edge_attr = torch.tensor([[float(a * 100 + b), float(k)][:case["attr"]] for k, (a, b) in enumerate(edges)]).reshape(-1, case["attr"])
    if case["masks"]:
        for k, m in enumerate(MASKS):
            d[m] = torch.tensor([(i * case["masks"] + i // 2) % 3 == k for i in range(n)], dtype=torch.bool)
    if case["names"]:
        d.node_hash = [f"h{i}" for i in range(n)]
        d.label = [i + 1 for i in range(n)]
    d.num_nodes = n
    return d


def built(case):
    b = MidiGraphBuilder()
    b.build(c18.piece_of(case["tracks"]), is_include_velocity=case["vel"])
    return list(b.graphs()) if b.pyg_data else []


def table(d):
    """What is known of a graph, as plain values: nodes in order, edges by the nodes they join."""
    names = [tuple(row.reshape(-1).tolist()) + (int(y),) for row, y in zip(d.x, d.y)]
    ei = d.edge_index.tolist()
    attr = d.edge_attr.tolist() if d.edge_attr is not None else [None] * len(ei[0])
    out = {"nodes": names, "edges": [((ei[0][k], ei[1][k]), attr[k]) for k in range(len(ei[0]))], "count": d.num_nodes}
    for m in MASKS:
        if m in d:
            out[m] = d[m].tolist()
    for k in ("node_hash", "label"):
        if k in d:
            out[k] = list(d[k])
    return out


def tool(held, kind, *args):
    """One transform of a kind for all the graphs of a case."""
    key = (kind.__name__,) + tuple(a for a in args if not isinstance(a, Held))
    if key not in held:
        held[key] = quiet(lambda: kind(*args))
    return held[key]


def drop_nodes(ctx, d, p, what, held):
    before = table(d)
    n = len(before["nodes"])
    got = tool(held, RandomNodeDrop, p)(d)
    ctx.eq(table(d), before, f"{what}: the data given")
    after = table(got)
    kept = []
    rows = {}
    for i, r in enumerate(before["nodes"]):
        rows.setdefault(r, []).append(i)
    for r in after["nodes"]:
        ctx.check(rows.get(r), f"{what}: a node {r[:4]}.. that the graph did not have")
        kept.append(rows[r].pop(0))
    ctx.eq(len(kept), n - int(p * n), f"{what}: nodes left of {n} at {p}")
    ctx.eq(after["count"], len(kept), f"{what}: number of nodes")
    ctx.eq(set(after), set(before), f"{what}: attributes")
    ctx.eq(got.edge_index.dtype, torch.long, f"{what}: type of the edges")
    for k in MASKS + ("node_hash", "label"):
        if k in before:
            ctx.eq(after[k], [before[k][i] for i in kept], f"{what}: {k} of the nodes that are left {kept}")
    some = set(kept)
    want = sorted(((i, j), w) for (i, j), w in before["edges"] if i in some and j in some)
    have = sorted(((kept[i], kept[j]), w) for (i, j), w in after["edges"])
    ctx.eq(have, want, f"{what}: edges between the nodes that are left {kept}")
    return got


def drop_edges(ctx, d, p, what, held):
    before = table(d)
    got = tool(held, RandomEdgeDrop, p)(d)
    ctx.eq(table(d), before, f"{what}: the data given")
    after = table(got)
    edges, left = after.pop("edges"), before.pop("edges")
    ctx.eq(after, before, f"{what}: everything but the edges")
    rest = iter(left)
    for e in edges:
        ctx.check(e in rest, f"{what}: an edge {e} that the graph did not have, or not in the order of {left[:20]}: {edges[:20]}")
    ctx.eq(got.edge_index.dtype, torch.long, f"{what}: type of the edges")
    if p == 0:
        ctx.eq(edges, left, f"{what}: nothing to drop")
    if p == 1:
        ctx.eq(edges, [], f"{what}: everything to drop")
    return got


def add_degree(ctx, d, what, held):
    before = table(d)
    n = before["count"]
    got = tool(held, AddDegreeTransform)(d)
    outs = [sum(i == v for (i, _), _ in before["edges"]) for v in range(n)]
    ctx.eq(got.x.tolist(), [list(r[:-1]) + [float(k)] for r, k in zip(before["nodes"], outs)], f"{what}: features and degree")
    ctx.eq(table(d), before, f"{what}: the data given")
    before.pop("nodes")
    after = table(got)
    after.pop("nodes")
    ctx.eq(after, before, f"{what}: everything but the features")
    return got


class Held:
    num_classes = 3

    def __init__(self, i):
        self.i = i

    def get_graph_id(self):
        return self.i


def check_transforms(case, ctx):
    rng = torch.random.get_rng_state()
    torch.manual_seed(case["seed"])
    try:
        ds = [data_of(case["data"])] if "data" in case else built(case["piece"])
        if "data" in case and case["data"]["n"] <= 30:      # one of the same shape, its edges turned about
            ds.append(data_of(dict(case["data"], edges=[[b, a] for a, b in case["data"]["edges"]])))
        held, owner = {}, Held(0)
        for i, d in enumerate(ds):
            for k, (op, p) in enumerate(case["ops"]):
                what = f"graph {i}, step {k} {op}"
                if op == "nodes":
                    d = drop_nodes(ctx, d, p, what, held)
                elif op == "edges":
                    d = drop_edges(ctx, d, p, what, held)
                elif op == "degree" and d.num_nodes:
                    d = add_degree(ctx, d, what, held)
                elif op == "id":
                    before = table(d)
                    owner.i = case.get("id", int(p * 10) + i)
                    d = tool(held, GraphIDTransform, owner)(d)
                    ctx.eq((int(d.graph_id), d.graph_id.dtype), (owner.i, torch.long), f"{what}: id")
                    ctx.eq(table(d), before, f"{what}: everything but the id")
                d.validate(raise_on_error=True)
                if "graph_id" in d:
                    ctx.check(d.graph_id.dtype == torch.long, f"{what}: id")
    finally:
        torch.random.set_rng_state(rng)


def check_large(case, ctx):
    n, m = case["n"], case["m"]
    edges = [[(i * case["step"][0] + i * i % 7) % min(n, case["sources"]), (i * case["step"][1] + i // n) % n] for i in range(m)]
    check_transforms({"data": {"n": n, "edges": edges, "rank": 1, "parallel": case["parallel"], "width": 2, "attr": case["attr"], "masks": 1, "names": case["names"], "type": case["type"]},
                      "ops": case["ops"], "seed": case["seed"], "id": case["id"]}, ctx)


def check_chance(case, ctx):
    """Every node and every edge is dropped with the probability asked for: no node or edge of a graph is spared or hit always."""
    n, p = case["n"], case["p"]
    rng = torch.random.get_rng_state()
    torch.manual_seed(case["seed"])
    try:
        turns = 400
        nodes, edges = [0] * n, [0] * n
        for _ in range(turns):
            d = data_of({"n": n, "edges": [[i, (i + 1) % n] for i in range(n)], "rank": 1, "width": 2, "attr": 1, "masks": 0, "names": False})
            e = RandomEdgeDrop(p=p)(d)
            for a in e.edge_attr[:, 0].tolist():
                edges[int(a) // 100] += 1
            d = quiet(lambda: RandomNodeDrop(p=p))(d)
            for y in d.y.tolist():
                nodes[y - 1] += 1
        want = {"nodes": 1 - int(p * n) / n, "edges": 1 - p}
        for kind, counts in (("nodes", nodes), ("edges", edges)):
            for i, c in enumerate(counts):
                q = want[kind]
                slack = 7 * (turns * max(q * (1 - q), 0.01)) ** 0.5
                ctx.check(abs(c - turns * q) <= slack, f"{kind}: number {i} of {n} was kept {c} times of {turns} at p={p}")
    finally:
        torch.random.set_rng_state(rng)


def check_filter(case, ctx):
    n = case["n"]
    edges = [(a % n, b % n) for a, b in case["edges"]]
    top = max(max(e) for e in edges) if edges else -1
    told = case["told"] or not edges
    keep = [k for k in range(n) if case["keep"] >> k & 1 and (told or k <= top)]
    if case["turn"]:
        keep.reverse()
    ei = torch.tensor(edges, dtype=torch.long).reshape(-1, 2).t().contiguous()
    attr = torch.arange(len(edges) * case["attr"]).reshape(len(edges), case["attr"]).float() if case["attr"] else None
    got, kept = RandomNodeDrop.filter_adj(ei, attr, torch.tensor(keep, dtype=torch.long), *([n] if told else []))
    want = [k for k, (a, b) in enumerate(edges) if a in keep and b in keep]
    what = f"edges {edges} between {keep} of {n}"
    ctx.eq(got.t().tolist(), [[keep.index(v) for v in edges[k]] for k in want], what)
    ctx.eq(got.dtype, torch.long, f"{what}: type")
    if attr is None:
        ctx.check(kept is None, f"{what}: weights where there were none")
    else:
        ctx.eq(kept.tolist(), attr[want].tolist(), f"{what}: weights")
    ctx.eq(ei.t().tolist(), [list(e) for e in edges], f"{what}: the edges given")


def check_onehot(case, ctx):
    idx, depth = case["idx"], case["depth"]
    idx = [i % depth for i in idx]
    given = {"list": idx, "array": np.array(idx, dtype=int)}[case["given"]]
    kinds = {"bool": bool, "int": int, "float": float, "uint8": np.uint8}
    got = np_onehot(given, depth, kinds[case["type"]]) if case["type"] else np_onehot(given, depth)
    ctx.eq((got.shape, got.dtype), ((len(idx), depth), np.dtype(kinds[case["type"] or "bool"])), "shape and type")
    ctx.eq(got.tolist(), [[c == i for c in range(depth)] for i in idx], "rows")
    ctx.eq(list(given), idx, "the indices given")
    if case["beyond"] is not None:
        ctx.raises(IndexError, lambda: np_onehot(idx + [depth + case["beyond"]], depth), "an index of the depth or more")


def transforms(tier):
    n = st.one_of(st.integers(1, 8), st.integers(1, 3), st.integers(1, 25))
    data = st.fixed_dictionaries({"n": n, "edges": st.lists(st.tuples(st.integers(0, 24), st.integers(0, 24)).map(list), max_size=30), "rank": st.sampled_from([1, 1, 2, 0]),
                                  "parallel": st.booleans(), "width": st.integers(1, 12), "attr": st.sampled_from([1, 1, 2, 0]), "masks": st.sampled_from([1, 2, 0]), "names": st.booleans(), "type": st.sampled_from(TYPE)})
    piece = st.fixed_dictionaries({"tracks": c18.TRACKS, "vel": st.booleans()})
    p = st.one_of(st.sampled_from([0, 0.5, 1, 0.0, 1.0]), st.integers(0, 100).map(lambda k: k / 100))
    op = st.tuples(st.sampled_from(["nodes", "nodes", "edges", "edges", "degree", "id"]), p).map(list)
    ops = st.lists(op, min_size=1, max_size=4 if tier == "quick" else 8)
    seed = st.integers(0, 2**32)
    return st.one_of(st.fixed_dictionaries({"data": data, "ops": ops, "seed": seed}), st.fixed_dictionaries({"data": data, "ops": ops, "seed": seed}),
                     st.fixed_dictionaries({"piece": piece, "ops": ops, "seed": seed}))


def large(tier):
    p = st.one_of(st.sampled_from([0.5, 0.9, 0.3]), st.integers(0, 100).map(lambda k: k / 100))
    op = st.tuples(st.sampled_from(["nodes", "nodes", "edges", "degree", "degree", "id"]), p).map(list)
    return st.fixed_dictionaries({"n": st.one_of(st.sampled_from([256, 257, 1000, 1025]), st.integers(30, 3000)), "m": st.integers(0, 3000), "step": st.tuples(st.integers(1, 500), st.integers(1, 500)).map(list),
                                  "parallel": st.booleans(), "attr": st.sampled_from([1, 2, 0]), "names": st.booleans(), "type": st.sampled_from(TYPE), "sources": st.one_of(st.just(10 ** 6), st.integers(1, 6)),
                                  "id": st.one_of(st.integers(0, 300), st.integers(0, 10 ** 5), st.integers(0, 2 ** 40)), "ops": st.lists(op, min_size=1, max_size=2), "seed": st.integers(0, 2**32)})


def filters(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 6), st.integers(1, 20)), "edges": st.lists(st.tuples(st.integers(0, 19), st.integers(0, 19)).map(list), max_size=24),
                                  "keep": st.integers(0, 2**20 - 1), "told": st.booleans(), "turn": st.booleans(), "attr": st.integers(0, 2)})


def chance(tier):
    return st.fixed_dictionaries({"n": st.integers(2, 12), "p": st.sampled_from([0.1, 0.25, 0.5, 0.75, 0.9]), "seed": st.integers(0, 2**32)})


def onehot(tier):
    return st.fixed_dictionaries({"idx": st.lists(st.integers(0, 200), max_size=12), "depth": st.one_of(st.integers(1, 12), st.just(128)), "given": st.sampled_from(["list", "array"]),
                                  "type": st.sampled_from([None, "bool", "int", "float", "uint8"]), "beyond": st.one_of(st.none(), st.integers(0, 3))})


def busy(c):
    return len(c["ops"]) >= 2 and (c["data"]["n"] >= 3 and len(c["data"]["edges"]) >= 3 if "data" in c else sum(len(t[1]) >= 4 for t in c["piece"]["tracks"]) >= 1)


SUBS = [
    Sub("transforms", check_transforms, transforms, quick=600, thorough=20000, shards=4, nontrivial=busy, rule="two or more transforms of a graph with three or more nodes and edges"),
    Sub("large", check_large, large, quick=60, thorough=2000, shards=2, nontrivial=lambda c: c["n"] >= 200 and c["m"] >= 200, rule="a graph of two hundred nodes and edges or more"),
    Sub("filter", check_filter, filters, quick=400, thorough=10000, nontrivial=lambda c: len(c["edges"]) >= 3 and c["n"] >= 3, rule="three or more edges of three or more nodes"),
    Sub("chance", check_chance, chance, quick=15, thorough=150, nontrivial=lambda c: c["n"] >= 4, rule="400 drops from a ring of four or more nodes"),
    Sub("onehot", check_onehot, onehot, quick=200, thorough=4000, nontrivial=lambda c: len(c["idx"]) >= 2, rule="two or more rows"),
]

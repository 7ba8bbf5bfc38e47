"""C19: questions about a graph, merging of nodes, and conversion of graphs to PyG data."""
import random
import networkx as nx
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import gen
from pbt import graphs as G
from pbt import notes as N
from pbt.core import Sub
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder as B

PROPERTY = "C19"
ASSUMPTIONS = ["all nodes of a graph that is converted have the same attributes, all edges too, and there is an edge",
               "neighbors() follows the direction of the edges, as that of networkx does"]


def forms(chord, as_):
    ps = sorted(chord)
    if as_ == "hash":
        return hash(frozenset(ps))
    if as_ == "notes":
        return [N.mk([p, 64, 0.0, 1.0]) for p in ps]
    return ps + ps[:1] if as_ == "twice" else ps[::-1] if as_ == "back" else ps


def check_queries(case, ctx):
    seq = N.sequence([0, False, ""], case["notes"])
    b = B()
    g = b.build_sequence(seq)
    m = G.Graph().add(G.walk(G.chords(N.facts(seq)), 12))
    strange = frozenset([0, 1, 2])
    chords = m.nodes[:5] + [strange]
    for u in chords:
        for v in chords:
            joined = (u, v) in m.edges or (v, u) in m.edges
            for fu, fv in (("list", "list"), *case["forms"]):
                ctx.eq(B.is_connected(g, forms(u, fu), forms(v, fv)), joined, f"{set(u)} and {set(v)} are connected")
            ctx.eq(B.get_edge_connected(g, sorted(u), forms(v, "back")), (hash(u), hash(v)) if (u, v) in m.edges else None, f"edge of {set(u)} and {set(v)}")
    for u in m.nodes:
        for f in ("list", "notes", "twice"):
            got = list(B.neighbors(g, forms(u, f)))
            ctx.eq(sorted(got), sorted(hash(d) for c, d in m.edges if c == u), f"neighbors of {set(u)}")
    ctx.raises(nx.NetworkXError, lambda: list(B.neighbors(g, sorted(strange))), "neighbors of a chord that is not there")
    ctx.raises(ValueError, lambda: B.neighbors(g, ["C4"]), "neighbors of a string")
    ctx.raises(ValueError, lambda: B.is_connected(g, ["C4"], [60]), "connection of a string")
    ctx.raises(ValueError, lambda: B.is_connected(g, [60], ["C4"]), "connection of a string")
    G.compare(ctx, g, m, "the graph after the questions")
    for u, v in list(m.edges)[:2]:
        if u != v and (v, u) not in m.edges:
            g.remove_edge(hash(u), hash(v))
            ctx.check(not B.is_connected(g, sorted(u), sorted(v)) and B.get_edge_connected(g, sorted(u), sorted(v)) is None,
                      f"{set(u)} and {set(v)} are connected, their edge is gone")
            ctx.check(hash(v) not in list(B.neighbors(g, sorted(u))), f"{set(v)} is a neighbor of {set(u)}, their edge is gone")


def check_merge(case, ctx):
    g = (nx.DiGraph if case["directed"] else nx.Graph)()
    g.add_nodes_from(range(case["n"]))
    for u, v in case["edges"]:
        g.add_edge(u % case["n"], v % case["n"], weight=float(u + 100 * v + 1))
    names = {i: k for i, k in enumerate(case["names"][:case["n"]])}
    g = nx.relabel_nodes(g, names)
    some = [names[i] for i in dict.fromkeys(i % case["n"] for i in case["merge"])]
    old = {(u, v): d["weight"] for u, v, d in g.edges(data=True)}
    new = B.merge_nodes(g, list(some))
    ctx.check(new not in names.values(), "the merged node has the name of an old one")
    ctx.eq(set(g.nodes), (set(names.values()) - set(some)) | {new}, "nodes")
    ctx.eq(list(g.nodes[new]["merged_nodes"]), some, "nodes that were merged")
    pair = (lambda u, v: (u, v)) if case["directed"] else (lambda u, v: frozenset((u, v)))
    want = {}
    for (u, v), w in old.items():
        a, b = (new if u in some else u), (new if v in some else v)
        if (a, b) != (new, new):
            want.setdefault(pair(a, b), set()).add(w)
    got = {pair(u, v): d["weight"] for u, v, d in g.edges(data=True)}
    ctx.eq(set(got), set(want), "edges")
    for e, w in got.items():
        ctx.check(w in want[e], f"the weight of {e} is {w}, those of its edges were {want[e]}")


def check_convert(case, ctx):
    kind = getattr(nx, case["kind"])
    g = kind()
    n = case["n"]
    for i in range(n):
        g.add_node(f"n{i * 7 % n if n % 7 else i}")
    nodes = list(g.nodes)
    for i, name in enumerate(nodes):
        g.nodes[name].update({f"p{j}": j + i / 4 for j in range(case["many"])})
        g.nodes[name].update(attr=torch.tensor([float(i), i + 0.5, 0.0][:case["width"]]), volume=float(i) / 4, label=[i, str(i)])
    for k, (u, v) in enumerate(case["edges"] if n else []):
        extra = {"gain": float(k), "volume": k / 8} if case["extra"] else {}
        extra.update({f"q{j}": j + k / 16 for j in range(case["many"])})
        g.add_edge(nodes[u % n], nodes[v % n], weight=1.0 + k, **extra)
    at = {name: i for i, name in enumerate(nodes)}
    d = g if g.is_directed() else g.to_directed()
    edges = list(d.edges(data=True))
    qs = [f"q{j}" for j in range(case["many"])]
    before = ([(a, {k: str(v) for k, v in x.items()}) for a, x in g.nodes(data=True)], list(g.edges(data=True)))
    nodes_by = {"attr": lambda i: [float(i), i + 0.5, 0.0][:case["width"]], "volume": lambda i: [i / 4]}
    want_n = {"default": ["attr"], "two": ["attr", "volume"], "swapped": ["volume", "attr"]}[case["group_n"]]
    want_e = {"default": ["weight"], "all": ["weight"] + (["gain", "volume"] if case["extra"] else []) + qs, "two": ["gain", "weight"] if case["extra"] else ["weight"]}[case["group_e"]]
    kw = {}
    if case["group_n"] != "default":
        kw["group_node_attrs"] = want_n
    if case["group_e"] != "default":
        kw["group_edge_attrs"] = "all" if case["group_e"] == "all" else want_e
    data = B.from_midi_networkx(g, **kw)
    if not n:
        ctx.eq((data.num_nodes, tuple(data.edge_index.shape)), (0, (2, 0)), "no nodes")
        return
    if not edges:
        ctx.check(data.edge_attr is None or len(data.edge_attr) == 0, "attributes of no edge")
    ctx.eq(data.x.tolist(), [[v for k in want_n for v in nodes_by[k](i)] for i in range(n)], "x")
    ctx.eq(sorted([e, a] for e, a in zip(data.edge_index.t().tolist(), data.edge_attr.tolist() if edges else [])),
           sorted([[at[u], at[v]], [x[k] for k in want_e]] for u, v, x in edges), "edges and their attributes")
    ctx.eq((tuple(data.edge_index.shape), data.edge_index.dtype), ((2, len(edges)), torch.long), "shape of the edges")
    ctx.eq(data.num_nodes, n, "number of nodes")
    ctx.eq(data["label"], [[i, str(i)] for i in range(n)], "an attribute that is not grouped")
    for j in range(case["many"]):
        ctx.eq(data[f"p{j}"], [j + i / 4 for i in range(n)], f"p{j}, an attribute of nodes")
        if edges and case["group_e"] != "all":
            ctx.eq(sorted(data[f"q{j}"]), sorted(x[f"q{j}"] for _, _, x in edges), f"q{j}, an attribute of edges")
    if "volume" not in want_n:
        ctx.eq(data["volume"], [i / 4 for i in range(n)], "an attribute of nodes that is not grouped")
    if edges and case["extra"] and "volume" not in want_e:
        ctx.eq(sorted(data["edge_volume"]), sorted(x["volume"] for _, _, x in edges), "an attribute of edges that nodes have too")
    ctx.eq(([(a, {k: str(v) for k, v in x.items()}) for a, x in g.nodes(data=True)], list(g.edges(data=True))), before, "the graph after it was converted")
    for a in nodes:
        del g.nodes[a]["label"]
    every = B.from_midi_networkx(g, group_node_attrs="all")
    ctx.eq(every.x.tolist(), [[j + i / 4 for j in range(case["many"])] + nodes_by["attr"](i) + [i / 4] for i in range(n)], "all attributes of the nodes")
    if len(g.edges) > 1:
        other = g.copy()
        list(other.edges(data=True))[-1][2]["more"] = 1.0
        ctx.raises(ValueError, lambda: B.from_midi_networkx(other), "edges of different attributes")
    g.nodes[nodes[-1]]["more"] = 1.0
    if n > 1:
        ctx.raises(ValueError, lambda: B.from_midi_networkx(g), "nodes of different attributes")


# values of every kind an attribute can have, made of a whole number: what is stored, and the row it stands for
KINDS = {"int": (lambda k, w: k, lambda k, w: [k]), "float": (lambda k, w: k / 4, lambda k, w: [k / 4]), "bool": (lambda k, w: k % 2 == 1, lambda k, w: [k % 2]),
         "mixed": (lambda k, w: k if k % 2 else k / 4, lambda k, w: [k if k % 2 else k / 4]), "numpy": (lambda k, w: np.float32(k / 4), lambda k, w: [k / 4]),
         "list": (lambda k, w: [k / 4 + j for j in range(w)], lambda k, w: [k / 4 + j for j in range(w)]),
         "tuple": (lambda k, w: tuple(k / 4 + j for j in range(w)), lambda k, w: [k / 4 + j for j in range(w)]),
         "ints": (lambda k, w: [k + j for j in range(w)], lambda k, w: [k + j for j in range(w)]),
         "array": (lambda k, w: np.array([k / 4 + j for j in range(w)]), lambda k, w: [k / 4 + j for j in range(w)]),
         "tensor": (lambda k, w: torch.tensor([k / 4 + j for j in range(w)]), lambda k, w: [k / 4 + j for j in range(w)]),
         "int tensor": (lambda k, w: torch.tensor([k + j for j in range(w)]), lambda k, w: [k + j for j in range(w)]),
         "scalar": (lambda k, w: torch.tensor(k / 4), lambda k, w: [k / 4])}


def check_kinds(case, ctx):
    """Attributes of every kind: numbers, lists, arrays and tensors, of nodes and of edges."""
    g, n, w = getattr(nx, case["kind"])(), case["n"], case["width"]
    node, edge = [[KINDS[k] for k in case[x]] for x in ("node", "edge")]
    names = [f"n{(5 * i) % 17}" for i in range(n)]
    for i, name in enumerate(names):
        g.add_node(name, **{f"a{j}": mk(i + j, w) for j, (mk, _) in enumerate(node)})
    for k, (u, v) in enumerate(case["edges"]):
        g.add_edge(names[u % n], names[v % n], num=k, **{f"b{j}": mk(k + j, w) for j, (mk, _) in enumerate(edge)})
    at = {name: i for i, name in enumerate(names)}
    d = g if g.is_directed() else g.to_directed()
    edges = [[[at[u], at[v]], [float(y) for j, (_, row) in enumerate(edge) for y in row(x["num"] + j, w)]] for u, v, x in d.edges(data=True)]
    shown = str(list(g.nodes(data=True)) + list(g.edges(data=True)))
    data = B.from_midi_networkx(g, group_node_attrs=[f"a{j}" for j in range(len(node))], group_edge_attrs=[f"b{j}" for j in range(len(edge))])
    ctx.eq(data.x.double().tolist(), [[float(y) for j, (_, row) in enumerate(node) for y in row(i + j, w)] for i in range(n)], "x")
    ctx.eq(sorted([e, a] for e, a in zip(data.edge_index.t().tolist(), data.edge_attr.double().tolist() if edges else [])), sorted(edges), "edges and their attributes")
    ctx.eq(str(list(g.nodes(data=True)) + list(g.edges(data=True))), shown, "the graph after it was converted")


P = st.integers(60, 63)


def queries(tier):
    t = st.integers(0, 10).map(lambda k: k / 2)
    return st.fixed_dictionaries({"notes": st.lists(N.note(pitch=P, vel=st.integers(1, 127), time=t), min_size=1, max_size=14),
                                  "forms": st.lists(st.tuples(*[st.sampled_from(["list", "notes", "hash", "twice", "back"])] * 2).map(list), min_size=1, max_size=2)})


E = st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list)


E12 = st.tuples(st.integers(0, 11), st.integers(0, 11)).map(list)


def merges(tier):
    return st.fixed_dictionaries({"n": st.integers(1, 12), "edges": st.one_of(st.lists(E12, max_size=14), st.lists(E12, min_size=12, max_size=40)),
                                  "merge": st.one_of(st.lists(st.integers(0, 11), min_size=1, max_size=4), st.lists(st.integers(0, 11), min_size=5, max_size=9)),
                                  "directed": st.booleans(), "names": st.lists(st.integers(-1000, 1000), min_size=12, max_size=12, unique=True)})


def converts(tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(["DiGraph", "DiGraph", "Graph", "MultiDiGraph", "MultiGraph"]), "n": st.integers(0, 7),
                                  "edges": st.one_of(st.lists(E, max_size=12), st.lists(E, min_size=3, max_size=12)), "extra": st.booleans(), "many": st.sampled_from([0, 0, 1, 5, 9, 20]), "width": st.integers(1, 3),
                                  "group_n": st.sampled_from(["default", "two", "swapped"]), "group_e": st.sampled_from(["default", "all", "two"])})


def kinds(tier):
    some = st.lists(st.sampled_from(sorted(KINDS)), min_size=1, max_size=3)
    return st.fixed_dictionaries({"kind": st.sampled_from(["DiGraph", "DiGraph", "Graph", "MultiDiGraph", "MultiGraph"]), "n": st.integers(1, 7), "edges": st.lists(E, max_size=10),
                                  "node": some, "edge": some, "width": st.integers(1, 4)})


def long_merges(tier):
    def make(c, n, m, k, seed, star):
        rnd = random.Random(seed)
        hub = rnd.randrange(n)
        spokes = [rnd.choice([[hub, k], [k, hub]]) for k in range(n)] if star else []
        return dict(c, n=n, edges=spokes + [[rnd.randrange(n), rnd.randrange(n)] for _ in range(m)], merge=([hub] if star else []) + [rnd.randrange(n) for _ in range(k)],
                    names=rnd.sample(range(-1000, 1000), n))
    return st.builds(make, merges(tier), st.integers(50, 100), st.integers(0, 300), st.one_of(st.integers(1, 80), st.integers(0, 3).map(lambda k: k + 1)), st.integers(0, 2 ** 32 - 1), st.booleans())


def long_converts(tier):
    def make(c, n, m, seed):
        rnd = random.Random(seed)
        return dict(c, n=n, edges=[[rnd.randrange(n), rnd.randrange(n)] for _ in range(m)])
    return st.builds(make, converts(tier), st.integers(50, 100), st.integers(0, 300), st.integers(0, 2 ** 32 - 1))


SUBS = [
    Sub("long_queries", check_queries, lambda tier: gen.with_many(queries(tier), notes=N.many(top=100)), quick=12, thorough=200, nontrivial=lambda c: True, rule="fifty notes or more"),
    Sub("long_merge", check_merge, long_merges, quick=25, thorough=400, nontrivial=lambda c: len(set(c["merge"])) >= 2 and len(c["edges"]) >= 3, rule="two nodes merged in a graph of fifty nodes or more"),
    Sub("long_convert", check_convert, long_converts, quick=25, thorough=400, nontrivial=lambda c: len(c["edges"]) >= 3, rule="fifty nodes or more"),
    Sub("queries", check_queries, queries, quick=500, thorough=6000, nontrivial=lambda c: len(c["notes"]) >= 4, rule="four or more notes"),
    Sub("merge", check_merge, merges, quick=600, thorough=6000, nontrivial=lambda c: len(set(c["merge"])) >= 2 and len(c["edges"]) >= 3, rule="two nodes merged in a graph of three edges"),
    Sub("kinds", check_kinds, kinds, quick=400, thorough=6000, nontrivial=lambda c: c["n"] >= 3 and len(c["edges"]) >= 2, rule="three nodes and two edges"),
    Sub("convert", check_convert, converts, quick=600, thorough=6000, nontrivial=lambda c: c["n"] >= 3 and len(c["edges"]) >= 3, rule="three nodes and edges"),
]

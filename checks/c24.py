"""C24: float intervals and trees of them."""
import contextlib
import io
import pickle

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from neural_graph_composer.interval import FloatInterval as I, FloatIntervalTree as Tree

PROPERTY = "C24"
ASSUMPTIONS = ["intervals of a tree begin before they end"]
PROBES = [k / 4 for k in range(-2, 35)]


def iv(t):
    return I(t[0], t[1], t[2])


def key(t):
    """Sorting of intervals as documented: begins, ends, data - data of two types by the names of the types."""
    d = t[2]
    return (t[0], t[1], type(d).__name__, d if d is not None else 0)


def plain(ivs):
    return sorted(((i.begin, i.end, i.data) for i in ivs), key=key)


def overlap(t, a, b):
    return t[0] < b and a < t[1]


def at(m, p):
    return [t for t in m if t[0] <= p < t[1]]


def reduced(group, mode, single):
    """data of a merged group, in order; mode: None, "join", "init"."""
    if single and mode != "init":
        return group[0][2]
    if mode is None:
        return None
    acc = None if mode == "init" else group[0][2]
    acc = "" if mode == "init" else acc
    for t in group if mode == "init" else group[1:]:
        acc = f"{acc}+{t[2]}"
    return acc


def merged(m, same, mode):
    """same(end of the series, the next interval)"""
    out, series = [], []
    for t in sorted(m, key=key):
        if series and same(series[0][0], max(s[1] for s in series), t):
            series.append(t)
        else:
            if series:
                out.append(series)
            series = [t]
    if series:
        out.append(series)
    return {(s[0][0], max(x[1] for x in s), reduced(s, mode, len(s) == 1)) for s in out}


def reducer(mode):
    if mode is None:
        return {}
    kw = {"data_reducer": lambda a, b: f"{a}+{b}"}
    if mode == "init":
        kw["data_initializer"] = ""
    return kw


def tag(i, lower):
    return f"{i.data}{'<' if lower else '>'}"


def compare(ctx, t, m, what):
    ctx.eq(plain(t.items()), sorted(m, key=key), f"{what}: intervals")
    ctx.eq((len(t), t.is_empty(), bool(t)), (len(m), not m, bool(m)), f"{what}: size")
    ctx.eq(plain(list(t)), sorted(m, key=key), f"{what}: iteration")
    lo, hi = (min(x[0] for x in m), max(x[1] for x in m)) if m else (0, 0)
    ctx.eq((t.begin(), t.end(), t.span(), tuple(t.range())[:2]), (lo, hi, hi - lo, (lo, hi)), f"{what}: bounds")
    ctx.check(0 <= t.score() <= 1, f"{what}: score {t.score()}")
    if len(t) > 2:
        full = t.score(True)
        ctx.eq((full["_cumulative"], t.score(full_report=False)), (max(v for k, v in full.items() if k != "_cumulative"),) * 2, f"{what}: report of the score")
    with contextlib.redirect_stdout(io.StringIO()):
        t.verify()


def ask(ctx, t, m, a, b, what):
    ends = sorted({e for x in m for e in x[:2]})
    points = sorted(set(PROBES + ends + [a, b] + [(p + q) / 2 for p, q in zip(ends, ends[1:])]))
    for p in points:
        want = sorted(at(m, p), key=key)
        ctx.eq(plain(t.at(p)), want, f"{what}: intervals at {p}")
        ctx.eq(plain(t[p]), want, f"{what}: intervals at [{p}]")
        ctx.eq((t.overlaps(p), t.overlaps_point(p)), (bool(want),) * 2, f"{what}: any at {p}")
    for e in ends:      # from a little before a bound to a little after it
        for p, q in ((e - 1e-3, e + 1e-3), (e - 1e-3, e), (e, e + 1e-3), (e - 300, e + 1e-3)):
            want = sorted((x for x in m if overlap(x, p, q)), key=key)
            ctx.eq((plain(t.overlap(p, q)), t.overlaps_range(p, q)), (want, bool(want)), f"{what}: overlap with [{p}, {q})")
    want = sorted((x for x in m if a < b and overlap(x, a, b)), key=key)
    ctx.eq(plain(t.overlap(a, b)), want, f"{what}: overlap with [{a}, {b})")
    ctx.eq(plain(t[a:b]), want, f"{what}: [{a}:{b}]")
    ctx.eq((t.overlaps(a, b), t.overlaps_range(a, b), t.overlaps(I(a, b))), (bool(want),) * 3, f"{what}: any overlap with [{a}, {b})")
    ctx.eq(plain(t.overlap(I(a, b, "z"))), want, f"{what}: overlap with an interval")
    inside = sorted((x for x in m if a < b and a <= x[0] and x[1] <= b), key=key)
    ctx.eq((plain(t.envelop(a, b)), plain(t.envelop(I(a, b)))), (inside, inside), f"{what}: inside of [{a}, {b})")
    ctx.eq(plain(t[:b]), sorted((x for x in m if x[0] < b), key=key), f"{what}: [:{b}]")
    ctx.eq(plain(t[a:]), sorted((x for x in m if x[1] > a), key=key), f"{what}: [{a}:]")
    ctx.eq(plain(t[:]), sorted(m, key=key), f"{what}: [:]")
    for x in m:
        ctx.check(iv(x) in t and t.containsi(*x), f"{what}: {x} is not in the tree")
        y = (x[0], x[1], "other")
        ctx.eq((iv(y) in t, t.containsi(*y)), (y in m,) * 2, f"{what}: {y} in the tree")
    nested = {}
    for x in m:
        for y in m:
            # of two intervals of one length (as floats) either may be the parent
            if x[0] <= y[0] and y[1] <= x[1] and x[1] - x[0] != y[1] - y[0]:
                nested.setdefault(x, set()).add(y)
    got = {(p.begin, p.end, p.data): {(c.begin, c.end, c.data) for c in cs if c.length() != p.length()} for p, cs in t.find_nested().items()}
    ctx.eq({k: v for k, v in got.items() if v}, nested, f"{what}: nested intervals")


def check_tree(case, ctx):
    t, m = Tree(), set()
    for step, op in enumerate(case["ops"]):
        kind, arg = op[0], op[1:]
        what = f"step {step} {kind}"
        if kind == "new":
            m = {tuple(x) for x in arg[0]}
            t = Tree(iv(x) for x in arg[0]) if arg[1] else Tree.from_tuples([tuple(x) for x in arg[0]])
        elif kind == "add":
            x = tuple(arg[0])
            {"add": lambda: t.add(iv(x)), "append": lambda: t.append(iv(x)), "addi": lambda: t.addi(*x), "appendi": lambda: t.appendi(*x),
             "set": lambda: t.__setitem__(slice(x[0], x[1]), x[2])}[arg[1]]()
            m = m | {x}
        elif kind == "twin":        # the range of one that is there, of other data
            for i, data in arg[0]:
                if m:
                    x = sorted(m, key=key)[i % len(m)][:2] + (data,)
                    t.add(iv(x))
                    m = m | {x}
        elif kind == "next":        # one that begins a distance after the end of another, or a little less or more
            i, d, e, width, data = arg
            if m:
                x = sorted(m, key=key)[i % len(m)][1] + d + e
                x = (x, x + width, data)
                t.add(iv(x))
                m = m | {x}
        elif kind == "update":
            t.update(iv(x) for x in arg[0])
            m = m | {tuple(x) for x in arg[0]}
        elif kind in ("remove", "discard"):
            x = sorted(m, key=key)[arg[1] % len(m)] if m and arg[1] is not None else tuple(arg[0])
            fn = {"remove": [lambda: t.remove(iv(x)), lambda: t.removei(*x)], "discard": [lambda: t.discard(iv(x)), lambda: t.discardi(*x)]}[kind][arg[2]]
            if x in m or kind == "discard":
                fn()
            else:
                ctx.raises(ValueError, fn, f"{what} {x}")
            m = m - {x}
        elif kind == "overlap":
            a, b = arg[0], arg[1]
            if b is None:
                t.remove_overlap(a) if not arg[2] else t.__delitem__(a)
                m = m - set(at(m, a))
            else:
                t.remove_overlap(a, b)
                m = {x for x in m if a >= b or not overlap(x, a, b)}
        elif kind == "envelop":
            a, b = arg
            t.remove_envelop(a, b)
            m = {x for x in m if a >= b or not (a <= x[0] and x[1] <= b)}
        elif kind == "chop":
            a, b = sorted(arg[:2])
            if a == b:
                b = a + 1
            t.chop(a, b, tag if arg[2] else None)
            out = set()
            for x in m:
                if not overlap(x, a, b):
                    out.add(x)
                    continue
                if x[0] < a:
                    out.add((x[0], a, tag(iv(x), True) if arg[2] else x[2]))
                if x[1] > b:
                    out.add((b, x[1], tag(iv(x), False) if arg[2] else x[2]))
            m = out
        elif kind == "slice":
            p = arg[0]
            t.slice(p, tag if arg[1] else None)
            out = set()
            for x in m:
                if x[0] < p < x[1]:
                    out |= {(x[0], p, tag(iv(x), True) if arg[1] else x[2]), (p, x[1], tag(iv(x), False) if arg[1] else x[2])}
                else:
                    out.add(x)
            m = out
        elif kind == "split":
            t.split_overlaps()
            ends = sorted({e for x in m for e in x[:2]})
            m = {(a, b, x[2]) for x in m for a, b in zip(ends, ends[1:]) if x[0] <= a and b <= x[1]}
        elif kind == "merge":
            how, mode, strict, distance = arg
            if how == "overlaps":
                t.merge_overlaps(strict=strict, **reducer(mode))
                m = merged(m, lambda lo, hi, x: x[0] < hi or not strict and x[0] == hi, mode)
            elif how == "equals":
                t.merge_equals(**reducer(mode))
                m = merged(m, lambda lo, hi, x: (x[0], x[1]) == (lo, hi), mode)
            elif any((y[0] - x[1] <= distance) != (y[0] <= x[1] + distance) for x in m for y in m):
                pass            # a gap that is the distance up to rounding
            else:
                apart = all(not overlap(x, y[0], y[1]) for x in m for y in m if x is not y)
                near = any(0 <= y[0] - x[1] <= distance for x in m for y in m)
                strict = strict and (apart or not near)     # which of the overlapping ones a neighbour joins is left open
                t.merge_neighbors(distance=distance, strict=strict, **reducer(mode))
                m = merged(m, lambda lo, hi, x: x[0] - hi <= distance and not (strict and x[0] < hi), mode)
        elif kind == "set":
            how, other, as_tree, picks = arg
            o = {tuple(x) for x in other} | {sorted(m, key=key)[i % len(m)] for i in picks if m}
            other = Tree(iv(x) for x in sorted(o, key=key))
            given = other if as_tree else {iv(x) for x in o}
            before = (t, set(m))
            if how in ("union", "difference", "intersection", "symmetric_difference"):
                t = getattr(t, how)(given)
            elif how in ("difference_update", "intersection_update", "symmetric_difference_update"):
                ctx.eq(getattr(t, how)(given), None, f"{what}: result")
                before = None
            elif how in ("|", "&", "-", "^"):
                t = {"|": lambda: t | given, "&": lambda: t & given, "-": lambda: t - given, "^": lambda: t ^ given}[how]()
            else:
                if how == "|=":
                    t |= given
                elif how == "&=":
                    t &= given
                elif how == "-=":
                    t -= given
                else:
                    t ^= given
                before = None
            m = {"u": m | o, "d": m - o, "i": m & o, "s": m ^ o, "|": m | o, "-": m - o, "&": m & o, "^": m ^ o}[how[0]]
            what += " " + how
            ctx.check(isinstance(t, Tree), f"{what}: gives {type(t)}")
            ctx.eq(plain(given), sorted(o, key=key), f"{what}: the other")
            if before:
                ctx.eq(plain(before[0]), sorted(before[1], key=key), f"{what}: the tree")
            ctx.eq((t <= Tree(map(iv, m)), t >= Tree(map(iv, m)), t.isdisjoint(given)), (True, True, not m & o), f"{what}: subset, superset, disjoint")
        elif kind == "copy":
            other = {"copy": lambda: t.copy(), "pickle": lambda: pickle.loads(pickle.dumps(t)), "new": lambda: Tree(t)}[arg[0]]()
            ctx.check(other == t and not other != t, f"{what}: the copy is not equal")
            t.addi(-3, -2, "more")
            ctx.check(other != t and not other == t, f"{what}: still equal after an addition")
            compare(ctx, t, m | {(-3, -2, "more")}, f"{what}, the original")
            t = other
        elif kind == "clear":
            t.clear()
            m = set()
        elif kind == "null":
            a, b = max(arg), min(arg)
            for fn in (lambda: t.addi(a, b), lambda: Tree([I(a, b)]), lambda: Tree([I(a, b)] + list(t)), lambda: Tree(list(t) + [I(a, b)]), lambda: t.update([I(a, b, 3)])):
                ctx.raises(ValueError, fn, f"{what}: interval of {a} to {b}")
        compare(ctx, t, m, what)
        if case["each"]:
            ask(ctx, t, m, *case["ask"], what)
    ask(ctx, t, m, *case["ask"], "at the end")


def check_interval(case, ctx):
    a, b, p = case["a"], case["b"], case["p"]
    x, y = iv(a), iv(b)
    null = [x.begin >= x.end, y.begin >= y.end]
    ctx.eq((x.is_null(), x.length()), (null[0], 0 if null[0] else a[1] - a[0]), "null, length")
    ctx.eq((x.contains_point(p), x.overlaps(p)), (a[0] <= p < a[1],) * 2, f"{x} contains {p}")
    hit = overlap(a, b[0], b[1])
    ctx.eq((x.overlaps(y), x.overlaps(b[0], b[1])), (hit, hit), f"{x} overlaps {y}")
    size = min(a[1], b[1]) - max(a[0], b[0]) if hit else 0
    ctx.eq((x.overlap_size(y), x.overlap_size(b[0], b[1])), (size, size), f"size of the overlap of {x} and {y}")
    ctx.eq((x.range_matches(y), x.contains_interval(y)), (tuple(a[:2]) == tuple(b[:2]), a[0] <= b[0] and b[1] <= a[1]), f"{x} and {y}: ranges")
    if not any(null):
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.eq(x.distance_to(y), max(0, b[0] - a[1], a[0] - b[1]), f"distance of {x} and {y}")
            ctx.eq(x.distance_to(p), max(0, p - a[1], a[0] - p), f"distance of {x} and {p}")
        ctx.eq((x.lt(y), x.le(y), x.gt(y), x.ge(y)), (a[1] <= b[0], a[1] <= b[1], a[0] >= b[1], a[0] >= b[0]), f"{x} against {y}")
        ctx.eq((x.lt(p), x.le(p), x.gt(p), x.ge(p)), (a[1] <= p, a[1] <= p, a[0] > p, a[0] >= p), f"{x} against {p}")
    else:
        for name in ("lt", "le", "gt", "ge"):
            ctx.raises(ValueError, lambda: getattr(x, name)(y), f"{x} {name} {y}")
    ka, kb = key(a), key(b)
    ctx.eq((x == y, x < y, x > y), (ka == kb, ka < kb, ka > kb), f"order of {x} and {y}")
    for z in (x.copy(), pickle.loads(pickle.dumps(x)), eval(repr(x), {"Interval": I})):
        ctx.eq((tuple(z), hash(z), z == x), (tuple(a), hash(x), True), f"copy of {x}")
    ctx.eq(hash(I(a[0], a[1], "q")), hash(x), "hash of the same range")


TINY = st.sampled_from([0.0, 0.0] + [s * 2.0 ** -j for s in (1, -1) for j in (20, 32, 36, 44)])
CLOSE = st.builds(lambda k, e: k / 2 + e, st.integers(0, 6), TINY)
V = st.one_of(st.integers(0, 32).map(lambda k: k / 4), st.integers(0, 8), st.integers(0, 800).map(lambda k: k / 100), st.sampled_from([0.3, 0.1 + 0.2, 0.1, 0.2]),
              CLOSE, st.integers(-16, 0).map(lambda k: k / 4))
DATA = st.sampled_from([None, None, 1, 2, "a"])
PAIR = st.tuples(V, st.one_of(st.sampled_from([0.25, 1, 2]), st.integers(1, 24).map(lambda k: k / 4), st.integers(1, 24).map(lambda k: k / 4), st.integers(8, 300)), DATA)
IV = PAIR.map(lambda t: [t[0], t[0] + t[1], t[2]])
# intervals that begin and end at few points
FEW = st.tuples(st.integers(0, 3), st.integers(1, 4), DATA).map(lambda t: [t[0] / 2, (t[0] + t[1]) / 2, t[2]])
# ... and next to these
NEAR = st.tuples(st.integers(0, 3), TINY, st.integers(1, 4), TINY, DATA).map(lambda t: [t[0] / 2 + t[1], (t[0] + t[2]) / 2 + t[3], t[4]])
IVS = st.lists(st.one_of(IV, IV, NEAR), max_size=8)


DIST = st.sampled_from([0, 0.25, 1, 2])


def merge_next(ops):
    """What was put next to another is then merged with its neighbours."""
    return [x for o in ops for x in ([o, ["merge", "neighbors", "join", o[3] > 0, o[2]]] if o[0] == "next" else [o])]


def tree(tier):
    b = st.booleans()
    op = st.one_of(
        st.tuples(st.just("new"), st.lists(IV, max_size=14), b), st.tuples(st.just("add"), IV, st.sampled_from(["add", "append", "addi", "appendi", "set"])),
        st.tuples(st.just("add"), IV, st.just("add")), st.tuples(st.just("update"), IVS),
        st.tuples(st.sampled_from(["remove", "remove", "discard"]), IV, st.one_of(st.none(), st.integers(0, 20), st.integers(0, 20)), st.integers(0, 1)),
        st.tuples(st.just("remove"), IV, st.integers(0, 20), st.integers(0, 1)),
        st.tuples(st.just("overlap"), V, st.one_of(st.none(), V), b), st.tuples(st.just("envelop"), V, V), st.tuples(st.just("chop"), V, V, b),
        st.tuples(st.just("slice"), V, b), st.tuples(st.just("split")),
        st.tuples(st.just("merge"), st.sampled_from(["overlaps", "equals", "neighbors"]), st.sampled_from([None, "join", "init"]), b, DIST),
        st.tuples(st.just("set"), st.sampled_from(["union", "difference", "intersection", "symmetric_difference", "difference_update", "intersection_update",
                                                   "symmetric_difference_update", "|", "&", "-", "^", "|=", "&=", "-=", "^="]), IVS, b,
                  st.lists(st.integers(0, 20), max_size=8)),
        st.tuples(st.just("twin"), st.lists(st.tuples(st.integers(0, 20), DATA).map(list), min_size=1, max_size=4)),
        st.tuples(st.just("next"), st.integers(0, 20), DIST, TINY, st.sampled_from([0.5, 2]), DATA),
        st.tuples(st.just("copy"), st.sampled_from(["copy", "pickle", "new"])), st.tuples(st.just("copy"), st.just("copy")), st.tuples(st.just("copy"), st.just("clear")).map(lambda x: x[1:]),
        st.tuples(st.just("null"), V, V)).map(list)
    clear = st.tuples(st.just("clear")).map(list)
    ops = st.tuples(st.one_of(st.tuples(st.just("new"), st.lists(IV, min_size=4, max_size=20), b).map(list), st.tuples(st.just("new"), st.lists(st.one_of(FEW, FEW, IV), min_size=4, max_size=20), b).map(list),
                              st.tuples(st.just("new"), st.lists(st.one_of(NEAR, FEW), min_size=2, max_size=10), b).map(list), clear), gen.history(op, 10 if tier == "quick" else 40)).map(lambda t: [t[0]] + merge_next(t[1]))
    return st.fixed_dictionaries({"ops": ops, "ask": st.one_of(st.tuples(V, V), st.tuples(V, V).map(sorted)).map(list), "each": st.sampled_from([True, False, False])})


def interval(tier):
    any_ = st.tuples(V, V, DATA).map(list)
    one = st.one_of(IV, NEAR, NEAR, any_)
    return st.fixed_dictionaries({"a": one, "b": one, "p": V})


# a set of intervals most of which hold the middle begin: few are left for one side
LOPSIDED = [(0.0, 1.0, None), (0.0, 1.0, 2), (0.0, 2.0, None), (0.25, 2.25, None), (0.75, 1.0, None), (1.0, 1.25, None), (2.0, 2.25, None),
            (0.0, 1.0, 1), (0.25, 1.25, None), (0.5, 0.75, None), (1.0, 1.25, 1), (0.3, 0.55, None), (0.5, 1.0, None)]


def check_balance(case, ctx):
    m = {x for x in map(tuple, case["ivs"]) if x[0] < x[1]}
    t = Tree(map(iv, m))
    compare(ctx, t, m, "new")
    for step, (add, x) in enumerate(case["ops"]):
        x = (x[0], x[1], f"d{step}") if add or not m else sorted(m, key=key)[int(x[0] * 4) % len(m)]
        if add:
            t.add(iv(x))
        else:
            t.discard(iv(x))
        m = m | {x} if add else m - {x}
        compare(ctx, t, m, f"step {step}")


def balance(tier):
    def around(turns):
        out = []
        for rep, keep, da, db in turns:
            for i, (a, b, d) in enumerate(LOPSIDED):
                if keep >> i & 1:
                    out.append([a + rep * 2 + (da[i % len(da)] if da else 0), b + rep * 2 + (db[i % len(db)] if db else 0), d])
        return out
    step = st.sampled_from([0, 0, 0, 0.25, -0.25, 0.5])
    turn = st.tuples(st.integers(0, 2), st.one_of(st.integers(0, 8191), st.sampled_from([8191 - (1 << i) for i in range(13)]), st.just(8191)), st.lists(step, max_size=13), st.lists(step, max_size=13))
    op = st.tuples(st.booleans(), FEW).map(list)
    return st.fixed_dictionaries({"ivs": st.lists(turn, min_size=1, max_size=4).map(around), "ops": st.lists(op, max_size=6)})


def long(tier):
    """Many intervals, most of which hold one point."""
    def vary(x, rnd):
        if rnd.random() < 0.4:
            a, b = rnd.randint(-40, 7) / 4, rnd.randint(9, 60) / 4
        else:
            a = rnd.randint(-40, 60) / 4
            b = a + rnd.randint(1, 40) / 4
        return [a, b, rnd.choice([None, rnd.randint(0, 99)])]
    # a span that holds or meets all of them, or a point that most of them hold
    sweep = st.one_of(st.tuples(st.just("envelop"), st.just(-20.0), st.just(40.0)), st.tuples(st.just("chop"), st.just(-20.0), st.just(40.0), st.just(False)), st.tuples(st.just("overlap"), st.just(8.0), st.sampled_from([None, 8.5, 40.0]), st.just(False)))
    return st.builds(lambda c, m, s: dict(c, each=False, ops=[["new", m, True]] + (c["ops"][1:4] + [s] + c["ops"][4:6] if s else c["ops"][1:6])), tree(tier), gen.many(IV, 140, 50, vary), st.one_of(st.none(), sweep.map(list)))


SUBS = [
    Sub("long", check_tree, long, quick=12, thorough=300, shards=2, nontrivial=lambda c: len(c["ops"]) >= 2, rule="fifty intervals or more, and an operation"),
    Sub("lopsided", check_balance, cases=lambda tier: [{"ivs": [list(x) for x in LOPSIDED], "ops": [[True, [-3.0, -2.0, None]]]}], nontrivial=lambda c: True,
        rule="intervals most of which hold one point"),
    Sub("balance", check_balance, balance, quick=1200, thorough=40000, shards=4, nontrivial=lambda c: len(c["ivs"]) > 6, rule="more than six intervals about one point"),
    Sub("tree", check_tree, tree, quick=900, thorough=40000, shards=6, nontrivial=lambda c: len(c["ops"]) >= 3 and len(c["ops"][0]) > 1 and len(c["ops"][0][1]) >= 4, rule="three or more operations on four or more intervals"),
    Sub("interval", check_interval, interval, quick=1500, thorough=40000, nontrivial=lambda c: c["a"][:2] != c["b"][:2], rule="two intervals of different range"),
]

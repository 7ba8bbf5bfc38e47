"""C15: dictionaries that keep their keys in order, intervals, and dictionaries of intervals."""
import copy
import pickle

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from neural_graph_composer.midi.Interval import Interval
from neural_graph_composer.midi.sorted_dict import SortedDict
from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict

PROPERTY = "C15"
ASSUMPTIONS = ["keys of one dictionary can be compared with each other", "the bounds of an interval are in order, as documented"]


def compare(ctx, d, m, what):
    want = sorted(m.items())
    keys = [k for k, _ in want]
    ctx.eq(list(d), keys, f"{what}: iteration")
    ctx.eq(list(d.keys()), keys, f"{what}: keys")
    ctx.eq(list(d.items()), want, f"{what}: items")
    ctx.eq(list(d.values()), [v for _, v in want], f"{what}: values")
    ctx.eq(len(d), len(m), f"{what}: length")
    ctx.eq(bool(d), bool(m), f"{what}: truth")
    if isinstance(d, SortedDict):
        ctx.eq(list(reversed(d)), keys[::-1], f"{what}: reversed keys")
        ctx.eq(dict(d), m, f"{what}: plain dictionary of it")
        ctx.check(d == m and not (d != m), f"{what}: {d!r} is not equal to {m!r}")


def key_of(case, k):
    kind = case["kind"]
    return {"int": lambda: k, "str": lambda: f"{k:03d}", "tuple": lambda: (k % 3, k), "float": lambda: k / 4, "fine": lambda: 2 + k * 1e-9,
            "big": lambda: 10 ** 15 + k}[kind]()


def check_dict(case, ctx):
    K = lambda k: key_of(case, k)
    start = [(K(k), v) for k, v in case["start"]]
    d, m = SortedDict(start), dict(start)
    compare(ctx, d, m, "made of pairs")
    compare(ctx, SortedDict(m), m, "made of a dictionary")
    twin = SortedDict(sorted(m.items(), reverse=True))
    ctx.check(d == twin and not (d != twin), f"dictionaries of the same items in another order differ: {d!r}, {twin!r}")
    for step, op in enumerate(case["ops"]):
        what = f"step {step} {op[0]}"
        name, k = op[0], K(op[1])
        other = None
        if name == "set":
            d[k] = op[2]
            m[k] = op[2]
        elif name == "setdefault":
            ctx.eq(d.setdefault(k, op[2]), m.setdefault(k, op[2]), what)
        elif name == "get":
            ctx.eq(d.get(k, "none"), m.get(k, "none"), what)
            ctx.eq(k in d, k in m, what)
            if k in m:
                ctx.eq(d[k], m[k], what)
            else:
                ctx.raises(KeyError, lambda: d[k], what)
        elif name == "del":
            if k in m:
                del d[k]
                del m[k]
            else:
                ctx.raises(KeyError, lambda: d.__delitem__(k), what)
        elif name == "pop":
            if k in m or op[2] % 2:
                ctx.eq(d.pop(k, "gone"), m.pop(k, "gone"), what)
            else:
                ctx.raises(KeyError, lambda: d.pop(k), what)
        elif name == "popitem":
            last = bool(op[2] % 2)
            if m:
                want = (max if last else min)(m)
                ctx.eq(d.popitem(last) if op[2] > 5 or not last else d.popitem(), (want, m.pop(want)), what)
            else:
                ctx.raises(KeyError, d.popitem, what)
        elif name == "clear":
            d.clear()
            m.clear()
        elif name == "update":
            more = {K(a): b for a, b in op[2]}
            d.update(more)
            m.update(more)
        elif name == "or":
            more = {K(a): b for a, b in op[2]}
            compare(ctx, d | more, {**m, **more}, what)
            d |= more
            m |= more
        elif name == "copy":
            other = [d.copy, lambda: copy.copy(d), lambda: copy.deepcopy(d), lambda: pickle.loads(pickle.dumps(d))][op[2] % 4]()
            ctx.check(type(other) is SortedDict and other == d, f"{what}: a copy is not equal to its source")
            compare(ctx, other, m, what)
        elif name == "walk":
            for x in d.keys():                # the keys are a list of the caller's own
                if x > k:
                    del d[x]
                    del m[x]
        compare(ctx, d, m, what)
        if other is not None:
            seen = dict(m)
            other[k] = "edited"
            if m:
                del other[min(m)]
            compare(ctx, d, seen, f"{what}: after an edit of the copy")
    extra = d.keys()
    extra.append("x")
    compare(ctx, d, m, "after an edit of the list of keys")


def iv(x):
    return Interval(min(x), max(x))


def check_intervals(case, ctx):
    vs = [iv(x) for x in case["ivs"]]
    pairs = [(min(x), max(x)) for x in case["ivs"]]
    for a, p in zip(vs, pairs):
        ctx.eq((a.start, a.end), p, "bounds")
        for t in case["points"]:
            ctx.eq(t in a, p[0] <= t <= p[1], f"{t} in {a}")
        ctx.raises(AttributeError, lambda: setattr(a, "start", 1), "a frozen interval was changed")
        ctx.check(a != p and not (a == p), "an interval equals a tuple")
        for b, q in zip(vs, pairs):
            common = max(p[0], q[0]), min(p[1], q[1])
            ctx.eq(a.overlaps(b), common[0] <= common[1], f"{a} overlaps {b}")
            got = a.intersection(b)
            ctx.eq(None if got is None else (got.start, got.end), common if common[0] <= common[1] else None, f"intersection of {a} and {b}")
            u = a.union(b)
            ctx.eq((u.start, u.end), (min(p[0], q[0]), max(p[1], q[1])), f"union of {a} and {b}")
            ctx.eq((a < b, a <= b, a > b, a >= b, a == b, a != b), (p < q, p <= q, p > q, p >= q, p == q, p != q), f"order of {a} and {b}")
            if p == q:
                ctx.eq(hash(a), hash(b), "hashes of equal intervals")
    ctx.eq([(a.start, a.end) for a in sorted(vs)], sorted(pairs), "sorted intervals")
    ctx.eq(len(set(vs)), len(set(pairs)), "intervals in a set")


def check_interval_dict(case, ctx):
    start = {iv(x): v for x, v in case["start"]}
    d, m = SortedIntervalDict(start), dict(start)
    compare(ctx, d, m, "new")
    for step, op in enumerate(case["ops"]):
        what = f"step {step} {op[0]}"
        if op[0] == "set":
            d[iv(op[1])] = op[2]
            m[iv(op[1])] = op[2]
        elif op[0] == "get":
            k = iv(op[1])
            ctx.eq(d.get(k), m.get(k), what)
            ctx.eq(k in d, k in m, what)
        elif op[0] == "window":
            lo, hi = op[1]
            a, b = (float("-inf") if lo is None else lo), (float("inf") if hi is None else hi)
            if a <= b:
                got = d[lo:hi]
                ctx.check(type(got) is SortedIntervalDict, f"{what}: a window is a {type(got).__name__}")
                compare(ctx, got, {k: v for k, v in m.items() if max(k.start, a) <= min(k.end, b)}, f"{what} {op[1]}")
                got[Interval(-9, -8)] = 1
        elif op[0] == "del":
            k = iv(op[1])
            if k in m:
                del d[k]
                del m[k]
            else:
                ctx.raises(KeyError, lambda: d.__delitem__(k), what)
        elif op[0] == "cut":
            for k in sorted(m)[slice(*op[1])]:
                del m[k]
            del d[slice(*op[1])]
        elif op[0] == "pop":
            ctx.eq(d.pop(iv(op[1]), None), m.pop(iv(op[1]), None), what)
        elif op[0] == "popitem" and m:
            k, v = d.popitem()
            ctx.eq(m.pop(k), v, what)
        elif op[0] == "update":
            more = {iv(x): 7 for x in op[1]}
            d.update(more)
            m.update(more)
        elif op[0] == "clear":
            d.clear()
            m.clear()
        elif op[0] == "bad":
            for fn in (lambda: d[3], lambda: d.__setitem__((1, 2), 0), lambda: d.__delitem__("a")):
                ctx.raises(KeyError, fn, what)
        compare(ctx, d, m, what)
        ctx.check(d == m, f"{what}: {d!r} is not equal to {m!r}")


# values of a dictionary may be anything: nothing among them
VALUE = st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from([None, None, 0, "", "a"]))
NUM = st.one_of(st.integers(0, 8), st.integers(0, 40))


def dicts(tier):
    some = st.lists(st.tuples(NUM, VALUE).map(list), max_size=6)
    op = st.one_of(st.tuples(st.sampled_from(["set", "set", "set", "setdefault"]), NUM, VALUE),
                   st.tuples(st.sampled_from(["get", "del", "del", "pop", "popitem", "copy", "walk"]), NUM, st.integers(0, 9)),
                   st.tuples(st.sampled_from(["update", "or"]), NUM, some), st.tuples(st.just("clear"), NUM))
    return st.fixed_dictionaries({"kind": st.sampled_from(["int", "str", "tuple", "float", "fine", "big"]), "start": some,
                                  "ops": gen.history(op.map(list), 20 if tier == "quick" else 80)})


# bounds may be apart by less than any time that can be heard, or be ticks of a very long piece
FINE = st.one_of(st.tuples(st.integers(0, 3), st.sampled_from([1e-4, 1e-6, 1e-8, 1e-12]), st.integers(-2, 2)).map(lambda x: x[0] + x[1] * x[2]),
                 st.integers(-2, 2).map(lambda k: 10 ** 12 + k))
BOUND = st.one_of(st.integers(0, 6), st.integers(-20, 20), st.integers(-8, 24).map(lambda k: k / 4), FINE)
IV = st.tuples(BOUND, BOUND).map(list)


def intervals(tier):
    return st.fixed_dictionaries({"ivs": st.lists(IV, min_size=1, max_size=6), "points": st.lists(BOUND, max_size=5)})


def interval_dicts(tier):
    open_ = st.tuples(st.one_of(st.none(), BOUND), st.one_of(st.none(), BOUND)).map(list)
    pos = st.one_of(st.none(), st.integers(-4, 6))
    op = st.one_of(st.tuples(st.just("set"), IV, VALUE), st.tuples(st.just("set"), IV, VALUE),
                   st.tuples(st.sampled_from(["get", "del", "pop"]), IV), st.tuples(st.just("window"), open_), st.tuples(st.just("window"), open_),
                   st.tuples(st.just("cut"), st.one_of(st.tuples(pos, pos), st.tuples(pos, pos, st.sampled_from([None, 1, 2, 3, -1, -2]))).map(list)), st.tuples(st.sampled_from(["popitem", "clear", "bad"])),
                   st.tuples(st.just("update"), st.lists(IV, max_size=4)))
    return st.fixed_dictionaries({"start": st.lists(st.tuples(IV, VALUE).map(list), max_size=6),
                                  "ops": gen.history(op.map(list), 12 if tier == "quick" else 50)})


def long(tier):
    start = gen.many(st.tuples(NUM, VALUE).map(list), 200, 50, lambda x, rnd: [rnd.randint(0, 400), x[1]])
    ivs = gen.many(st.tuples(IV, VALUE).map(list), 120, 50, lambda x, rnd: [[rnd.randint(-80, 80) / 4, rnd.randint(-80, 80) / 4], x[1]])
    cut = lambda c: dict(c, ops=c["ops"][:10])
    return st.one_of(gen.with_many(dicts(tier), start=start).map(cut), gen.with_many(interval_dicts(tier), start=ivs).map(cut))


SUBS = [
    Sub("long", lambda case, ctx: (check_dict if "kind" in case else check_interval_dict)(case, ctx), long, quick=25, thorough=500, shards=2,
        nontrivial=lambda c: len(c["start"]) >= 50, rule="fifty entries or more"),
    Sub("dict", check_dict, dicts, quick=1250, thorough=12000, shards=2, nontrivial=lambda c: len(c["ops"]) >= 4 and {"set", "del"} & {o[0] for o in c["ops"]},
        rule="four or more operations, one of which sets or deletes a key"),
    Sub("interval", check_intervals, intervals, quick=750, thorough=8000, nontrivial=lambda c: len(c["ivs"]) >= 2, rule="two or more intervals compared pairwise"),
    Sub("interval_dict", check_interval_dict, interval_dicts, quick=750, thorough=8000,
        nontrivial=lambda c: any(o[0] == "window" for o in c["ops"]) and len(c["start"]) >= 2, rule="a window into two or more intervals"),
]

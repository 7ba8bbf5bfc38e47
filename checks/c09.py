"""C09: slices, splits, extracts and truncations of a sequence."""
from hypothesis import strategies as st

from pbt import gen
from pbt import notes as N
from pbt.core import Sub

PROPERTY = "C09"
ASSUMPTIONS = ["notes carry the instrument and the drum flag of their sequence",
               "times lie on a grid of 1/16 s, some of them a small power of two (down to 2^-30 s) beside it (exact in binary), so that boundary cases are exact"]

# a bound beside a point of the grid: the notes that begin or end there are only just inside, or only just outside
BESIDE = st.builds(lambda t, k, up: max(0.0, t + (1 if up else -1) * 2.0 ** -k), N.TIME, st.one_of(st.integers(5, 12), st.integers(13, 30)), st.booleans())
BOUND = st.one_of(N.TIME, N.TIME, BESIDE)


def clip(f, lo, hi, shift=0.0):
    """The fact of a note cut at hi and moved by -shift."""
    return f[:2] + (f[2] - shift, min(f[3], hi) - shift) + f[4:]


def inside(f, lo, hi):
    return lo <= f[2] < hi


def same_kind(ctx, got, s, what):
    ctx.eq((got.instrument.instrument_num, got.instrument.name, got.instrument.is_drum),
           (s.instrument.instrument_num, s.instrument.name, s.instrument.is_drum), f"instrument of {what}")
    ctx.eq(got.resolution, s.resolution, f"resolution of {what}")


def by_start(facts):
    return sorted(facts, key=lambda f: f[2])


def refused(fn):
    try:
        fn()
    except (ValueError, TypeError, AssertionError):
        return True
    return False


def make(case):
    late = min(case["late"], len(case["notes"]))
    first = case["notes"][:len(case["notes"]) - max(late, 0)]
    s = N.sequence(case["ins"], first, resolution=case["res"])
    if late == -2:
        s = N.sequence(case["ins"], [[(n[0] + 1) % 128, n[1], 32.0 - min(n[2], 31.0)] + list(n[3:]) for n in first], resolution=case["res"])
    elif late < 0 and first:
        s.shift_times(1.0)
    if late:        # it was cut before the last notes came, or while its notes were others or later: what was made of it then says nothing about it now
        for ask in (lambda: s.slice(case["lo"], case["hi"]), lambda: s.truncate(case["hi"]), lambda: s.extract(sorted(case["cuts"])),
                    lambda: s.split(case["span"] or list(case["at"]), skip_boundary=case["skip"])):
            try:
                ask()
            except (KeyError, ValueError, TypeError, AssertionError):
                pass
        if late == -2:
            s.notes = [N.mk(n, case["ins"][0], case["ins"][1]) for n in first]
        elif late < 0 and first:
            s.shift_times(-1.0)
        for n in case["notes"][len(first):]:
            s.add_note(N.mk(n, case["ins"][0], case["ins"][1]))
    if case["total"]:
        s.total_time = s.total_time + case["total"]
    return s


def untouched(ctx, s, facts, total, parts, what):
    ctx.eq(N.facts(s), facts, f"notes of the original after {what}")
    ctx.eq(s.total_time, total, f"total time of the original after {what}")
    mine = {id(n) for n in s.notes}
    for p in parts:
        ctx.check(not mine & {id(n) for n in p.notes}, f"{what} shares its notes with the original")
    for p in parts:                                  # an edit of a part is not an edit of the original
        for n in p.notes:
            n.shift_time(1.0)
        p.notes.clear()
    ctx.eq(N.facts(s), facts, f"notes of the original after an edit of {what}")
    ctx.eq(s.total_time, total, f"total time of the original after an edit of {what}")


def check_slice(case, ctx):
    s = make(case)
    facts, total = N.facts(s), s.total_time
    lo, hi = case["lo"], case["hi"]
    p = s.slice(lo, hi)
    ctx.eq(N.facts(p), [clip(f, lo, hi) for f in facts if inside(f, lo, hi)], f"slice from {lo} to {hi}")
    ctx.eq(p.total_time, min(total, hi), "total time of a slice")
    same_kind(ctx, p, s, "a slice")
    # consecutive windows share the notes out
    cuts = sorted({lo, hi, *case["cuts"]})
    parts = [s.slice(a, b) for a, b in zip(cuts, cuts[1:])]
    for a, b, q in zip(cuts, cuts[1:], parts):
        ctx.eq(N.facts(q), [clip(f, a, b) for f in facts if inside(f, a, b)], f"slice from {a} to {b}")
    again = p.slice(lo, hi)
    ctx.eq(N.facts(again), N.facts(p), "slice of a slice")
    if facts:
        ctx.check(refused(lambda: s.slice(lo, hi, is_strict=True)), "a strict slice of a sequence that is not quantized was made")
    untouched(ctx, s, facts, total, [p, again] + parts, "a slice")
    # truncation keeps the notes that have ended
    t = s.truncate(hi)
    ctx.eq(N.facts(t), [f for f in facts if f[3] <= hi], f"truncation at {hi}")
    ctx.eq(t.total_time, min(total, hi), "total time of a truncation")
    same_kind(ctx, t, s, "a truncation")
    untouched(ctx, s, facts, total, [t], "a truncation")


def check_extract(case, ctx):
    s = make(case)
    facts, total = N.facts(s), s.total_time
    times = sorted(case["cuts"])
    if not facts or len(times) < 2 or times[-2] >= total:
        ctx.check(refused(lambda: s.extract(times)), f"extract({times}) of a sequence of {len(facts)} notes that ends at {total} was not refused")
        untouched(ctx, s, facts, total, [], "a refused extract")
        return
    parts = s.extract(times)
    ctx.eq(len(parts), len(times) - 1, "number of parts")
    for a, b, p in zip(times, times[1:], parts):
        want = [clip(f, a, b, a) for f in by_start(facts) if inside(f, a, b)]
        ctx.eq(N.facts(p), want, f"part from {a} to {b}")
        ctx.eq(p.total_time, max([f[3] for f in want], default=0.0), f"total time of the part from {a} to {b}")
        same_kind(ctx, p, s, "a part")
    if len(set(times)) > 1 and times[0] != times[-1]:
        ctx.check(refused(lambda: s.extract(times[::-1])), "unsorted split times were accepted")
    untouched(ctx, s, facts, total, parts, "an extract")


def check_split(case, ctx):
    s = make(case)
    facts, total = N.facts(s), s.total_time
    if case["span"]:
        arg = case["span"]
        points, t = [], arg
        while t < total:
            points.append(t)
            t += arg
    else:
        arg = list(case["at"])
        points = sorted(t for t in arg if t < total)
    skip = case["skip"]
    if skip:
        points = [t for t in points if not any(f[2] < t < f[3] for f in facts)]
    if not facts:
        return
    marks = [0.0] + points + [total]
    parts = s.split(arg, skip_boundary=skip)
    ctx.eq(len(parts), len(marks) - 1, f"number of parts of a split at {points}")
    seen = 0
    for a, b, p in zip(marks, marks[1:], parts):
        want = [clip(f, a, b, a) for f in by_start(facts) if inside(f, a, b)]
        ctx.eq(N.facts(p), want, f"part from {a} to {b}")
        ctx.eq(p.total_time, max([f[3] for f in want], default=0.0), f"total time of the part from {a} to {b}")
        same_kind(ctx, p, s, "a part")
        seen += len(want)
    ctx.eq(seen, len(facts), "notes of all parts")
    if skip:
        back = [clip(f, 0, 1e9, -a) for a, p in zip(marks, parts) for f in N.facts(p)]
        ctx.eq(sorted(back), sorted(facts), "the notes of the parts put back in place")
    untouched(ctx, s, facts, total, parts, "a split")


def common(tier):
    top = 10 if tier == "quick" else 40
    return dict(ins=N.INSTRUMENT, notes=gen.history(N.note(), top), res=st.sampled_from([220, 480, 96]),
                total=st.sampled_from([0, 0, 0, 0.5, 3.0]), late=st.sampled_from([0, 0, 0, 1, 3, -1, -2]))


# [note, its end and not its start, exponent, side]: a bound beside a note, wherever that is
NEAR = st.one_of(st.none(), st.tuples(st.integers(0, 9), st.booleans(), st.one_of(st.integers(5, 30), st.integers(16, 24)), st.sampled_from([-1, 0, 1])).map(list))


def beside(case, near, key):
    if near and case["notes"]:
        n = case["notes"][near[0] % len(case["notes"])]
        t = max(0.0, n[2] + (n[3] if near[1] else 0) + near[3] * 2.0 ** -near[2])
        if isinstance(case[key], list):
            if t not in case[key] and t > 0:
                case[key].append(t)
        else:
            case[key] = t
    return case


def slices(tier):
    w = st.one_of(BOUND, st.sampled_from([0.0, 0.5, 1.0]))
    return st.builds(lambda c, a, b: beside(beside(c, a, "lo"), b, "hi"), slices_(tier, w), NEAR, NEAR)


def slices_(tier, w):
    return st.fixed_dictionaries(dict(common(tier), lo=w, hi=w, cuts=st.lists(BOUND, max_size=4)))


def extracts(tier):
    return st.builds(lambda c, a: beside(c, a, "cuts"), extracts_(tier), NEAR)


def extracts_(tier):
    return st.fixed_dictionaries(dict(common(tier), cuts=st.one_of(st.lists(BOUND, max_size=6), st.lists(BOUND, max_size=6), st.lists(BOUND, min_size=8, max_size=40))))


def splits(tier):
    return st.builds(lambda c, a: beside(c, a, "at"), splits_(tier), NEAR)


def splits_(tier):
    return st.fixed_dictionaries(dict(common(tier), skip=st.booleans(),
                                      span=st.one_of(st.none(), st.integers(1, 32).map(lambda k: k / 16)),
                                      at=st.one_of(st.lists(BOUND.filter(lambda t: t > 0), max_size=5, unique=True), st.lists(BOUND.filter(lambda t: t > 0), max_size=5, unique=True),
                                                   st.lists(BOUND.filter(lambda t: t > 0), min_size=8, max_size=40, unique=True))))


def long(tier):
    some = st.one_of(N.many(), N.many(top=60, low=0))
    marks = gen.many(BOUND, 120, 50, lambda x, rnd: rnd.randint(1, 200) / 16).map(lambda m: sorted(set(m)))
    of = lambda kind, base, **kw: gen.with_many(base, notes=some, kind=st.just(kind), **kw)
    return st.one_of(of("slice", slices(tier)), of("extract", extracts(tier), cuts=marks), of("split", splits(tier), at=marks), of("split", splits(tier)))


def crossing(case):
    """A note sounds across one of the marks."""
    marks = list(case.get("cuts", [])) + list(case.get("at", [])) + [case.get("hi") or 0]
    if case.get("span"):
        marks += [case["span"] * k for k in range(1, 200)]
    return any(n[2] < m < n[2] + n[3] for n in case["notes"] for m in marks)


SUBS = [
    Sub("slice", check_slice, slices, quick=875, thorough=8000, nontrivial=crossing, rule="a note sounds across a bound"),
    Sub("extract", check_extract, extracts, quick=875, thorough=8000, nontrivial=crossing, rule="a note sounds across a split time"),
    Sub("long", lambda case, ctx: {"slice": check_slice, "extract": check_extract, "split": check_split}[case["kind"]](case, ctx), long, quick=40, thorough=800, shards=2,
        nontrivial=crossing, rule="fifty notes or more, one of which sounds across a bound"),
    Sub("split", check_split, splits, quick=875, thorough=8000, nontrivial=crossing, rule="a note sounds across a split point"),
]

"""Runner of the property checks: generation, oracle, shrinking, replay, evidence.

A check module (checks/<id>.py) defines

    PROPERTY, TITLE, ASSUMPTIONS, SUBS

where SUBS is a list of Sub.  A Sub holds a Hypothesis strategy whose values are plain JSON
data (the "case"), and a function check(case, ctx) that rebuilds the inputs from the case, runs
the code in the repository and raises Violation when the oracle disagrees.
"""
import argparse
import contextlib
import faulthandler
import hashlib
import importlib
import io
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


# --------------------------------------------------------------------------- environment
class _VendorFinder:
    """Lends Hypothesis (and only it) from the tool venv to the interpreter of the repository."""
    names = ("hypothesis", "_hypothesis", "sortedcontainers")

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in cls.names or top.startswith("_hypothesis")):
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [HYPOTHESIS_SITE])
        return None


def _no_stale_bytecode(repo):
    """Modules of the repository are always compiled from the source that is there now."""
    import importlib._bootstrap_external as be
    orig = be.cache_from_source
    prefix = os.path.realpath(repo) + os.sep

    def cache_from_source(path, *a, **k):
        if os.path.realpath(os.fspath(path)).startswith(prefix):
            raise NotImplementedError
        return orig(path, *a, **k)
    be.cache_from_source = cache_from_source


class Violation(Exception):
    pass


class Hang(BaseException):
    pass

# a quick run generates this many times the examples a sub-check names (it takes some 20 s on 8 cores)
QUICK_FACTOR = 2


class Sub:
    def __init__(self, name, check, strategy=None, cases=None, quick=200, thorough=None,
                 nontrivial=None, rule="", shards=None, cpu_limit=40, exhaustive=False):
        self.name = name
        self.check = check
        self.strategy = strategy        # callable(tier) -> hypothesis strategy, or None
        self.cases = cases              # callable(tier) -> iterable of explicit cases, or None
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.shards = shards
        self.cpu_limit = cpu_limit
        self.exhaustive = exhaustive


class Ctx:
    def __init__(self, known, prop):
        self._known = known
        self._prop = prop
        self.labels = {}
        self.hits = set()

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what):
        if not (got == want):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def near(self, got, want, what, tol=1e-9):
        if not (abs(got - want) <= tol):
            raise Violation(f"{what}: got {got!r}, expected {want!r} (+-{tol})")

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            return
        raise Violation(f"{what}: no {exc} was raised")

    def known(self, key):
        """True only for a finding that the committed file lists."""
        if key in self._known:
            self.hits.add(key)
            return True
        return False


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def load_known(here, prop):
    out = {}
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:"):].split(None, 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == prop:
                    out[d["key"]] = parts[2] if len(parts) > 2 else ""
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def sub_seed(seed, name, shard):
    h = hashlib.sha256(f"{seed}/{name}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big")


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def cpu_guard(limit):
    def boom(sig, frame):
        raise Hang(f"no answer after {limit} s of CPU time")
    old = signal.signal(signal.SIGPROF, boom)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_case(sub, case, ctx):
    """One evaluation: raises Violation (or Hang) when the property is broken."""
    case = json.loads(json.dumps(case))
    try:
        with quiet(), cpu_guard(sub.cpu_limit):
            sub.check(case, ctx)
    except (Violation, Hang, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:          # an escape of the code under test, or of the oracle reading its result
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        raise Violation(f"unexpected {type(e).__name__}: {short(str(e), 300)} at {where}") from e


class Worker:
    """Runs in a forked process and writes one JSON result."""

    def __init__(self, sub, tier, seed, shard, known, prop, deadline, examples=None):
        self.sub, self.tier, self.seed, self.shard = sub, tier, seed, shard
        self.known, self.prop, self.deadline, self.examples = known, prop, deadline, examples

    def run(self):
        sub = self.sub
        ctx = Ctx(self.known, self.prop)
        st = dict(name=sub.name, shard=self.shard, evaluations=0, labels={}, samples=[], failure=None,
                  error=None, keys=[], explicit=0, stopped=False, hits=[])
        keys = set()

        def one(case):
            st["evaluations"] += 1
            nt = False
            try:
                nt = bool(sub.nontrivial(case))
            except Exception:
                nt = False
            if nt:
                k = case_key(case)
                if k not in keys:
                    keys.add(k)
                    if len(st["samples"]) < 3 or (len(keys) % 97 == 0 and len(st["samples"]) < 5):
                        s = json.dumps(case)
                        st["samples"].append(case if len(s) < 1500 else s[:1500] + "...")
            run_case(sub, case, ctx)

        try:
            if sub.cases is not None and self.shard == 0:
                for case in sub.cases(self.tier):
                    st["explicit"] += 1
                    try:
                        one(case)
                    except (Violation, Hang) as e:
                        st["failure"] = dict(case=case, message=f"{type(e).__name__}: {e}")
                        break
            if st["failure"] is None and sub.strategy is not None:
                self.generate(st, one)
        except BaseException:
            st["error"] = traceback.format_exc()[-4000:]
        st["labels"] = ctx.labels
        st["hits"] = sorted(ctx.hits)
        st["keys"] = sorted(keys)
        return st

    def generate(self, st, one):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 60 if self.tier == "quick" else 180
        sub = self.sub
        last = {}
        state = {"hang": None}
        n = self.examples or (QUICK_FACTOR * sub.quick if self.tier == "quick" else sub.thorough)

        @hypothesis.seed(sub_seed(self.seed, sub.name, self.shard))
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                  report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))
        @hypothesis.given(sub.strategy(self.tier))
        def prop(case):
            if state["hang"] is not None:
                return
            if not last and time.time() > self.deadline:
                st["stopped"] = True
                return
            try:
                one(case)
            except Hang as e:               # shrinking a hang would take hours
                state["hang"] = dict(case=case, message=f"Hang: {e}")
                return
            except Violation as e:
                last["case"] = case
                last["message"] = f"Violation: {e}"
                raise
        try:
            with quiet():
                prop()
        except Violation:
            pass
        except BaseException as e:
            if not last:
                raise
            last["message"] += f" (Hypothesis: {type(e).__name__})"
        if last:
            st["failure"] = dict(case=last["case"], message=last["message"])
        elif state["hang"]:
            st["failure"] = state["hang"]


def fork_worker(worker, scratch_root):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        # every case gets its scratch space under this directory, which the parent removes
        d = tempfile.mkdtemp(dir=scratch_root)
        tempfile.tempdir = d
        os.environ["TMPDIR"] = d
        os.chdir(d)
        res = worker.run()
        with os.fdopen(w, "w") as f:
            json.dump(res, f)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


def run_pool(workers, jobs, scratch_root, limit):
    import selectors
    pending = list(workers)
    running = {}
    results = []
    sel = selectors.DefaultSelector()
    start = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            wk = pending.pop(0)
            pid, r = fork_worker(wk, scratch_root)
            os.set_blocking(r, False)
            running[r] = dict(pid=pid, worker=wk, buf=[])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(timeout=1.0):
            r = key.fd
            try:
                chunk = os.read(r, 1 << 16)
            except BlockingIOError:
                continue
            if chunk:
                running[r]["buf"].append(chunk)
                continue
            sel.unregister(r)
            os.close(r)
            info = running.pop(r)
            _, status = os.waitpid(info["pid"], 0)
            data = b"".join(info["buf"])
            if data:
                results.append(json.loads(data))
            else:
                results.append(dict(name=info["worker"].sub.name, shard=info["worker"].shard, evaluations=0,
                                    labels={}, samples=[], failure=None, keys=[], explicit=0, stopped=False, hits=[],
                                    error=f"worker ended with status {status} and no result"))
        if time.time() - start > limit:
            for r, info in running.items():
                with contextlib.suppress(ProcessLookupError):
                    os.kill(info["pid"], signal.SIGKILL)
            limit = float("inf")
    return results


def confirm(sub, case, known, prop, scratch):
    """Re-run one case in a fresh process: the message it fails with, or None."""
    w = Worker(sub, "quick", 0, 0, known, prop, 0)

    class One:
        def __init__(self):
            self.sub, self.shard = sub, 0

        def run(self):
            ctx = Ctx(known, prop)
            try:
                run_case(sub, case, ctx)
                return dict(message=None)
            except (Violation, Hang) as e:
                return dict(message=f"{type(e).__name__}: {e}")
    r = run_pool([One()], 1, scratch, 120)
    return r[0].get("message", r[0].get("error"))


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = a.property
    sys.meta_path.append(_VendorFinder)
    _no_stale_bytecode(repo)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        tempfile.tempdir = scratch
        try:
            os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(scratch, ".hypothesis"))
            with quiet():
                mod = importlib.import_module(f"checks.{prop.lower()}")
                if "torch" in sys.modules:
                    sys.modules["torch"].set_num_threads(1)
                import hypothesis    # noqa: F401  (loaded before the fork)
        except BaseException:
            traceback.print_exc()
            print(f"ERROR property={prop}: the check could not be loaded")
            return 2
        return run_property(mod, prop, a, seed, tier, here, scratch, t0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def run_property(mod, prop, a, seed, tier, here, scratch, t0):
    known = load_known(here, prop)
    subs = {s.name: s for s in mod.SUBS}
    if a.replay:
        rp = json.load(open(a.replay))
        sub = subs[rp["sub"]]
        msg = confirm(sub, rp["case"], known, prop, scratch)
        if msg:
            print(msg)
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print(f"property={prop} replay passes")
        return 0
    chosen = [s for s in mod.SUBS if not a.only or s.name in a.only.split(",")]
    budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "1500"))
    deadline = time.time() + budget
    workers = []
    for s in chosen:
        if s.strategy is None:
            shards = 1
        elif tier == "quick":
            shards = s.shards or 1
        else:
            shards = (s.shards or 1) * max(2, 16 // max(1, len(chosen)))
        for k in range(shards):
            workers.append(Worker(s, tier, seed, k, known, prop, deadline, a.examples))
    results = run_pool(workers, 8, scratch, budget + (450 if tier == "quick" else 900))
    failures = [r for r in results if r["failure"]]
    errors = [r for r in results if r["error"]]

    # known findings: their deterministic witness still fails
    kf_lines = []
    for key, text in known.items():
        wit = getattr(mod, "WITNESS", {}).get(key)
        if wit is None:
            continue
        sub_name, case = wit
        msg = confirm(subs[sub_name], case, {}, prop, scratch)
        if msg:
            kf_lines.append(f"KNOWN-FINDING: property={prop} {text}")
    rc = 0
    violations = 0
    if failures:
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        failures.sort(key=lambda r: len(json.dumps(r["failure"]["case"])))
        seen = set()
        for r in failures:
            if r["name"] in seen:
                continue
            seen.add(r["name"])
            f = r["failure"]
            path = os.path.join(here, "replays", f"{prop}-{r['name']}.json")
            again = confirm(subs[r["name"]], f["case"], known, prop, scratch)
            json.dump(dict(property=prop, sub=r["name"], case=f["case"], message=f["message"],
                           again=again, seed=seed, tier=tier), open(path, "w"), indent=1)
            print(f"{prop}/{r['name']}: {short(f['message'], 1500)}")
            if again is None:
                print(f"{prop}/{r['name']}: (the stored case passed when it was run again on its own)")
            print(f"VIOLATION property={prop} replay={path}")
            violations += 1
        rc = 1
    elif errors:
        for r in errors:
            print(f"ERROR {prop}/{r['name']}: {r['error']}")
        rc = 2
    for line in kf_lines:
        print(line)
    if not a.no_evidence:
        write_evidence(mod, prop, tier, seed, here, results, chosen, violations, t0)
    ev = sum(r["evaluations"] for r in results)
    nt = len({(r["name"], k) for r in results for k in r["keys"]})
    stopped = sorted({r["name"] for r in results if r["stopped"]})
    print(f"property={prop} tier={tier} seed={seed} cases={ev} distinct_nontrivial={nt} "
          f"violations={violations} wall={time.time() - t0:.1f}s" + (f" budget reached in {stopped}" if stopped else ""))
    return rc


def write_evidence(mod, prop, tier, seed, here, results, chosen, violations, t0):
    per = {}
    for r in results:
        p = per.setdefault(r["name"], dict(evaluations=0, keys=set(), labels={}, explicit=0, stopped=False, samples=[]))
        p["evaluations"] += r["evaluations"]
        p["explicit"] += r["explicit"]
        p["stopped"] |= r["stopped"]
        p["keys"].update(r["keys"])
        p["samples"] += r["samples"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
    rules = "; ".join(f"[{s.name}] {s.rule}" for s in chosen if s.rule)
    samples = []
    for name, p in per.items():
        for s in p["samples"][:2]:
            samples.append({"sub_check": name, "case": s})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=sum(len(p["keys"]) for p in per.values()),
            rule="Cases are drawn by Hypothesis strategies seeded from VERIF_SEED (plus the explicit cases counted "
                 "as explicit); distinct means a different canonical JSON. Non-trivial per sub-check: " + rules,
            samples=samples,
            sub_checks={n: dict(evaluations=p["evaluations"], distinct_nontrivial=len(p["keys"]), explicit=p["explicit"],
                                labels=p["labels"], budget_reached=p["stopped"]) for n, p in per.items()},
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=violations,
    )
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    path = os.path.join(here, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)

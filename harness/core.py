"""Core of the property-based testing harness.

A property module defines a list SUBS of Sub(...) objects.  A Sub couples a
Hypothesis strategy producing JSON-serialisable cases with a pure function
``run(case, rec)`` which evaluates the code under test, compares it with an
explicit oracle and raises ``Violation`` on a mismatch.

The driver (run.py) executes every (sub, shard) in its own process, collects the
statistics and writes the evidence file.
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("MICROJAX_SRC", "/repo/src")
HYP_PATHS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def bootstrap():
    """Make the code under test and hypothesis importable; enable 64-bit JAX."""
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    for p in HYP_PATHS:
        if p not in sys.path:
            sys.path.append(p)
    import jax
    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_platforms", "cpu")


class Violation(Exception):
    """The property is broken for this case."""


class HarnessError(Exception):
    """The harness itself (its reference) could not decide: never a violation."""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, rule, shards=1, tshards=None,
                 examples=(), finalize=None, budget=420.0, tbudget=3000.0):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.tshards = shards, tshards or max(shards, 4)
        self.examples, self.finalize = list(examples), finalize
        self.budget, self.tbudget = budget, tbudget

    def nshards(self, tier):
        return self.shards if tier == "quick" else self.tshards

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def canon(x):
    return json.dumps(x, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, (np.floating, np.integer)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, complex):
        return [o.real, o.imag]
    raise TypeError(type(o))


class Recorder:
    """Counts what a run really evaluated."""

    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = 0
        self.labels = {}
        self.metrics = {}
        self.samples = []
        self.quiet = False

    def point(self, key, nontrivial, *labels):
        """One evaluated input ``key`` (anything JSON-able)."""
        if self.quiet:
            return
        self.evaluations += 1
        h = hashlib.blake2b(canon(key).encode(), digest_size=10).digest()
        if nontrivial and h not in self.seen:
            self.seen.add(h)
            self.nontrivial += 1
            n = self.nontrivial
            if len(self.samples) < 3 or (n & (n - 1)) == 0 and len(self.samples) < 12:
                self.samples.append(json.loads(canon(key)))
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1

    def label(self, l, n=1):
        if not self.quiet:
            self.labels[l] = self.labels.get(l, 0) + int(n)

    def metric(self, name, value, key=None):
        if not self.quiet:
            self.metrics.setdefault(name, []).append((float(value), key))


def call(f, *a, **k):
    """Run code under test; an exception on a valid input is a violation."""
    try:
        return f(*a, **k)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:                                            # noqa
        if isinstance(e, HarnessError):
            raise
        if _import_problem(e):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(t.filename)}:{t.name}" for t in tb if REPO_SRC in t.filename][-1:]
        raise Violation(f"exception on valid input: {type(e).__name__}: {str(e)[:300]} at {where}") from e


def _import_problem(e):
    return isinstance(e, (ImportError,)) and "microjax" not in str(e)


# ---------------------------------------------------------------- generation
def strategies():
    import hypothesis.strategies as st
    return st


class G:
    """Generator with domain-preserving shrinking (used for numeric inputs, where
    Hypothesis' bias towards repeated simple values wastes most of the budget)."""

    def draw(self, rng):
        raise NotImplementedError

    def shrinks(self, v):
        return ()


def _round_in(v, lo, hi):
    for d in (1, 2, 3, 5):
        r = float(f"%.{d}g" % v)
        if r != v and lo <= r <= hi:
            yield r


class uni(G):
    def __init__(self, lo, hi):
        self.lo, self.hi = float(lo), float(hi)

    def draw(self, rng):
        return float(rng.uniform(self.lo, self.hi))

    def shrinks(self, v):
        if self.lo <= 0 <= self.hi and v != 0:
            yield 0.0
        if self.lo <= 1 <= self.hi and v != 1:
            yield 1.0
        yield from _round_in(v, self.lo, self.hi)


class loguni(uni):
    def draw(self, rng):
        return float(10 ** rng.uniform(math.log10(self.lo), math.log10(self.hi)))


class ints(G):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def draw(self, rng):
        return int(rng.integers(self.lo, self.hi + 1))

    def shrinks(self, v):
        for r in (self.lo, (self.lo + v) // 2, v - 1):
            if self.lo <= r < v:
                yield r


class choice(G):
    def __init__(self, items):
        self.items = list(items)

    def draw(self, rng):
        return self.items[int(rng.integers(len(self.items)))]

    def shrinks(self, v):
        for x in self.items:
            if x == v:
                return
            yield x


class just(G):
    def __init__(self, v):
        self.v = v

    def draw(self, rng):
        return self.v


class mix(G):
    """g most of the time, one of the hand-picked special values with probability p."""

    def __init__(self, g, nice, p=0.2):
        self.g, self.nice, self.p = g, list(nice), p

    def draw(self, rng):
        if rng.random() < self.p:
            return self.nice[int(rng.integers(len(self.nice)))]
        return self.g.draw(rng)

    def shrinks(self, v):
        if v in self.nice:
            yield from self.nice[:self.nice.index(v)]
            return
        yield from self.nice
        yield from self.g.shrinks(v)


class lists(G):
    def __init__(self, g, n):
        self.g, self.n = g, n

    def draw(self, rng):
        return [self.g.draw(rng) for _ in range(self.n)]

    def shrinks(self, v):
        if len(v) > 1:
            h = len(v) // 2
            yield v[:h]
            yield v[h:]
        elif v:
            for x in self.g.shrinks(v[0]):
                yield [x]


class record(G):
    def __init__(self, d):
        self.d = d

    def draw(self, rng):
        return {k: g.draw(rng) for k, g in self.d.items()}

    def shrinks(self, v):
        for k, g in self.d.items():
            if k in v:
                for x in g.shrinks(v[k]):
                    yield dict(v, **{k: x})


class custom(G):
    """fn(rng) -> case; lists named in ``reduce`` may be shortened while shrinking."""

    def __init__(self, fn, reduce=("w",)):
        self.fn, self.reduce = fn, reduce

    def draw(self, rng):
        return self.fn(rng)

    def shrinks(self, v):
        for k in self.reduce:
            if isinstance(v.get(k), list) and len(v[k]) > 1:
                h = len(v[k]) // 2
                yield dict(v, **{k: v[k][:h]})
                yield dict(v, **{k: v[k][h:]})


def rngseed():
    return ints(0, 2 ** 31 - 1)


# ------------------------------------------------------------------- running
class _StopShrink(BaseException):
    pass


class _Done(BaseException):
    pass


def run_sub(sub, tier, seed, shard, out_path):
    """Worker: search for a violation of one sub-check; write a JSON result."""
    t0 = time.time()
    rec = Recorder()
    best = {"case": None, "msg": None, "size": None}
    n = sub.count(tier)
    ns = sub.nshards(tier)
    count = max(1, -(-n // ns))
    budget = sub.budget if tier == "quick" else sub.tbudget
    state = {"post": 0, "done": 0, "skipped": 0, "tfail": None, "cases": []}
    result = {"sub": sub.name, "shard": shard, "error": None, "violation": None}

    def attempt(case):
        try:
            sub.run(case, rec)
        except Violation as e:
            size = len(canon(case))
            if best["case"] is None or size < best["size"]:
                best.update(case=json.loads(canon(case)), msg=str(e), size=size)
            if state["tfail"] is None:
                state["tfail"] = time.time()
                rec.quiet = True
            state["post"] += 1
            if state["post"] > 60 or time.time() - state["tfail"] > 60:
                raise _StopShrink()
            raise
        if state["tfail"] is not None:
            state["post"] += 1
            if state["post"] > 120 or time.time() - state["tfail"] > 60:
                raise _StopShrink()
        else:
            state["done"] += 1
            if sub.finalize:
                state["cases"].append(json.loads(canon(case)))

    try:
        if shard == 0:
            for ex in sub.examples:
                attempt(ex)
                rec.label("pinned example")

        sd = int.from_bytes(hashlib.blake2b(f"{seed}/{sub.name}/{shard}/{tier}".encode(), digest_size=6).digest(), "big")

        gen = sub.strategy()
        if isinstance(gen, G):
            import numpy as np
            rng = np.random.default_rng(sd)
            for _ in range(count):
                if time.time() - t0 > budget:
                    state["skipped"] += 1
                    continue
                attempt(json.loads(canon(gen.draw(rng))))
            raise _Done()

        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        @hypothesis.seed(sd)
        @settings(max_examples=count, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(gen)
        def prop(case):
            if time.time() - t0 > budget and state["tfail"] is None:
                state["skipped"] += 1
                return
            attempt(case)

        prop()
    except (_StopShrink, _Done):
        pass
    except Violation:
        pass
    except BaseException as e:                                         # noqa
        if best["case"] is None or not isinstance(e, Exception):
            result["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]

    if best["case"] is not None:
        try:
            if isinstance(sub.strategy(), G):
                minimise(sub, sub.strategy(), best, rec)
        except Exception:
            pass
        result["violation"] = {"case": best["case"], "msg": best["msg"]}
    result.update(evaluations=rec.evaluations, nontrivial=rec.nontrivial, labels=rec.labels,
                  samples=rec.samples, metrics=rec.metrics, cases=state["done"], skipped=state["skipped"],
                  seen=[h.hex() for h in rec.seen] if ns > 1 else None,
                  all_cases=state["cases"] if sub.finalize else None,
                  wall=time.time() - t0)
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f, default=_default)
    os.replace(tmp, out_path)


def minimise(sub, gen, best, rec, limit=80, tmax=60.0):
    """Greedy shrinking through the generator's domain-preserving candidates."""
    rec.quiet = True
    t0, used = time.time(), 0
    improved = True
    while improved:
        improved = False
        for c in gen.shrinks(best["case"]):
            if used >= limit or time.time() - t0 > tmax:
                return
            used += 1
            try:
                sub.run(c, rec)
            except Violation as e:
                best.update(case=json.loads(canon(c)), msg=str(e))
                improved = True
                break
            except Exception:
                continue


# ------------------------------------------------------------------ utilities
def pad(lst, n):
    """Pad a list of points to length n by repeating the last one (fixed shapes)."""
    lst = list(lst)
    return lst + [lst[-1]] * (n - len(lst))


def cplx(pairs):
    import numpy as np
    a = np.asarray(pairs, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def pairs(z):
    import numpy as np
    z = np.atleast_1d(np.asarray(z, dtype=complex))
    return [[float(x.real), float(x.imag)] for x in z]


def finite(x, what):
    import numpy as np
    x = np.asarray(x)
    if not np.all(np.isfinite(x)):
        raise Violation(f"non-finite {what}: {x.ravel()[~np.isfinite(x.ravel())][:3]}")
    return x

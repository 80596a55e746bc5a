"""C18 array helpers: model-based checks against direct Python definitions."""
import numpy as np
from core import *

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax import utils as U                                       # noqa: E402

LENS = [1, 2, 3, 5, 8, 17, 40]


def arrays(st, n):
    val = st.one_of(st.just(0.0), st.sampled_from([1.0, -1.0, 2.5, -3.0, 1e-12, -1e-12, 1e8]),
                    st.floats(-10, 10, allow_nan=False, allow_subnormal=False))
    return st.lists(val, min_size=n, max_size=n)


def strat_red():
    st = strategies()
    return st.sampled_from(LENS).flatmap(lambda n: st.fixed_dictionaries({"x": arrays(st, n)}))


def eq(got, want, what, tol=0.0):
    got = np.asarray(got)
    if not np.all(np.isfinite(got)) or got.shape != np.shape(want) or np.any(np.abs(got - want) > tol):
        raise Violation(f"{what}: got {got.tolist()!r:.200}, expected {np.asarray(want).tolist()!r:.200}")


def run_red(case, rec):
    x = np.array(case["x"], float)
    n = len(x)
    nz = [i for i in range(n) if x[i] != 0]
    ze = [i for i in range(n) if x[i] == 0]
    jx = jnp.array(x)
    eq(call(U.first_nonzero, jx), nz[0] if nz else 0, "first_nonzero")
    eq(call(U.last_nonzero, jx), nz[-1] if nz else 0, "last_nonzero")
    eq(call(U.first_zero, jx), ze[0] if ze else 0, "first_zero")
    v = x[nz]
    # stated contract: minimum / maximum non-zero value if present, else 0
    eq(call(U.min_zero_avoiding, jx), v.min() if len(v) else 0.0, "min_zero_avoiding")
    eq(call(U.max_zero_avoiding, jx), v.max() if len(v) else 0.0, "max_zero_avoiding")
    m = v.mean() if len(v) else 0.0
    eq(call(U.mean_zero_avoiding, jx), m, "mean_zero_avoiding", 1e-12 * (1 + np.abs(x).max()))
    idx = np.asarray(call(U.sparse_argsort, jx))
    if sorted(idx.tolist()) != list(range(n)):
        raise Violation(f"sparse_argsort is not a permutation: {idx.tolist()}")
    if not np.all(np.diff(x[idx[:len(v)]]) >= 0) or np.any(x[idx[:len(v)]] == 0):
        raise Violation(f"sparse_argsort does not put the sorted non-zeros first: {x[idx].tolist()}")
    kinds = [k for k, c in (("all-zero", not len(v)), ("no-zero", not ze), ("negative-only", len(v) and v.max() < 0),
                            ("single", n == 1)) if c]
    rec.point(["red", case["x"]], n > 1 and len(nz) > 0 and len(ze) > 0 or bool(kinds), *kinds)


def strat_axis():
    st = strategies()
    return st.tuples(st.sampled_from([(3, 4), (1, 5), (5, 1), (2, 3)]), st.sampled_from([0, 1])).flatmap(
        lambda t: st.fixed_dictionaries({"shape": st.just(list(t[0])), "axis": st.just(t[1]),
                                         "x": arrays(st, t[0][0] * t[0][1])}))


def run_axis(case, rec):
    x = np.array(case["x"], float).reshape(case["shape"])
    ax = case["axis"]
    want = np.apply_along_axis(lambda v: next((i for i, t in enumerate(v) if t != 0), 0), ax, x)
    eq(call(U.first_nonzero, jnp.array(x), axis=ax), want, "first_nonzero(axis)")
    want = np.apply_along_axis(lambda v: next((i for i, t in enumerate(v) if t == 0), 0), ax, x)
    eq(call(U.first_zero, jnp.array(x), axis=ax), want, "first_zero(axis)")
    rec.point(["axis", case], bool((x == 0).any() and (x != 0).any()))


def strat_match():
    st = strategies()
    pt = st.tuples(st.integers(-50, 50), st.integers(-50, 50))
    fl = st.floats(-3, 3, allow_nan=False, allow_subnormal=False)
    fine = st.tuples(fl, fl)
    return st.sampled_from([1, 2, 3, 5, 10]).flatmap(
        lambda n: st.fixed_dictionaries({k: st.lists(st.one_of(fine, pt), min_size=n, max_size=n) for k in "ab"}))


def run_match(case, rec):
    a, b = cplx(case["a"]), cplx(case["b"])
    idx = np.asarray(call(U.match_points, jnp.array(a), jnp.array(b)))
    if sorted(idx.tolist()) != list(range(len(b))):
        raise Violation(f"match_points is not a permutation of 0..{len(b)-1}: {idx.tolist()}")
    free = set(range(len(b)))
    contested = 0
    for i, k in enumerate(idx.tolist()):
        d = {j: abs(b[j] - a[i]) for j in free}
        if d[k] > min(d.values()) * (1 + 1e-12) + 1e-14:
            raise Violation(f"match_points[{i}]={k} at distance {d[k]:.6g}, nearest unused is at {min(d.values()):.6g}")
        contested += min(range(len(b)), key=lambda j: abs(b[j] - a[i])) not in free
        free.discard(k)
    rec.point(["match", case], contested > 0, *(["contested"] if contested else []))


def strat_trapz():
    st = strategies()
    v = st.one_of(st.floats(-5, 5, allow_nan=False, allow_subnormal=False), st.just(0.0))

    def mk(n):
        return st.fixed_dictionaries({"n": st.just(n), "tail": st.integers(0, n - 1),
                                      "x": st.lists(st.floats(-5, 5, allow_nan=False, allow_subnormal=False), min_size=n, max_size=n),
                                      "y": st.lists(v, min_size=n, max_size=n)})
    return st.sampled_from([2, 3, 6, 15]).flatmap(mk)


def run_trapz(case, rec):
    """Padding convention of the callers: x and y are zero beyond tail_idx."""
    n, t = case["n"], case["tail"]
    x, y = np.array(case["x"], float), np.array(case["y"], float)
    x[t + 1:] = 0
    y[t + 1:] = 0
    want = float(np.sum(0.5 * (y[1:t + 1] + y[:t]) * np.diff(x[:t + 1])))
    got = call(U.trapz_zero_avoiding, jnp.array(y), jnp.array(x), t)
    eq(got, want, f"trapz_zero_avoiding(tail_idx={t}, n={n})", 1e-11 * (1 + np.abs(x).max() * np.abs(y).max() * n))
    rec.point(["trapz", case], 0 < t < n - 1, "tail at end" if t == n - 1 else "tail inside")


SUBS = [
    Sub("reductions", strat_red, run_red, 500, 6000, "random arrays with zeros/signs/ties; non-trivial: mixes zeros and non-zeros or is an edge kind", shards=2),
    Sub("axis", strat_axis, run_axis, 200, 2000, "2-d arrays, both axes; non-trivial: mixes zeros and non-zeros"),
    Sub("match_points", strat_match, run_match, 500, 5000, "two point sets of equal size; non-trivial: some nearest neighbour is already used", shards=2),
    Sub("trapz", strat_trapz, run_trapz, 400, 4000, "zero-padded samples and a tail index; non-trivial: tail strictly inside"),
]

"""C15 likelihoods and line fit: differential against dense linear algebra in
extended precision (mpmath) and NumPy least squares."""
import numpy as np
from core import *

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
import mpmath as mp                                                   # noqa: E402
from microjax.likelihood import linear_chi2, nll_ulens, nll_ulens_general  # noqa: E402

mp.mp.dps = 50
NS = [1, 2, 3, 5, 12, 30]


def gen_case(diag):
    return record({
        "n": choice(NS), "seed": rngseed(), "ls": uni(-3, 3), "lb": uni(-3, 3), "lerr": uni(-3, 1.5),
        "rho": mix(uni(-0.95, 0.95), [0.0]), "mu0": mix(uni(-5, 5), [0.0]), "mu1": mix(uni(-5, 5), [0.0]),
        "amp": loguni(1, 100), "corr": mix(uni(0, 0.95), [0.0]), "scale": mix(loguni(1e-3, 1e3), [1.0])})


def build(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    A = 1 + (c["amp"] - 1) * rng.random(n)
    M = np.stack([A, np.ones(n)], axis=1)
    s2 = (10 ** c["lerr"] * np.exp(rng.normal(0, .5, n))) ** 2
    flux = c["scale"] * (A + rng.normal(0, 1, n))
    v = 10.0 ** np.array([c["ls"], c["lb"]])
    lam = np.diag(v).copy()
    lam[0, 1] = lam[1, 0] = c["rho"] * np.sqrt(v[0] * v[1])
    # correlated noise: squared-exponential-like mixture, always positive definite
    k = c["corr"] ** np.abs(np.subtract.outer(np.arange(n), np.arange(n))) if c["corr"] > 0 else np.eye(n)
    C = np.sqrt(s2)[:, None] * k * np.sqrt(s2)[None, :]
    return flux, M, s2, v, lam, C, np.array([c["mu0"], c["mu1"]])


def exact(flux, M, C, mu, lam):
    """-log N(flux; M mu, C + M lam M^T) - n/2 log 2pi in 50 digits."""
    f, Mm, Cm, m, L = (mp.matrix(x.tolist()) for x in (flux, M, C, mu, lam))
    S = Cm + Mm * L * Mm.T
    r = f - Mm * m
    x = mp.lu_solve(S, r)
    quad = sum(r[i] * x[i] for i in range(len(r)))
    # determinant through Cholesky (S is positive definite)
    Lc = mp.cholesky(S)
    ld = 2 * sum(mp.log(Lc[i, i]) for i in range(S.rows))
    return 0.5 * (quad + ld), quad, ld


def magnitudes(flux, M, C, mu, lam):
    """size of the terms the closed forms combine, and the amplification of
    rounding by the 2x2 posterior precision: together they set the tolerance."""
    r = flux - M @ mu
    ci = np.linalg.solve(C, r)
    A = np.linalg.inv(lam) + M.T @ np.linalg.solve(C, M)
    size = abs(r @ ci) * (1 + np.linalg.cond(C) * 1e-3) + sum(abs(np.linalg.slogdet(x)[1]) for x in (C, lam, A)) + 10
    return size + 1e-6 * np.linalg.cond(A) * (1 + abs(r @ ci))


def check(name, got, want, tol):
    if not np.isfinite(got) or abs(float(got) - float(want)) > tol:
        raise Violation(f"{name} = {float(got):.12g}, exact value {float(want):.12g} (tolerance {tol:.2g})")


def run_diag(c, rec):
    flux, M, s2, v, lam, C, mu = build(c)
    lam, C, z = np.diag(v), np.diag(s2), np.zeros(2)
    want, q, ld = exact(flux, M, C, z, lam)
    tol = 1e-9 * magnitudes(flux, M, C, z, lam)
    args = (jnp.array(flux), jnp.array(M), jnp.array(s2), v[0], v[1])
    got = call(nll_ulens, *args)
    check("nll_ulens", got, want, tol)
    gen = call(nll_ulens_general, args[0], args[1], jnp.array(C), jnp.array(z), jnp.array(lam))
    check("nll_ulens_general(diagonal)", gen, want, tol)
    p = np.random.default_rng(c["seed"] + 1).permutation(c["n"])
    check("nll_ulens(reordered)", call(nll_ulens, args[0][p], args[1][p], args[2][p], v[0], v[1]), want, tol)
    rec.point(["diag", c], c["n"] > 1, f"n={c['n']}", "data dominated" if q > 3 * c["n"] else "prior comparable")


def run_general(c, rec):
    flux, M, s2, v, lam, C, mu = build(c)
    want, q, ld = exact(flux, M, C, mu, lam)
    tol = 1e-8 * magnitudes(flux, M, C, mu, lam)
    a = [jnp.array(x) for x in (flux, M, C, mu, lam)]
    check("nll_ulens_general", call(nll_ulens_general, *a), want, tol)
    p = np.random.default_rng(c["seed"] + 1).permutation(c["n"])
    check("nll_ulens_general(reordered)", call(nll_ulens_general, a[0][p], a[1][p], a[2][np.ix_(p, p)], a[3], a[4]), want, tol)
    rec.point(["general", c], c["n"] > 1 and (c["corr"] > 0 or c["rho"] != 0 or c["mu0"] != 0 or c["mu1"] != 0),
              *[k for k, b in (("correlated noise", c["corr"] > 0), ("correlated prior", c["rho"] != 0),
                               ("non-zero mean", c["mu0"] != 0 or c["mu1"] != 0)) if b])


def strat_lin():
    return record({"n": choice([2, 3, 4, 7, 20]), "seed": rngseed(), "x0": mix(uni(-5, 5), [0.0]),
                                  "span": loguni(1e-2, 1e2), "a": uni(-10, 10), "b": uni(-10, 10),
                                  "noise": mix(loguni(1e-3, 10), [0.0]),
                                  "err": choice(["default", "scalar", "array", "some-zero", "all-zero"])})


def run_lin(c, rec):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    x = c["x0"] + c["span"] * np.sort(rng.random(n))
    if n >= 2 and (x[-1] - x[0]) < 0.05 * c["span"]:
        x[-1] = x[0] + c["span"]
    y = c["a"] + c["b"] * x + c["noise"] * rng.normal(size=n)
    e = np.exp(rng.normal(0, 1, n))
    kind = c["err"]
    if kind == "some-zero":
        e[:: 2] = 0
    elif kind == "all-zero":
        e[:] = 0
    elif kind in ("default", "scalar"):
        e[:] = 0.0 if kind == "default" else float(e[0])
    wt = np.array([1 / t ** 2 if t > 0 else 1.0 for t in e])
    if kind == "default":
        out = call(linear_chi2, jnp.array(x), jnp.array(y))
    elif kind == "scalar":
        out = call(linear_chi2, jnp.array(x), jnp.array(y), float(e[0]))
    else:
        out = call(linear_chi2, jnp.array(x), jnp.array(y), jnp.array(e))
    b, be, a, ae, chi2 = (float(t) for t in out)
    X, Y, W = [[mp.mpf(float(t)) for t in v] for v in (x, y, wt)]
    sw, sx, sy = sum(W), sum(w * t for w, t in zip(W, X)), sum(w * t for w, t in zip(W, Y))
    sxx, sxy = sum(w * t * t for w, t in zip(W, X)), sum(w * t * u for w, t, u in zip(W, X, Y))
    d = sw * sxx - sx * sx
    A, B = (sxx * sy - sx * sxy) / d, (sw * sxy - sx * sy) / d
    ch = sum(w * (v - A - B * u) ** 2 for w, u, v in zip(W, X, Y))
    amp = float(sw * sxx / d)                    # cancellation in the determinant
    t = 1e-12 * amp
    sc = np.abs(y).max() + 1e-3
    check("slope", b, B, t * amp ** .5 * sc / c["span"] * 10 + 1e-300)
    check("intercept", a, A, t * amp ** .5 * sc * 10 + 1e-300)
    check("slope error", be, mp.sqrt(sw / d), t * float(mp.sqrt(sw / d)) * 10)
    check("intercept error", ae, mp.sqrt(sxx / d), t * float(mp.sqrt(sxx / d)) * 10)
    check("chi2", chi2, ch, 1e-10 * float(ch) + float(sw) * (t * amp ** .5 * sc * 20) ** 2 + 1e-9 * t * float(sw) * sc ** 2
          + 2 * float(mp.sqrt(ch * sw)) * t * amp ** .5 * sc * 20)
    rec.point(["lin", c], n > 2 and c["noise"] > 0, "err=" + kind, "amplification>1e4" if amp > 1e4 else "well conditioned")


SUBS = [
    Sub("general", lambda: gen_case(False), run_general, 700, 8000,
        "random flux/design/covariance/prior vs 50-digit Gaussian marginal; non-trivial: n>1 with correlated noise or prior or non-zero mean", shards=3),
    Sub("diagonal", lambda: gen_case(True), run_diag, 700, 8000, "diagonal problems, both functions, reordering; non-trivial: n>1", shards=3),
    Sub("line_fit", strat_lin, run_lin, 700, 8000, "weighted line fits vs 50-digit normal equations; non-trivial: n>2 with noise", shards=2),
]

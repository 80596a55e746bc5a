"""C17 source profile, membership/step indicators, boundary factor, distances
and interpolation: exact laws, quadrature identities and an independent lens map."""
import numpy as np
from core import *
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.limb_darkening import Is_limb_1st           # noqa: E402
from microjax.inverse_ray.boundary import (calc_facB, distance_from_source, distance_from_source_adaptive,  # noqa: E402
                                           in_source, step_smooth)
from microjax.inverse_ray.extended_source import cubic_interp         # noqa: E402

GX, GW = np.polynomial.legendre.leggauss(64)


def close(name, got, want, tol, x=""):
    got, want = np.asarray(got, float), np.asarray(want, float)
    e = np.abs(got - want)
    if not np.all(e <= tol):
        i = int(np.argmax(np.where(np.isfinite(e), e - tol, np.inf)))
        raise Violation(f"{name}: {np.ravel(got)[i]:.15g} instead of {np.ravel(want)[i]:.15g} {x}")


# --------------------------------------------------------------- profile
def gen_prof():
    def fn(rng):
        u1 = float(rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 1)]))
        d = [float(x) for x in np.concatenate([rng.uniform(0, 1, 6), 1 - 10 ** rng.uniform(-14, -1, 4),
                                               1 + 10 ** rng.uniform(-14, 0, 4), [0.0, 1.0]])]
        return {"u1": u1, "d": d}
    return custom(fn, ("d",))


def run_prof(c, rec):
    u1 = c["u1"]
    d = np.array(pad(c["d"], 16))
    v = np.array(call(Is_limb_1st, jnp.array(d), u1))
    mu = np.sqrt(np.maximum(0, (1 - d) * (1 + d)))
    want = np.where(d < 1, 3 / np.pi / (3 - u1) * (1 - u1 * (1 - mu)), 0.0)
    close("Is_limb_1st", v, want, 1e-8 * u1 + 1e-14, f"u1={u1} d={d.tolist()}")
    if np.any(v < 0) or np.any(v[d >= 1] != 0):
        raise Violation(f"profile negative or not zero outside the disc (u1={u1})")
    t = 0.5 * (GX + 1)                                   # mu nodes: int 2 pi mu I(mu) dmu
    I = np.array(call(Is_limb_1st, jnp.array(np.sqrt(1 - t ** 2)), u1))
    close("flux of Is_limb_1st over the unit disc", np.sum(2 * np.pi * t * I * 0.5 * GW), 1.0, 1e-12, f"u1={u1}")
    # derivative rule: fluxes of a normalised profile do not change with u1 (away from the smoothed edge)
    di = d[(d < 0.9)]
    if len(di) == 0:
        di = np.array([0.5])
    x = np.resize(di, 16)
    _, g = call(jax.jvp, lambda u: Is_limb_1st(jnp.array(x), u), (u1,), (1.0,))
    m = np.sqrt(1 - x ** 2)
    dI = 3 / np.pi * ((1 - u1 * (1 - m)) / (3 - u1) ** 2 - (1 - m) / (3 - u1))
    close("d Is_limb_1st/d u1", g, dI, 1e-4, f"u1={u1} d={x.tolist()}")
    _, g = call(jax.jvp, lambda y: Is_limb_1st(y, u1), (jnp.array(x),), (jnp.ones(16),))
    close("d Is_limb_1st/d d", g, -3 / np.pi / (3 - u1) * u1 * x / m, 2e-3, f"u1={u1} d={x.tolist()}")
    # at the edge the smoothed derivative is inward (non-positive)
    y = np.linspace(0.9, 1.1, 16)
    _, g = call(jax.jvp, lambda y: Is_limb_1st(y, u1), (jnp.array(y),), (jnp.ones(16),))
    if np.any(~np.isfinite(g)) or np.any(np.array(g) > 0):
        raise Violation(f"edge derivative of the profile has the wrong sign (u1={u1})")
    for q in c["d"]:
        rec.point([u1, q], 0 < q < 1 and u1 > 0, "limb" if abs(q - 1) < 1e-3 else "inside" if q < 1 else "outside")


# ------------------------------------------------------ indicators and steps
def gen_ind():
    def fn(rng):
        rho = float(10 ** rng.uniform(-5, 1))
        k = rng.integers(0, 4, 16)
        f = np.where(k == 0, rng.uniform(0, 3, 16), np.where(k == 1, 1 + rng.choice([-1, 1], 16) * 10 ** rng.uniform(-15, -1, 16),
                     np.where(k == 2, 1.0, 10 ** rng.uniform(-3, 3, 16))))
        return {"rho": rho, "f": [float(x) for x in f], "fac": float(10 ** rng.uniform(0, 4))}
    return custom(fn, ("f",))


def run_ind(c, rec):
    rho = c["rho"]
    d = rho * np.array(pad(c["f"], 16))
    v = np.array(call(in_source, jnp.array(d), rho))
    close("in_source", v, (d < rho).astype(float), 0.0, f"rho={rho} d={d.tolist()}")
    _, gd = call(jax.jvp, lambda x: in_source(x, rho), (jnp.array(d),), (jnp.ones(16),))
    _, gr = call(jax.jvp, lambda r: in_source(jnp.array(d), r), (rho,), (1.0,))
    gd, gr = np.array(gd), np.array(gr)
    if not (np.all(np.isfinite(gd)) and np.all(np.isfinite(gr))) or np.any(gd > 0) or np.any(gr < 0):
        raise Violation(f"in_source derivative has the wrong sign or is not finite (rho={rho} d={d.tolist()})")
    close("scale invariance of in_source's derivative", gd * d + gr * rho, 0 * d, 1e-9 * (np.abs(gd) * d) + 1e-12)
    far = np.abs(d - rho) > 0.5 * rho
    if np.any(np.abs(gd[far]) * rho > 1e-6):
        raise Violation("in_source's derivative is not concentrated at the edge")
    # the smoothed edge carries exactly one unit of membership
    n = 2001
    x = rho * (1 + np.linspace(-.6, .6, n))
    _, g = call(INJ, jnp.array(x), rho)
    close("total membership change across the edge", -np.sum(np.array(g)) * (x[1] - x[0]), 1.0, 1e-4, f"rho={rho}")
    # step
    fac = c["fac"]
    z = (d - rho) / rho
    s = np.array(call(step_smooth, jnp.array(z), fac))
    close("step_smooth", s, (z > 0).astype(float), 0.0, f"x={z.tolist()}")
    p, g = call(jax.jvp, lambda y: step_smooth(y, fac), (jnp.array(z),), (jnp.ones(16),))
    close("step_smooth value under jvp", p, s, 0.0)
    if np.any(np.array(g) < 0) or not np.all(np.isfinite(g)):
        raise Violation("step_smooth's derivative is negative")
    y = np.linspace(-60, 60, n) / fac
    _, g = call(STJ, jnp.array(y), fac)
    close("total rise of step_smooth", np.sum(np.array(g)) * (y[1] - y[0]), 1.0, 1e-4, f"fac={fac}")
    for q in c["f"]:
        rec.point([rho, q], q != 1, "edge" if abs(q - 1) < 1e-2 else "away")


INJ = jax.jit(lambda x, r: jax.jvp(lambda y: in_source(y, r), (x,), (jnp.ones_like(x),)))
STJ = jax.jit(lambda x, f: jax.jvp(lambda y: step_smooth(y, f), (x,), (jnp.ones_like(x),)))


# -------------------------------------------------------------- facB
def gen_fac():
    return record({"d": lists(mix(loguni(1e-8, 1), [1.0, 1e-10, 0.5]), 8), "c": loguni(1e-4, .5)})


def run_fac(c, rec):
    d = np.array(pad(c["d"], 8))
    v = np.array(call(calc_facB, jnp.array(d), c["c"]))
    # integral of sqrt(t) from 0 to d + 1/2 relative to the sample value sqrt(d)
    quad = np.array([np.sum((x + .5) ** 1.5 * GW * np.sin(np.pi / 4 * (GX + 1)) ** 2 * np.cos(np.pi / 4 * (GX + 1)) * np.pi / 2)
                     for x in d])
    # substitution t=(d+1/2) sin^2(p): int sqrt(t) dt = 2 (d+1/2)^1.5 int sin^2 p cos p dp
    want = np.where(d > c["c"], quad / np.sqrt(d), 2 / 3 * d + .5)
    close("calc_facB", v, want, 1e-10 * want, f"gap={d.tolist()} threshold={c['c']}")
    p, g = call(jax.jvp, lambda x: calc_facB(x, c["c"]), (jnp.array(d),), (jnp.ones(8),))
    close("calc_facB value under jvp", p, v, 0.0)
    close("calc_facB derivative (1.5-order rule)", g, 2 / 3 + 0 * d, 1e-12)
    for q in c["d"]:
        rec.point([q, c["c"]], True, "square-root law" if q > c["c"] else "linear law")


# ----------------------------------------------------------- distances
def gen_dist(n):
    def fn(rng):
        p = {"s": float(10 ** rng.uniform(-1, .7)), "q": float(10 ** rng.uniform(-5, 1))}
        if n == 3:
            p.update(q3=float(10 ** rng.uniform(-5, 0)), r3=float(10 ** rng.uniform(-1, .6)), psi=float(rng.uniform(-np.pi, np.pi)))
        return {"p": p, "n": n, "r": float(10 ** rng.uniform(-2, .7)), "th": [float(x) for x in rng.uniform(-2 * np.pi, 4 * np.pi, 8)],
                "u": [float(x) for x in rng.uniform(0, 1, 8)],
                "w": [float(x) for x in rng.normal(0, 1, 2)], "lo": float(rng.uniform(-3, 6)), "wid": float(rng.uniform(1e-3, 6.3))}
    return custom(fn, ("th",))


def run_dist(c, rec):
    n = c["n"]
    m, zl, xcm = refs.system(n, **c["p"])
    mp_ = refs.params_mid(n, **c["p"])
    w = complex(*c["w"])
    th = np.array(pad(c["th"], 8))
    lo, hi = c["lo"], c["lo"] + c["wid"]

    def want(t):
        z = c["r"] * np.exp(1j * t)                      # centre-of-mass frame
        return np.abs(refs.lens_map(z - xcm, m, zl) + xcm - w), np.min(np.abs(z[:, None] - xcm - zl[None]), axis=1)
    a = call(distance_from_source, c["r"], jnp.array(th), w - xcm, xcm, nlenses=n, **mp_)
    t, near = want(th)
    close("distance_from_source", a, t, 1e-11 * (1 + t / np.minimum(1, near)), c)
    u = np.array(c["u"])
    a = call(distance_from_source_adaptive, c["r"], jnp.array(u), lo, hi, w - xcm, xcm, nlenses=n, **mp_)
    t, near = want(lo + (hi - lo) * u)
    close("distance_from_source_adaptive", a, t, 1e-11 * (1 + t / np.minimum(1, near)), c)
    rec.point([c["p"], c["r"], c["w"]], True, f"{n} lenses")


# -------------------------------------------------------- interpolation
def gen_cub():
    def fn(rng):
        x = np.cumsum(rng.uniform(.2, 1, 4))
        if rng.random() < .3:
            x = rng.permutation(x)
        elif rng.random() < .4:
            x = x[::-1]
        sc = 10 ** rng.uniform(-6, 4)
        x = (x + rng.uniform(-5, 5)) * sc
        return {"x": [float(v) for v in x], "c": [float(v) for v in rng.normal(0, 1, 4)],
                "t": [float(v) for v in (rng.uniform(-.5, 1.5, 4))]}
    return custom(fn, ("t",))


def run_cub(c, rec):
    x = np.array(c["x"])
    lo, sp = x.min(), x.max() - x.min()
    poly = np.polynomial.Polynomial(c["c"])
    y = poly((x - lo) / sp)
    for t in c["t"]:
        got = float(call(CUB, lo + t * sp, *x, *y))
        cond = 1 + (abs(lo) + sp) / sp
        close("cubic_interp", got, poly(t), (2e-10 + 3e-14 * cond) * (1 + abs(y).max()) * 30, f"nodes {x.tolist()} at {lo + t * sp}")
        rec.point([c["x"], c["c"], t], True, "extrapolation" if t < 0 or t > 1 else "interpolation")
    # at a node it returns the ordinate
    for i in range(4):
        close("cubic_interp at a node", float(call(CUB, x[i], *x, *y)), y[i], 3e-9 * (1 + abs(y).max()), c["x"])


CUB = jax.jit(cubic_interp)

SUBS = [
    Sub("profile", gen_prof, run_prof, 150, 8000, "0<d<1 and u1>0"),
    Sub("indicator", gen_ind, run_ind, 150, 8000, "point not exactly on the edge"),
    Sub("boundary_factor", gen_fac, run_fac, 150, 8000, "every gap"),
    Sub("distance2", lambda: gen_dist(2), run_dist, 150, 8000, "every configuration"),
    Sub("distance3", lambda: gen_dist(3), run_dist, 150, 8000, "every configuration"),
    Sub("cubic", gen_cub, run_cub, 300, 20000, "four distinct nodes (spread >= 7% of the span apart)"),
]
ASSUMPTIONS = ["smoothed derivative rules are checked for sign, concentration and total mass, not for a particular shape",
               "the value returned by in_source and Is_limb_1st *under differentiation* is a smoothed one by design (see C20)"]

"""C02 point-source magnification: independent sums over images, VBBinaryLensing, closed form,
bounds, far field, lens map and Jacobian."""
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.point_source import lens_eq, lens_eq_det_jac, mag_point_source     # noqa: E402

ASSUMPTIONS = ["generic positions as in C01; the tolerance on the magnification is propagated from the condition number of the lens polynomial",
               "positions whose propagated tolerance exceeds 1e-3 of the magnification are evaluated but not judged"]
NP = 16


def draw(n):
    def fn(rng):
        p = gen.lens(rng, n)
        return {"n": n, "p": p, "w": pairs(gen.sources(rng, n, p, NP))}
    return fn


def strat():
    f = {n: draw(n) for n in (1, 2, 3)}
    return custom(lambda rng: f[int(rng.choice([1, 2, 2, 2, 3, 3, 3]))](rng))


def run(case, rec):
    n, p = case["n"], case["p"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(pad(case["w"], NP))
    A = np.asarray(call(mag_point_source, jnp.array(w), nlenses=n, **p))
    if A.shape != (NP,):
        raise Violation(f"magnification has shape {A.shape} for {NP} positions")
    k = len(case["w"])
    finite(A[:k], f"point-source magnification {n} lenses {p}")
    vb = refs.vb_binary_ps(w[:k], p["s"], p["q"]) if n == 2 else None
    for j in range(k):
        key = [n, p, case["w"][j]]
        if n == 1:
            u = abs(w[j])
            want = (u * u + 2) / (u * np.sqrt(u * u + 4))
            tol = 1e-12 * want
        else:
            rep = refs.Report(w[j] - xcm, m, zl)
            if not rep.generic or rep.dA > 1e-3 * rep.A:
                rec.point(key, False, f"n{n} not judged")
                continue
            want, tol = rep.A, rep.dA + 1e-9 * rep.A
        if not abs(A[j] - want) <= tol:
            raise Violation(f"{n} lenses {p} w={w[j]}: magnification {A[j]:.12g}, sum over the images {want:.12g}")
        if not A[j] >= 1 - tol:
            raise Violation(f"{n} lenses {p} w={w[j]}: magnification {A[j]} < 1")
        if n == 2 and p["q"] > 1e-4 and np.abs(rep.det).min() > 0.02 and rep.ghost > 0.02 and not abs(A[j] - vb[j]) <= 1e-4 * want:
            raise Violation(f"binary {p} w={w[j]}: magnification {A[j]:.10g}, VBBinaryLensing {vb[j]:.10g}")
        rec.metric(f"err/n{n}", abs(A[j] / want - 1))
        rec.point(key, True, f"n{n}:{len(rep.z)}" if n > 1 else "n1")
    # other shapes give the same numbers
    B = np.asarray(call(mag_point_source, jnp.array(w.reshape(2, 8)), nlenses=n, **p))
    if B.shape != (2, 8):
        raise Violation(f"magnification of a (2,8) array has shape {B.shape}")
    d = np.abs(B.ravel() - A)
    for j in np.nonzero(d > 1e-7 * A)[0]:
        rep = refs.Report(w[j] - xcm, m, zl)
        if rep.generic and d[j] > 2 * rep.dA:
            raise Violation(f"{n} lenses {p} w={w[j]}: {B.ravel()[j]} in another shape, {A[j]} before")


# ----------------------------------------------------------------- far field
def draw_far(rng):
    n = int(rng.choice([1, 2, 3]))
    p = gen.lens(rng, n)
    return {"n": n, "p": p, "w": pairs(10 ** rng.uniform(1.2, 2.5, NP) * np.exp(2j * np.pi * rng.random(NP)))}


def run_far(case, rec):
    n, p = case["n"], case["p"]
    w = cplx(pad(case["w"], NP))
    A = np.asarray(call(mag_point_source, jnp.array(w), nlenses=n, **p))
    m, zl, xcm = refs.system(n, **p)
    cm = (m * zl).sum() + xcm
    u = np.abs(w - cm)
    quad = np.sum(m * np.abs(zl + xcm - cm) ** 2)
    want = (u * u + 2) / (u * np.sqrt(u * u + 4))
    tol = 1e-7 + 40 * (1 + quad) / u ** 4 * (0 if n == 1 else 1)
    e = np.abs(A - want)
    if not np.all(e <= tol):
        j = int(np.argmax(np.where(np.isfinite(e), e / tol, np.inf)))
        raise Violation(f"{n} lenses {p}: far away at w={w[j]} the magnification is {A[j]!r}, a single lens gives {want[j]!r}")
    for j in range(len(case["w"])):
        rec.point([n, p, case["w"][j]], True, f"n{n}")


# -------------------------------------------------------- lens map and Jacobian
def draw_map(rng):
    n = int(rng.choice([1, 2, 3]))
    p = gen.lens(rng, n)
    m, zl, _ = refs.system(n, **p)
    z = np.where(rng.random(NP) < 0.4, zl[rng.integers(n, size=NP)] + 10 ** rng.uniform(-6, 0, NP) * np.exp(2j * np.pi * rng.random(NP)),
                 2 * (rng.normal(size=NP) + 1j * rng.normal(size=NP)))
    z = np.where(rng.random(NP) < 0.1, z.real + 0j, z)
    z = np.where(np.min(np.abs(z[:, None] - zl[None]), axis=1) < 1e-6, z + 1e-3, z)
    return {"n": n, "p": p, "w": pairs(z)}


def run_map(case, rec):
    n, p = case["n"], case["p"]
    m, zl, _ = refs.system(n, **p)
    z = cplx(pad(case["w"], NP))
    low = refs.params_mid(n, **p)
    W = np.asarray(call(lens_eq, jnp.array(z), nlenses=n, **low))
    D = np.asarray(call(lens_eq_det_jac, jnp.array(z), nlenses=n, **low))
    W0, D0 = refs.lens_map(z, m, zl), refs.det_jac(z, m, zl)
    near = np.min(np.abs(z[:, None] - zl[None]), axis=1)
    # rounding of the third mass (1 - e1 - e2, about 1e-16) and of the positions, magnified close to a lens
    d = np.abs(z[:, None] - zl[None])
    eW = np.sum(2e-15 / d + m * 1e-15 * (1 + np.abs(zl)) / d ** 2, axis=1)
    eg = np.sum(2e-15 / d ** 2 + m * 2e-15 * (1 + np.abs(zl)) / d ** 3, axis=1)
    sc = 1 + np.sum(m / d, axis=1)
    tW = 1e-12 * (1 + np.abs(z)) * sc + 10 * eW
    if not np.all(np.abs(W - W0) <= tW):
        j = int(np.argmax(np.abs(W - W0) / tW))
        raise Violation(f"lens map {n} lenses {p} z={z[j]}: {W[j]} instead of {W0[j]}")
    g0 = np.sum(m / d ** 2, axis=1)
    sg = (1 + g0) ** 2
    tD = 1e-12 * sg + 20 * (1 + g0) * eg
    if not np.all(np.abs(D - D0) <= tD):
        j = int(np.argmax(np.abs(D - D0) / tD))
        raise Violation(f"det J {n} lenses {p} z={z[j]}: {D[j]} instead of {D0[j]}")
    # det J is the Jacobian determinant of lens_eq itself (central differences, no formula)
    ok = near > 1e-3
    h = 1e-5 * np.minimum(1, near)
    Wx = (np.asarray(lens_eq(jnp.array(z + h), nlenses=n, **low)) - np.asarray(lens_eq(jnp.array(z - h), nlenses=n, **low))) / (2 * h)
    Wy = (np.asarray(lens_eq(jnp.array(z + 1j * h), nlenses=n, **low)) - np.asarray(lens_eq(jnp.array(z - 1j * h), nlenses=n, **low))) / (2 * h)
    J = Wx.real * Wy.imag - Wx.imag * Wy.real
    if not np.all(np.abs(J - D)[ok] <= 1e-5 * sg[ok]):
        j = int(np.argmax(np.where(ok, np.abs(J - D) / sg, 0)))
        raise Violation(f"det J {n} lenses {p} z={z[j]}: {D[j]} but the lens map has Jacobian {J[j]}")
    for j in range(len(case["w"])):
        rec.point([n, p, case["w"][j]], True, f"n{n}", "near a lens" if near[j] < 1e-2 else "elsewhere")


SUBS = [
    Sub("magnification", strat, run, 700, 20000, "generic position with propagated tolerance below 1e-3", shards=4),
    Sub("far", lambda: custom(draw_far), run_far, 120, 4000, "every position, distance 16..300"),
    Sub("map", lambda: custom(draw_map), run_map, 200, 6000, "every position", shards=2),
]


# ------------------------------------------ known findings (outside the searched domain)
def run_exact(case, rec):
    """total magnification to 1e-3, whatever the conditioning of the lens polynomial"""
    n, p = case["n"], case["p"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(case["w"])[0]
    A = float(call(mag_point_source, jnp.array([w]), nlenses=n, **p)[0])
    rep = refs.Report(w - xcm, m, zl)
    if not abs(A - rep.A) <= 1e-3 * rep.A:
        raise Violation(f"magnification {A:.6g}, sum over the images {rep.A:.6g}")
    rec.point(case["w"], True)


KNOWN_SUBS = [Sub("exact", lambda: custom(lambda rng: {}), run_exact, 0, 0, "pinned cases only")]

"""C21 the multipole shortcut is only taken where it is accurate: guided search for accepted positions with a large
error, judged against VBBinaryLensing / quadrature and confirmed by the independent area computation."""
import numpy as np
from core import *
import finite
import gen
import refs
from props import c12

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary                # noqa: E402
from microjax.caustics.lightcurve import magnifications               # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.point_source import _images_point_source                # noqa: E402

ASSUMPTIONS = ["a position counts as accepted when the adaptive solver returns the hexadecapole value itself to one part in 1e9 although the full "
               "solver was allowed and run at a resolution too coarse to reproduce that value by chance",
               "rho >= 1e-3, q >= 1e-6"]
NP = 32
COARSE = dict(r_resolution=30, th_resolution=30, Nlimb=60)


def hexa(n, w, rho, p, u1):
    m, zl, xcm = refs.system(n, **p)
    low = refs.params_mid(n, **p)
    z, k = call(_images_point_source, jnp.array(w - xcm), nlenses=n, **low)
    return np.asarray(call(mag_hexadecapole, z, k, rho, u1=u1, nlenses=n, **low)[0])


def accepted(how, n, w, rho, p, u1):
    if how == "mag_binary":
        A = np.asarray(call(mag_binary, jnp.array(w), rho, u1=u1, MAX_FULL_CALLS=NP, chunk_size=NP, **COARSE, **p))
    else:
        A = np.asarray(call(magnifications, jnp.array(w), rho, nlenses=n, npts_limb=40, limb_darkening=bool(u1), u1=u1, npts_ld=20, **p))
    H = hexa(n, w, rho, p, u1)
    return A, np.abs(A - H) <= 1e-9 * np.abs(H)


def reference(n, w, rho, p, u1):
    if n == 1:
        return np.array([c12.ref("limbd", abs(x), rho, u1) if u1 else c12.ref("disk", abs(x), rho, 0.0) for x in w])
    return refs.vb_binary(w, rho, u1=u1, **p)


def draw(how, n):
    def fn(rng):
        if n == 1:
            p = {}
        elif rng.random() < 0.5:
            p = gen.binary(rng, qmin=1e-6, planet=0.9)
        else:
            p = gen.binary(rng, qmin=1e-6)
        rho = float(10 ** rng.uniform(-3, -0.5))
        far = 10 ** rng.uniform(0, 1.7)
        if n == 1:
            w = rho * np.exp(rng.uniform(-1, 4, NP)) * np.exp(2j * np.pi * np.where(rng.random(NP) < 0.3, 0.0, rng.random(NP)))
        else:
            cau = refs.caustic_points(2, 100, **p)[0]
            cau = cau[np.abs(cau) < 5]
            near = rng.random(NP) < 0.8
            w = np.where(near, cau[rng.integers(len(cau), size=NP)] + rho * rng.uniform(0, far, NP) * np.exp(2j * np.pi * rng.random(NP)),
                         rng.uniform(-2, 2, NP) + 1j * rng.uniform(-2, 2, NP))
            w = np.where(rng.random(NP) < 0.1, w.real + 0j, w)
        return {"how": how, "n": n, "p": p, "rho": rho, "u1": float(rng.choice([0.0, 0.0, 0.5])) if n == 2 else float(rng.choice([0.0, 0.5, 1.0])),
                "w": pairs(w), "seed": int(rng.integers(2 ** 31))}
    return fn


def run(case, rec):
    how, n, p, rho, u1 = case["how"], case["n"], case["p"], case["rho"], case["u1"]
    w = cplx(pad(case["w"], NP))
    rng = np.random.default_rng(case["seed"])
    step = rho
    for rounds in range(3):
        A, ok = accepted(how, n, w, rho, p, u1)
        V = np.full(NP, np.nan)
        if ok.any():
            V[ok] = reference(n, w[ok], rho, p, u1)
        e = np.where(ok, np.abs(A / V - 1), -1.0)
        e[~np.isfinite(e)] = -1
        for j in np.flatnonzero(e > 0.01):
            t = V[j] if n == 1 else finite.truth(n, w[j], rho, p, u1)
            if abs(A[j] / t - 1) > 0.01:
                raise Violation(f"{how}: {n} lenses {p} w={w[j]} rho={rho} u1={u1}: accepted multipole value {A[j]:.6g}, true value {t:.6g}")
            e[j] = -1
        for j in range(NP):
            rec.point([how, n, p, [w[j].real, w[j].imag], rho, u1], e[j] > 1e-6, "accepted" if ok[j] else "rejected", f"search round {rounds}")
            if e[j] > 0:
                rec.metric("error of accepted values", e[j])
        if e.max() <= 0 or len(case["w"]) < NP:
            break
        # move towards the accepted positions with the largest error
        best = w[np.argsort(-e)[:6]]
        w = best[rng.integers(len(best), size=NP)] + step * rng.normal(size=NP) + 1j * step * rng.normal(size=NP)
        step /= 3


def ex(how, n, p, rho, u1, w):
    return {"how": how, "n": n, "p": p, "rho": rho, "u1": u1, "w": pairs(np.atleast_1d(np.asarray(w, complex))), "seed": 1}


PB = [((0.9340690376463426, 0.2542183584106824), 0.06652598745982287, -0.22439583696200335 - 0.3821621774076599j), ((1.80124, 2.0337e-6), .00943, 1.24972 - .00782j), ((1.0, 1e-3), 0.01, 0.03 + 0.01j), ((1.3, 1e-5), 0.003, 0.535 + 0.002j),
      ((0.7, 1e-4), 0.01, -0.73 + 0.03j), ((0.7, 1e-4), 0.01, 0.73 + 0.03j)]
EB = {h: [ex(h, 2, {"s": s, "q": q}, r, u1, w) for (s, q), r, w in PB for u1 in (0.0, 0.5)] for h in ("mag_binary", "magnifications")}
E1 = [ex("magnifications", 1, {}, r, u1, [r * 2.01, r * 3, -2.01 * r, 1j * r, 0.5 * r]) for r in (0.3, 0.01) for u1 in (0.0, 1.0)]
RULE = "accepted positions where the hexadecapole differs measurably from the truth"

SUBS = [
    Sub("mag_binary", lambda: custom(draw("mag_binary", 2)), run, 190, 8000, RULE, shards=4, tshards=8, examples=EB["mag_binary"]),
    Sub("magnifications", lambda: custom(draw("magnifications", 2)), run, 130, 5000, RULE, shards=3, tshards=8, examples=EB["magnifications"]),
    Sub("single", lambda: custom(draw("magnifications", 1)), run, 60, 1500, RULE, examples=E1),
]

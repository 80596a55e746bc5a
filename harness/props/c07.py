"""C07 hexadecapole: exact Taylor coefficients by truncated power series of the lens equation,
sixth-order convergence to the true flux average, residual, limits."""
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary                # noqa: E402
from microjax.point_source import _images_point_source, mag_point_source        # noqa: E402

ASSUMPTIONS = ["images with |det J| > 1e-4; convergence measured where rho is at most a quarter of the distance to the nearest singularity"]
NP = 8
NIMG = {1: 2, 2: 5, 3: 10}


# ------------------------------- power series in (eps, conj eps), orders 0..2 in each
def smul(a, b):
    out = np.zeros_like(a)
    for j in range(3):
        for k in range(3):
            for i in range(j + 1):
                for l in range(k + 1):
                    out[j, k] += a[i, l] * b[j - i, k - l]
    return out


def sconj(a):
    return np.conj(np.swapaxes(a, 0, 1))


def sinv(a):
    v = a / a[0, 0]
    v[0, 0] = 0
    out = np.zeros_like(a)
    out[0, 0] = 1
    p = out.copy()
    for _ in range(4):
        p = -smul(p, v)
        out = out + p
    return out / a[0, 0]


def taylor(z, m, zl):
    """signed magnification of each image and the exact second- and fourth-order ring-mean
    coefficients c1, c2 of its dependence on the source position (ring mean = mu + c1 r^2 + c2 r^4)."""
    z = np.asarray(z, complex)
    S = np.zeros((3, 3) + z.shape, complex)
    S[0, 0] = z
    zeta0 = refs.lens_map(z, m, zl)
    g = np.conj(refs.gamma_shear(z, m, zl))
    det = 1 - np.abs(g) ** 2
    for _ in range(6):
        R = S.copy()
        for mi, zi in zip(m, zl):
            u = S.copy()
            u[0, 0] = u[0, 0] - zi
            R = R - mi * sconj(sinv(u))
        R[0, 0] -= zeta0
        R[1, 0] -= 1
        R[0, 0] = 0
        Rc = sconj(R)
        S = S + (-R + g * Rc) / det
    G = np.zeros_like(S)
    for mi, zi in zip(m, zl):
        u = S.copy()
        u[0, 0] = u[0, 0] - zi
        i = sinv(u)
        G = G + mi * smul(i, i)
    J = -smul(G, sconj(G))
    J[0, 0] += 1
    mu = sinv(J)
    return mu[0, 0].real, mu[1, 1].real, mu[2, 2].real


def rounding(z, m, zl, rho):
    """what double precision loses per image in Cassan's recursion (terms of order mu^6 and mu^10 cancel)"""
    mu0 = 1 / np.abs(refs.det_jac(z, m, zl))
    w3 = 2 * np.sum(m / np.abs(z[:, None] - zl[None]) ** 3, axis=1)
    return 1e-14 * (mu0 ** 6 * (1 + w3) ** 2 * rho ** 2 + mu0 ** 10 * (1 + w3) ** 4 * rho ** 4)


def moments(u1):
    n = (1 - u1) / 2 + u1 / 3
    return ((1 - u1) / 4 + u1 * 2 / 15) / n, ((1 - u1) / 6 + u1 * 8 / 105) / n


def lens(rng, n):
    p = gen.lens(rng, n)
    return p


def draw(rng):
    n = int(rng.choice([1, 2, 2, 3, 3]))
    p = lens(rng, n)
    return {"n": n, "p": p, "w": pairs(gen.sources(rng, n, p, NP, dmin=-3)),
            "rho": float(10 ** rng.uniform(-4, -0.3)) if rng.random() < 0.9 else 0.0,
            "u1": float(rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1)])), "g": int(rng.integers(2 ** 31))}


def run(case, rec):
    n, p, rho, u1 = case["n"], case["p"], case["rho"], case["u1"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(pad(case["w"], NP)) - xcm
    rng = np.random.default_rng(case["g"])
    Z = 3 * (rng.normal(size=(NIMG[n], NP)) + 1j * rng.normal(size=(NIMG[n], NP)))
    M = np.zeros((NIMG[n], NP), bool)
    rows = []
    for j in range(NP):
        z = refs.images(w[j], m, zl)
        z = z[np.abs(refs.det_jac(z, m, zl)) > 1e-4][:NIMG[n]]
        k = rng.permutation(NIMG[n])[:len(z)]
        Z[k, j], M[k, j] = z, True
        rows.append(k)
    A, R = call(mag_hexadecapole, jnp.array(Z), jnp.array(M), rho, u1=u1, nlenses=n, **refs.params_mid(n, **p))
    A, R = np.asarray(A), np.asarray(R)
    if A.shape != (NP,) or R.shape != (NP,):
        raise Violation(f"output shapes {A.shape} {R.shape}")
    q2, q4 = moments(u1)
    for j in range(len(case["w"])):
        z = Z[rows[j], j]
        if len(z) == 0:
            continue
        mu, c1, c2 = taylor(z, m, zl)
        quad, hexa = c1 * q2 * rho ** 2, c2 * q4 * rho ** 4
        want, res = np.sum(np.abs(mu + quad + hexa)), np.sum(np.abs(quad) + np.abs(hexa))
        g = np.abs(refs.gamma_shear(z, m, zl))
        near = np.abs(z[:, None] - zl[None])
        # third mass is rounded to 1e-16; everything is magnified when det J is small
        cond = (1 + g ** 2) / np.abs(1 - g ** 2) * (1 + np.sum(1e-4 / near ** 2, axis=1)) * (1 + 0.1 / near.min(axis=1)) / min(1, m.min() * 1e3)
        tol = np.sum(np.minimum(1.0, 1e-12 * cond) * (np.abs(mu) + 9 * np.abs(quad) + 9 * np.abs(hexa)) + rounding(z, m, zl, rho))
        key = [n, p, case["w"][j], rho, u1]
        if tol > 1e-3 * want:
            rec.point(key, False, "not judged")
            continue
        if not abs(A[j] - want) <= tol + 1e-13 * want:
            raise Violation(f"{n} lenses {p} w={case['w'][j]} rho={rho} u1={u1}: hexadecapole {A[j]:.14g}, exact multipole expansion {want:.14g} (tol {tol:.1e})")
        if not abs(R[j] - res) <= tol + 1e-13 * want:
            raise Violation(f"{n} lenses {p} w={case['w'][j]} rho={rho} u1={u1}: residual {R[j]:.14g}, exact {res:.14g}")
        rec.metric("err", abs(A[j] / want - 1))
        rec.point(key, rho > 0 and res > 1e-12 * want, f"n{n}:{len(z)}", "limb-darkened" if u1 else "uniform")
    # other shapes give the same numbers
    B, _ = call(mag_hexadecapole, jnp.array(Z.reshape(-1, 2, 4)), jnp.array(M.reshape(-1, 2, 4)), rho, u1=u1, nlenses=n, **refs.params_mid(n, **p))
    if np.shape(B) != (2, 4) or not np.allclose(np.asarray(B).ravel(), A, rtol=1e-9, atol=0, equal_nan=True):
        raise Violation(f"another array shape changes the hexadecapole: {np.asarray(B).ravel()} vs {A}")


# ---------------------------------------------------- convergence to the true average
NR, NT = 6, 20
_GLX, _GLW = np.polynomial.legendre.leggauss(NR)


def profile_nodes(u1):
    """radii (in units of rho), weights of the flux average over the disc (exact for even polynomials of degree 10+)."""
    # uniform part: r^2 uniform in [0,1]; limb part: t = sqrt(1-r^2), r dr = -t dt, weight t^2
    x = 0.5 * (_GLX + 1)
    r_u, w_u = np.sqrt(x), 0.25 * _GLW                       # int I r dr with I=1 -> 1/2
    r_l, w_l = np.sqrt(1 - x ** 2), 0.5 * _GLW * x ** 2      # int t^2 dt -> 1/3
    r = np.concatenate([r_u, r_l])
    wt = np.concatenate([(1 - u1) * w_u, u1 * w_l])
    return r, wt / wt.sum()


def track(z, w0, dw, m, zl, steps=6):
    """Newton continuation of images z(w0) to w0+dw (dw has shape (P,), z (N,)) -> (N,P)"""
    Z = np.repeat(z[:, None], len(dw), axis=1)
    for k in range(1, steps + 1):
        tgt = w0 + dw * k / steps
        for _ in range(4 if k < steps else 8):
            F = refs.lens_map(Z, m, zl) - tgt
            g = np.conj(refs.gamma_shear(Z, m, zl))
            Z = Z - (F - g * np.conj(F)) / (1 - np.abs(g) ** 2)
    ok = np.abs(refs.lens_map(Z, m, zl) - w0 - dw) < 1e-11 * (1 + np.abs(Z))
    return Z, ok.all()


def true_average(z, w0, rho, u1, m, zl):
    r, wt = profile_nodes(u1)
    th = 2 * np.pi * np.arange(NT) / NT
    tot = 0.0
    for ri, wi in zip(r, wt):
        if wi == 0:
            continue
        Z, ok = track(z, w0, rho * ri * np.exp(1j * th), m, zl)
        if not ok:
            return None
        d = refs.det_jac(Z, m, zl)
        if np.any(np.sign(d) != np.sign(d[:, :1])):
            return None
        tot += wi * np.sum(np.mean(1 / np.abs(d), axis=1))
    return tot


def draw_conv(rng):
    n = int(rng.choice([1, 2, 2, 3, 3]))
    p = gen.binary(rng, qmin=1e-3) if n == 2 else gen.triple(rng, qmin=9e-3, q3min=9e-3) if n == 3 else {}
    return {"n": n, "p": p, "w": pairs(gen.sources(rng, n, p, NP, dmin=-1.5, dmax=0.0)),
            "f": float(rng.uniform(0.15, 0.25)), "u1": float(rng.choice([0.0, 1.0, rng.uniform(0, 1)]))}


def run_conv(case, rec):
    n, p, u1 = case["n"], case["p"], case["u1"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(pad(case["w"], NP)) - xcm
    low = refs.params_mid(n, **p)
    z, mask = call(_images_point_source, jnp.array(w), nlenses=n, **low)
    if n > 1:
        ca = refs.caustic_points(n, 300, **p)[0] - xcm
    reps = [refs.Report(x, m, zl) for x in w]
    # distance to the nearest caustic, or to the nearest complex singularity (images about to merge, e.g. just before caustics join)
    dist = np.array([min(np.abs(ca - x).min() if n > 1 else abs(x), np.min(r.det ** 2 / (r.ddet + 1e-300))) for x, r in zip(w, reps)])
    for j, r in enumerate(reps):
        if len(r.z) and np.abs(r.det).min() > 1e-4:
            mu, c1, c2 = (np.abs(x) for x in taylor(r.z, m, zl))
            dist[j] = min(dist[j], np.min(np.sqrt(2 * mu / (c1 + 1e-300))), np.min((4 * mu / (c2 + 1e-300)) ** 0.25))
    E, rhos = [], []
    for k in (1, 2, 4):
        rho = case["f"] * dist / k
        A = np.array([np.nan] * NP)
        A = np.asarray(call(lambda: mag_hexadecapole(z, mask, jnp.array(rho), u1=u1, nlenses=n, **low)[0]))
        E.append(A)
        rhos.append(rho)
    for j in range(len(case["w"])):
        rep = reps[j]
        key = [n, p, case["w"][j], case["f"], u1]
        if not rep.generic or not rep.complete or rep.dA > 1e-7 * rep.A or dist[j] < 1e-3 or dist[j] > 2:
            rec.point(key, False, "not judged")
            continue
        T = [true_average(rep.z, w[j], r[j], u1, m, zl) for r in rhos]
        if any(t is None for t in T):
            rec.point(key, False, "images not tracked")
            continue
        e = [abs(E[i][j] - T[i]) for i in range(3)]
        fl = 1e-10 * rep.A + 10 * rep.dA + np.sum(rounding(rep.z, m, zl, rhos[0][j]))
        for i, k in ((1, 2), (2, 4)):
            if not e[i] <= 8 * e[0] / k ** 6 + fl:
                raise Violation(f"{n} lenses {p} w={case['w'][j]} u1={u1} rho={rhos[0][j]:.4g}: hexadecapole error {e[0]:.3e} falls only to {e[i]:.3e} at rho/{k}")
        if not e[0] <= 0.02 * rep.A:
            raise Violation(f"{n} lenses {p} w={case['w'][j]} u1={u1} rho={rhos[0][j]:.4g}: hexadecapole {E[0][j]} but the flux average is {T[0]}")
        rec.metric("error at f*distance", e[0] / rep.A)
        rec.point(key, e[0] > 10 * fl, f"n{n}", "limb-darkened" if u1 else "uniform")


# ------------------------------- through the public light-curve functions, rho -> 0 and size
def draw_pub(rng):
    p = gen.binary(rng, qmin=1e-4)
    return {"p": p, "w": pairs(gen.sources(rng, 2, p, NP, dmin=-2)), "rho": float(10 ** rng.uniform(-6, -1.5)), "u1": float(rng.choice([0.0, 0.5]))}


def run_pub(case, rec):
    p, rho, u1 = case["p"], case["rho"], case["u1"]
    m, zl, xcm = refs.system(2, **p)
    w = cplx(pad(case["w"], NP))
    A = np.asarray(call(mag_binary, jnp.array(w), rho, u1=u1, MAX_FULL_CALLS=0, r_resolution=20, th_resolution=20, Nlimb=20, chunk_size=1, **p))
    P = np.asarray(call(mag_point_source, jnp.array(w), nlenses=2, **p))
    z, mask = call(_images_point_source, jnp.array(w - xcm), nlenses=2, **refs.params_mid(2, **p))
    q2, q4 = moments(u1)
    for j in range(len(case["w"])):
        zz = np.asarray(z)[:, j][np.asarray(mask)[:, j]]
        key = [p, case["w"][j], rho, u1]
        if len(zz) not in (3, 5) or np.abs(refs.det_jac(zz, m, zl)).min() < 1e-3:
            rec.point(key, False, "close to a caustic")
            continue
        mu, c1, c2 = taylor(zz, m, zl)
        want = np.sum(np.abs(mu + c1 * q2 * rho ** 2 + c2 * q4 * rho ** 4))
        rnd = np.sum(rounding(zz, m, zl, rho))
        if rnd > 0.01 * want:
            rec.point(key, False, "not judged")
            continue
        if not abs(A[j] - want) <= 1e-7 * want + rnd:
            raise Violation(f"binary {p} w={case['w'][j]} rho={rho} u1={u1}: multipole light curve {A[j]:.12g}, expansion {want:.12g}")
        if rho < 1e-5 and rnd < 1e-6 * want and not abs(A[j] - P[j]) <= 1e-7 * P[j] + np.sum(np.abs(c1)) * rho ** 2:
            raise Violation(f"binary {p} w={case['w'][j]} rho={rho}: multipole light curve {A[j]:.12g}, point source {P[j]:.12g}")
        rec.point(key, True, "limb-darkened" if u1 else "uniform")


SUBS = [
    Sub("expansion", lambda: custom(draw), run, 400, 12000, "non-zero multipole correction, exact Taylor coefficients known to 1e-3", shards=3),
    Sub("convergence", lambda: custom(draw_conv), run_conv, 120, 3000, "generic position; error at the largest radius above rounding", shards=3),
    Sub("lightcurve", lambda: custom(draw_pub), run_pub, 120, 3000, "position off the caustic", shards=1),
]

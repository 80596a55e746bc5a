"""C04 critical curves and caustics: membership, completeness, consistency, contiguity, folds."""
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.point_source import critical_and_caustic_curves, mag_point_source      # noqa: E402

NPTS = [50, 120, 200, 601]
ASSUMPTIONS = ["double-precision condition number of the critical polynomial bounds the position tolerance",
               "contiguity judged only where the root motion over one phase step is below 15 per cent of the root separation",
               "samples within 2e-5 of a lens (width of a low-mass planet's secondary critical curve) judged by the tolerance only"]


def draw(rng):
    n = int(rng.choice([1, 2, 2, 2, 3, 3, 3]))
    return {"n": n, "p": gen.lens(rng, n), "npts": int(rng.choice(NPTS, p=[.2, .3, .35, .15]))}


def crit_poly(m, zl, phase, bound=False):
    """coefficients of the critical polynomial; with ``bound`` the sums of the magnitudes of their terms"""
    P = np.poly1d
    if bound:
        m, zl, phase = -np.abs(m), -np.abs(zl), 1.0
    lin = [P([1.0, -z]) for z in zl]
    D = P([1.0])
    for l in lin:
        D = D * l * l
    acc = D * phase
    for i in range(len(m)):
        t = P([m[i]])
        for j in range(len(m)):
            if j != i:
                t = t * lin[j] * lin[j]
        acc = acc - t
    return np.asarray(acc.c, complex)


def run(case, rec):
    n, p, npts = case["n"], case["p"], case["npts"]
    zc, wc = call(critical_and_caustic_curves, npts=npts, nlenses=n, **p)
    zc, wc = np.atleast_2d(np.asarray(zc)), np.atleast_2d(np.asarray(wc))
    nb = {1: 1, 2: 4, 3: 6}[n]
    if zc.shape != (nb, npts) or wc.shape != (nb, npts):
        raise Violation(f"{n} lenses: curves have shapes {zc.shape}, {wc.shape} for npts={npts}")
    finite(zc, "critical curve")
    finite(wc, "caustic")
    what = f"{n} lenses {p} npts={npts}"
    if n == 1:
        if np.any(np.abs(np.abs(zc) - 1) > 1e-12) or np.any(np.abs(wc) > 1e-12) or \
                np.any(np.abs(np.diff(zc[0])) > 2 * np.pi / (npts - 1) * 1.001) or abs(np.sum(np.diff(np.unwrap(np.angle(zc[0]))))) < 6.28:
            raise Violation(f"{what}: single-lens critical curve is not the unit circle")
        rec.point([n, p, npts], True, "n1")
        return
    m, zl, xcm = refs.system(n, **p)
    z = zc - xcm
    phi = np.linspace(-np.pi, np.pi, npts)
    gp = np.abs(sum(-2 * mi / (z - zi) ** 3 for mi, zi in zip(m, zl)))
    det = refs.det_jac(z, m, zl)
    # caustic = lens map of the critical curve, same index
    W = refs.lens_map(z, m, zl) + xcm
    sens = 1 + np.abs(refs.gamma_shear(z, m, zl))
    if np.any(np.abs(W - wc) > 1e-10 * sens * (1 + np.abs(W) + np.abs(z))):
        i = np.unravel_index(np.argmax(np.abs(W - wc)), W.shape)
        raise Violation(f"{what}: caustic sample {wc[i]} is not the image {W[i]} of the critical sample {zc[i]}")
    # conditioning and complete solution set per phase
    unamb = 0
    gen_ok = np.ones(npts, bool)
    dz = np.zeros_like(gp)
    sep = np.zeros_like(gp)
    # critical_and_caustic's phase convention: gamma(z) = exp(i phi) or its conjugate - read it off the samples
    g = refs.gamma_shear(z, m, zl)
    size = np.abs(crit_poly(m, zl, 1.0, bound=True))
    for k in range(npts):
        r = z[:, k]
        c = crit_poly(m, zl, np.exp(-1j * phi[k]))
        c2 = crit_poly(m, zl, np.exp(1j * phi[k]))
        best = None
        for cc in (c, c2):
            ref = np.roots(cc)
            for _ in range(3):
                ref = ref - np.polyval(cc, ref) / np.polyval(np.polyder(cc), ref)
            D = np.abs(r[:, None] - ref[None, :])
            with np.errstate(all="ignore"):
                tol = 1e-11 + 1e5 * refs.EPS * np.polyval(size, np.abs(ref)) / np.abs(np.polyval(np.polyder(cc), ref))
            score = np.max(np.min(D, axis=0) - tol)
            if best is None or score < best[0]:
                best = (score, ref, D, tol)
        _, ref, D, tol = best
        s = np.abs(ref[:, None] - ref[None]) + 1e9 * np.eye(nb)
        own = np.argmin(D, axis=1)
        dz[:, k] = tol[own]
        sep[:, k] = s.min(axis=1)[own]
        if np.all(tol < 0.1 * s.min(axis=1)):
            if np.any(D[np.arange(nb), own] > tol[own]) or len(set(own.tolist())) != nb:
                raise Violation(f"{what}: phase {phi[k]:.6f}: roots {r} are not the {nb} solutions {ref} of |shear| = 1 with one phase")
        else:
            gen_ok[k] = False
    # membership in det J = 0
    bad = np.abs(det) > 4 * gp * dz * sens + 1e-10
    if np.any(bad & gen_ok[None]):
        i = np.unravel_index(np.argmax(np.where(bad & gen_ok[None], np.abs(det), 0)), det.shape)
        raise Violation(f"{what}: det J = {det[i]:.3g} at the critical sample {zc[i]}")
    # contiguity: |dz/dphi| = |gamma/gamma'| ; judged where one step is much shorter than the root separation
    step = (phi[1] - phi[0]) / np.maximum(gp, 1e-300)
    ok = gen_ok & np.all(step < 0.15 * sep, axis=0)
    jump = np.abs(np.diff(z, axis=1))
    for k in range(npts - 1):
        if ok[k] and ok[k + 1]:
            unamb += 1
            if np.any(jump[:, k] > 0.45 * sep[:, k]):
                b = int(np.argmax(jump[:, k] / sep[:, k]))
                raise Violation(f"{what}: branch {b} jumps from {zc[b, k]} to {zc[b, k + 1]} between phases {k} and {k + 1}")
    topo = "close" if n == 2 and p["s"] < 0.8 else "wide" if n == 2 and p["s"] > 1.7 else "other"
    rec.label("phase steps judged for contiguity", unamb)
    rec.label("phase steps", npts - 1)
    rec.point([n, p, npts], unamb > 0.2 * npts, f"n{n}", f"n{n} {topo}")


# --------------------------------------------------------------------- folds
def draw_fold(rng):
    n = int(rng.choice([2, 2, 3]))
    p = gen.binary(rng, qmin=1e-3) if n == 2 else gen.triple(rng, qmin=1e-2, q3min=1e-2)
    return {"n": n, "p": p, "k": [[int(rng.integers(6)), int(rng.integers(1, 119))] for _ in range(12)]}


def run_fold(case, rec):
    n, p = case["n"], case["p"]
    zc, wc = call(critical_and_caustic_curves, npts=120, nlenses=n, **p)
    zc, wc = np.asarray(zc), np.asarray(wc)
    m, zl, xcm = refs.system(n, **p)
    for b, k in case["k"]:
        b %= zc.shape[0]
        w0, z0 = wc[b, k], zc[b, k] - xcm
        g = refs.gamma_shear(z0, m, zl)
        gpr = sum(-2 * mi / (z0 - zi) ** 3 for mi, zi in zip(m, zl))
        # tangent dw/dphase of the caustic here and a little further along (exact critical points by Newton)
        def caus(d):
            z = z0
            for f in np.linspace(0, d, 1 + int(np.ceil(abs(d) / 0.05)))[1:] if d else [0.0]:
                for _ in range(6):
                    G = refs.gamma_shear(z, m, zl)
                    Gp = sum(-2 * mi / (z - zi) ** 3 for mi, zi in zip(m, zl))
                    z = z - (G - g * np.exp(1j * f)) / Gp
            return refs.lens_map(z, m, zl)
        t, tl, tr = ((caus(d + 1e-5) - caus(d - 1e-5)) / 2e-5 for d in (0.0, -0.2, 0.2))
        if not np.isfinite(abs(t)) or abs(t) < 0.02 or min((tl * np.conj(t)).real, (tr * np.conj(t)).real) < 0.4 * abs(t) ** 2:
            rec.point([n, p, b, k], False, "near a cusp")
            continue
        nrm = 1j * t / abs(t)
        dense, _ = refs.caustic_points(n, 720, **p)

        def sides(eps):
            d = dense[np.abs(dense - w0) < 4 * eps] - w0
            if len(d) > 1.3 * 8 * eps / abs(t) / (2 * np.pi / 720) + 3 or np.any(np.abs((d * np.conj(nrm)).real) > 0.6 * eps):
                return None
            return [refs.images_ghosts(w0 - xcm + sg * eps * nrm, m, zl) for sg in (1, -1)]
        eps = min(0.02 * abs(t), 0.01)
        r = sides(eps)
        if r is None:
            rec.point([n, p, b, k], False, "another caustic nearby")
            continue
        if abs(len(r[0][0]) - len(r[1][0])) != 2:
            eps /= 4
            r = sides(eps)
            if r is None:
                rec.point([n, p, b, k], False, "another caustic nearby")
                continue
        ra, rb = r
        # the reference must itself be unambiguous on both sides
        parity = [int(np.sum(np.sign(refs.det_jac(x[0], m, zl)))) for x in (ra, rb)]
        if parity != [1 - n, 1 - n]:
            rec.point([n, p, b, k], False, "reference ambiguous")
            continue
        na, nb_ = len(ra[0]), len(rb[0])
        if abs(na - nb_) != 2:
            raise Violation(f"{n} lenses {p}: across the caustic sample {w0} (branch {b}, {k}) the image number goes {na} -> {nb_}, eps={eps:.2g}")
        A = np.asarray(call(mag_point_source, jnp.array(w0 + np.array([eps, -eps]) * nrm), nlenses=n, **p))
        hi, lo = (0, 1) if na > nb_ else (1, 0)
        ref = [np.sum(1 / np.abs(refs.det_jac(x[0], m, zl))) for x in (ra, rb)]
        if not A[hi] > A[lo] and ref[hi] > 1.05 * ref[lo]:
            raise Violation(f"{n} lenses {p}: magnification {A[lo]} outside >= {A[hi]} inside the fold at {w0}")
        rec.point([n, p, b, k], True, f"n{n}: {min(na, nb_)}->{max(na, nb_)}")


SUBS = [
    Sub("curves", lambda: custom(draw, ()), run, 240, 6000, "more than a fifth of the phase steps unambiguous for contiguity", shards=4),
    Sub("folds", lambda: custom(draw_fold, ("k",)), run_fold, 110, 3000, "regular fold with a single caustic stretch nearby", shards=4),
]

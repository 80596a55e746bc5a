"""C03 symmetries and limits: mirror images, exchange and relabelling of the lenses, and the lower-order lens as a
mass or a separation vanishes.  Metamorphic: both sides are results of the package."""
import numpy as np
from core import *
import finite
import gen
import refs
from props.c07 import rounding, taylor, moments

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple    # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.point_source import _images_point_source, mag_point_source        # noqa: E402

ASSUMPTIONS = ["point sources: both sides are compared to the tolerance that double precision allows the polynomial in each labelling",
               "limits: the allowed difference is four times the first-order effect of the vanishing component, judged where that is below 5 per cent",
               "finite sources: a difference at resolution 300 counts only if it persists at resolution 1200 with finer bins and limb sampling"]
NP = 8


# ------------------------------------------------------------ transformations
def relabel(n, p, w, i, j):
    """the same lenses with lens i as primary and lens j as secondary (0: secondary, 1: primary, 2: third)"""
    m, zl, xcm = refs.system(n, **p)
    mid, d = (zl[i] + zl[j]) / 2, zl[j] - zl[i]
    s = abs(d)
    d = d / s
    out = {"s": float(s), "q": float(m[j] / m[i])}
    if n == 3:
        k = 3 - i - j
        z3 = (zl[k] - mid) * np.conj(d)
        out.update(q3=float(m[k] / m[i]), r3=float(abs(z3)), psi=float(np.angle(z3)))
    x = 0.5 * s * (1 - out["q"]) / (1 + out["q"])
    return out, (np.asarray(w) - xcm - mid) * np.conj(d) + x


def mirror(n, p, w):
    return (dict(p, psi=-p["psi"]) if n == 3 else dict(p)), np.conj(w)


def transform(case, p, w):
    n, op = case["n"], case["op"]
    if op[0] == "rotate":                                             # single lens
        return {}, np.asarray(w) * np.exp(1j * op[1])
    if op[0] == "mirror":
        return mirror(n, p, w)
    if op[0] == "psi":                                                # a full turn of the third lens
        return dict(p, psi=p["psi"] + 2 * np.pi * op[1]), np.asarray(w)
    if op[0] == "back":                                               # r3 < 0 is the opposite direction
        return dict(p, r3=-p["r3"], psi=p["psi"] + np.pi), np.asarray(w)
    p2, w2 = relabel(n, p, w, op[1], op[2])
    return mirror(n, p2, w2) if op[0] == "relabel mirror" else (p2, w2)


def draw_op(rng, n):
    if n == 1:
        return [["rotate", float(rng.uniform(-np.pi, np.pi))], ["mirror"]][int(rng.integers(2))]
    if n == 2:
        return [["mirror"], ["relabel", 0, 1], ["relabel mirror", 0, 1]][int(rng.integers(3))]
    ij = [(0, 1), (0, 2), (2, 0), (1, 2), (2, 1)][int(rng.integers(5))]
    return [["mirror"], ["psi", int(rng.choice([-1, 1]))], ["back"], ["relabel", *ij], ["relabel", *ij], ["relabel mirror", *ij]][int(rng.integers(6))]


def low(n, p):
    return refs.params_mid(n, **p)


def xcm(n, p):
    return refs.system(n, **p)[2]


# ------------------------------------------------------------------ point source
def draw(rng):
    n = int(rng.choice([1, 2, 2, 3, 3, 3]))
    p = gen.lens(rng, n) if n < 3 else gen.triple(rng, qmin=3e-3 if rng.random() < 0.7 else 1e-4, q3min=3e-3 if rng.random() < 0.7 else 1e-4)
    return {"n": n, "p": p, "op": draw_op(rng, n), "rho": float(10 ** rng.uniform(-3.5, -1)), "u1": float(rng.choice([0.0, 0.5, 1.0])),
            "w": pairs(gen.sources(rng, n, p, NP, dmin=-3))}


def hexa(n, p, w, rho, u1):
    z, mask = call(_images_point_source, jnp.array(w - xcm(n, p)), nlenses=n, **low(n, p))
    A, R = call(mag_hexadecapole, z, mask, rho, u1=u1, nlenses=n, **low(n, p))
    return np.asarray(A), np.asarray(R)


def run(case, rec):
    n, p, rho, u1 = case["n"], case["p"], case["rho"], case["u1"]
    w = cplx(pad(case["w"], NP))
    p2, w2 = transform(case, p, w)
    A, B = (np.asarray(call(mag_point_source, jnp.array(x), nlenses=n, **y)) for x, y in ((w, p), (w2, p2)))
    HA, RA = hexa(n, p, w, rho, u1)
    HB, RB = hexa(n, p2, w2, rho, u1)
    S = [refs.system(n, **p), refs.system(n, **p2)]
    for j in range(len(case["w"])):
        r1, r2 = (refs.Report(x - s[2], s[0], s[1]) for x, s in ((w[j], S[0]), (w2[j], S[1])))
        tol = r1.dA + r2.dA
        key = [n, p, case["op"], case["w"][j]]
        if not (r1.generic and r2.generic and r1.complete and r2.complete and tol < 1e-2 * r1.A):
            rec.point(key, False, "not judged")
            continue
        if not abs(A[j] - B[j]) <= tol:
            raise Violation(f"{n} lenses {p} w={case['w'][j]}: point-source magnification {A[j]:.14g} becomes {B[j]:.14g} under {case['op']} "
                            f"(expected {r1.A:.14g}, tolerance {tol:.1e})")
        rec.metric("point source", abs(A[j] - B[j]) / r1.A)
        if n < 3 or min(low(3, p)["e1"], low(3, p)["e2"]) > 3e-3:
            mu, c1, c2 = (np.abs(x) for x in taylor(r1.z, S[0][0], S[0][1]))
            q2, q4 = moments(u1)
            terms = mu + c1 * q2 * rho ** 2 + c2 * q4 * rho ** 4
            with np.errstate(all="ignore"):
                amp = np.where(r1.mu > 0, (tol / r1.A + 1e-10) * (1 + r1.mu) ** 2 * 50, 0)
            ht = np.sum(terms * np.minimum(1, amp)) + sum(np.sum(rounding(r.z, s[0], s[1], rho)) for r, s in zip((r1, r2), S))
            if ht < 1e-3 * np.sum(mu):
                for a, b, what in ((HA[j], HB[j], "hexadecapole"), (RA[j], RB[j], "its residual")):
                    if not abs(a - b) <= ht + 1e-12 * abs(a):
                        raise Violation(f"{n} lenses {p} w={case['w'][j]} rho={rho} u1={u1}: {what} {a:.12g} becomes {b:.12g} under {case['op']} (tolerance {ht:.1e})")
                rec.label("hexadecapole compared")
        rec.point(key, abs(r1.A - 1) > 1e-3, f"n{n} {case['op'][0]}")


# ------------------------------------------------------------------------ limits
def draw_limit(rng):
    kind = str(rng.choice(["q", "s", "q3", "q3", "q+q3"]))
    eps = float(10 ** rng.uniform(-7, -2.5))
    if kind == "q":
        p, n = dict(gen.binary(rng, qmin=1e-3), q=eps), 2
    elif kind == "s":
        p, n = dict(gen.binary(rng, qmin=1e-3), s=float(10 ** rng.uniform(-3, -1))), 2
    elif kind == "q3":
        p, n = dict(gen.triple(rng, qmin=1e-2), q3=eps), 3
    else:
        p, n = dict(gen.triple(rng), q3=eps, q=float(10 ** rng.uniform(-7, -2.5))), 3
    return {"n": n, "p": p, "kind": kind, "w": pairs(gen.sources(rng, n, p, NP, dmin=-1.5, dmax=0, near=0.3))}


def run_limit(case, rec):
    n, p, kind = case["n"], case["p"], case["kind"]
    w = cplx(pad(case["w"], NP))
    n0, p0 = (2, {"s": p["s"], "q": p["q"]}) if kind == "q3" else (1, {})
    A = np.asarray(call(mag_point_source, jnp.array(w), nlenses=n, **p))
    B = np.asarray(call(mag_point_source, jnp.array(w), nlenses=n0, **p0))
    m, zl, x = refs.system(n, **p)
    m0, zl0, x0 = refs.system(n0, **p0)
    for j in range(len(case["w"])):
        key = [n, p, case["w"][j]]
        r0, r1 = refs.Report(w[j] - x0, m0, zl0), refs.Report(w[j] - x, m, zl)
        # first-order effect of the lens that is about to vanish on the images of the simpler system (public frame)
        z = r0.z + x0
        pos = zl + x
        if kind == "s":
            e = 1 / np.abs(z)
            d = p["s"] ** 2 * m[0] * m[1] * e ** 3
            dg = 3 * d * e
            extra = 4 * (m[0] * m[1] * p["s"] ** 2) ** 2
            lost = np.max(p["s"] * e) > 0.3
        else:
            small = [0] if kind == "q" else [2] if kind == "q3" else [0, 2]
            dist = np.abs(z[:, None] - pos[None, small])
            eps = m[small].sum()
            # the others give up the mass, and for q the primary moves off the centre of mass
            d = np.sum(m[small] / dist, axis=1) + eps * (np.abs(z - w[j]) + (p["s"] if kind != "q3" else 0) * np.abs(r0.gamma))
            dg = np.sum(m[small] / dist ** 2, axis=1) + eps * np.abs(r0.gamma) + (eps * p["s"] * r0.ddet if kind != "q3" else 0)
            # image created next to the small lens
            with np.errstate(all="ignore"):
                o = [i for i in range(n) if i not in small]
                zs = refs.lens_map(zl[small], m[o], zl[o]) - (w[j] - x)
                extra = np.sum(4 * m[small] ** 2 / np.abs(zs) ** 4)
            lost = np.any(np.sqrt(m[small])[None, :] > 0.2 * dist)
            # a planetary caustic nearby: its own images are not a perturbation
            lost |= np.any(np.abs(zs) < 5 * np.sqrt(m[small]))
        with np.errstate(all="ignore"):
            dz = r0.mu * (1 + np.abs(r0.gamma)) * d
            tol = 4 * (np.sum(r0.mu ** 2 * (r0.ddet * dz + 2 * np.abs(r0.gamma) * dg)) + extra)
        num = r0.dA + r1.dA
        if lost or not (tol < 0.05 * r0.A) or not (r0.generic and r0.complete) or not (num < 1e-2 * r0.A and abs(r1.A - r0.A) <= tol + num):
            rec.point(key, False, f"not judged {kind}")
            continue
        if not abs(A[j] - B[j]) <= tol + num:
            raise Violation(f"{n} lenses {p} w={case['w'][j]}: magnification {A[j]:.12g} but {B[j]:.12g} with {n0} lens(es); "
                            f"first-order effect of the small component at most {tol:.1e}, rounding {num:.1e}")
        rec.metric("difference / bound " + kind, abs(A[j] - B[j]) / (tol + num))
        rec.point(key, abs(r0.A - 1) > 1e-3, kind)


# ----------------------------------------------------------------- finite sources
RES = 300


def draw_finite(n, ld, solver):
    def fn(rng):
        while True:
            p = gen.binary(rng, qmin=1e-3, qmax=2.0, smin=0.4, smax=2.5) if n == 2 else gen.triple(rng, qmin=1e-2, q3min=1e-2, r3max=1.6, smin=0.5, smax=2.0)
            op = draw_op(rng, n)
            case = {"n": n, "p": p, "op": op, "rho": float(10 ** rng.uniform(-2, -0.5)), "u1": 0.5 if ld else 0.0, "solver": solver}
            cau = refs.caustic_points(n, 80, **p)[0]
            cau = cau[np.abs(cau) < 3]
            if len(cau) == 0:
                continue
            w = []
            for _ in range(60):
                if rng.random() < 0.7:
                    x = cau[rng.integers(len(cau))] + case["rho"] * rng.uniform(0, 3) * np.exp(2j * np.pi * rng.random())
                else:
                    x = complex(rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2))
                if solver == "contour" and n == 3 and np.abs(cau - x).min() < 1.5 * case["rho"]:
                    continue
                p2, x2 = transform(case, p, np.array([x]))
                if solver != "contour" and (finite.origin_fold(n, x, case["rho"], p) or finite.origin_fold(n, x2[0], case["rho"], p2)):
                    continue
                w.append(complex(x))
                if len(w) == NP:
                    return dict(case, w=pairs(w))
    return fn


def solve(case, p, w, fine=False):
    n, rho, u1 = case["n"], case["rho"], case["u1"]
    if case["solver"] == "contour":
        return finite.contour(n, w, rho, p, u1, *((2000, 400) if fine else (500, 100)))
    if fine:
        return np.array([finite.fine(n, x, rho, p, u1, "direct") for x in w])
    return finite.inverse_ray(n, w, rho, p, u1, "direct", res=RES)


def run_finite(case, rec):
    n, p = case["n"], case["p"]
    w = cplx(pad(case["w"], NP))
    p2, w2 = transform(case, p, w)
    A, B = solve(case, p, w), solve(case, p2, w2)
    tol = 1e-3 if case["solver"] == "contour" else 0.01 if case["u1"] else 0.006
    for j in range(len(case["w"])):
        key = [n, p, case["op"], case["rho"], case["u1"], case["w"][j], case["solver"]]
        e = abs(A[j] - B[j]) / max(abs(A[j]), 1e-9)
        if not e <= tol:
            a, b = solve(case, p, w[j:j + 1], True)[0], solve(case, p2, w2[j:j + 1], True)[0]
            rec.label("escalated")
            if not abs(a - b) <= tol * abs(a):
                raise Violation(f"{case['solver']}, {n} lenses {p} w={case['w'][j]} rho={case['rho']} u1={case['u1']}: {a:.8g} becomes {b:.8g} under {case['op']}")
            e = abs(a - b) / a
        rec.metric("finite", e)
        rec.point(key, abs(A[j] - 1) > 1e-3, case["op"][0], case["solver"])


def draw_finlim(rng):
    p = gen.triple(rng, qmin=1e-2, r3max=1.6, smin=0.5, smax=2.0)
    c = draw_finite(2, False, "inverse ray")(rng)
    return {"n": 3, "p": dict(c["p"], q3=float(10 ** rng.uniform(-7, -4)), r3=p["r3"], psi=p["psi"]), "rho": max(c["rho"], 0.02), "w": c["w"]}


def run_finlim(case, rec):
    p, rho = case["p"], case["rho"]
    w = cplx(pad(case["w"], NP))
    p0 = {"s": p["s"], "q": p["q"]}
    A = finite.inverse_ray(3, w, rho, p, 0.0, "direct", res=RES)
    B = finite.inverse_ray(2, w, rho, p0, 0.0, "direct", res=RES)
    m, zl, x = refs.system(3, **p)
    for j in range(len(case["w"])):
        key = [p, rho, case["w"][j]]
        # the third lens changes the images by at most about its own Einstein disc, of area pi q3
        z3 = refs.lens_map(zl[2], m[:2], zl[:2]) + x
        own = 2 * p["q3"] / rho ** 2 * max(1.0, min(100.0, 1 / abs(refs.det_jac(zl[2], m[:2], zl[:2]))))
        tol = 0.006 * B[j] + own
        if own > 0.02 * B[j] or abs(z3 - w[j]) < rho + 5 * np.sqrt(p["q3"]):
            rec.point(key, False, "third lens matters")
            continue
        if not abs(A[j] - B[j]) <= tol:
            a, b = finite.fine(3, w[j], rho, p, 0.0, "direct"), finite.fine(2, w[j], rho, p0, 0.0, "direct")
            rec.label("escalated")
            if not abs(a - b) <= tol:
                raise Violation(f"triple {p} w={case['w'][j]} rho={rho}: magnification {a:.8g}, binary without the third lens {b:.8g}")
        rec.metric("triple - binary", abs(A[j] - B[j]) / B[j])
        rec.point(key, True, "q3 limit")


def fsub(name, n, ld, solver, q, t, sh, **k):
    return Sub(name, lambda: custom(draw_finite(n, ld, solver)), run_finite, q, t, "magnification differs from 1 by more than 1e-3", shards=sh, tshards=4, **k)


# --------------------------------------------------- light-curve entry points
def draw_curve(rng):
    n = int(rng.choice([2, 2, 3]))
    p = gen.binary(rng, qmin=1e-3, qmax=3.0, smin=0.4, smax=2.5) if n == 2 else gen.triple(rng, qmin=1e-2, q3min=1e-2)
    ops = [["mirror"], ["relabel", 0, 1], ["relabel mirror", 0, 1]] if n == 2 else [["mirror"], ["relabel", 0, 1], ["relabel", 1, 2], ["relabel", 0, 2]]
    return {"n": n, "p": p, "op": ops[int(rng.integers(len(ops)))], "rho": float(10 ** rng.uniform(-4, -2)), "u1": float(rng.choice([0.0, 0.5])),
            "w": pairs(gen.sources(rng, n, p, NP, dmin=-1, dmax=0.3, near=0.3))}


def run_curve(case, rec):
    """the pure multipole curve of mag_binary / mag_triple and of magnifications (where it accepts the multipole value)"""
    n, p, rho, u1 = case["n"], case["p"], case["rho"], case["u1"]
    w = cplx(pad(case["w"], NP))
    p2, w2 = transform(case, p, w)
    f = mag_binary if n == 2 else mag_triple
    A, B = (np.asarray(call(f, jnp.array(x), rho, u1=u1, r_resolution=100, th_resolution=100, Nlimb=100, MAX_FULL_CALLS=0, chunk_size=NP, **y))
            for x, y in ((w, p), (w2, p2)))
    for j in range(len(case["w"])):
        r1 = refs.Report(w[j] - xcm(n, p), *refs.system(n, **p)[:2])
        r2 = refs.Report(w2[j] - xcm(n, p2), *refs.system(n, **p2)[:2])
        key = [n, p, case["op"], rho, u1, case["w"][j]]
        if not (r1.generic and r2.generic and r1.complete and r2.complete and r1.dA + r2.dA < 1e-7 * r1.A):
            rec.point(key, False, "not judged")
            continue
        e = abs(A[j] - B[j]) / abs(A[j])
        if not e <= 1e-5:
            raise Violation(f"{f.__name__} without full solves, {p} w={case['w'][j]} rho={rho} u1={u1}: {A[j]:.10g} becomes {B[j]:.10g} under {case['op']}")
        rec.metric("curve", e)
        rec.point(key, abs(A[j] - 1) > 1e-3, f"n{n} {case['op'][0]}")


SUBS = [
    Sub("point", lambda: custom(draw), run, 300, 10000, "generic position judged, magnification differs from 1 by more than 1e-3", shards=3),
    Sub("limit", lambda: custom(draw_limit), run_limit, 300, 10000, "judged position with magnification differing from 1 by more than 1e-3", shards=1),
    Sub("curve", lambda: custom(draw_curve), run_curve, 150, 6000, "magnification differs from 1 by more than 1e-3", shards=1),
    fsub("ir2", 2, False, "inverse ray", 30, 1500, 1),
    fsub("ir2ld", 2, True, "inverse ray", 30, 1500, 1),
    fsub("ir3", 3, False, "inverse ray", 30, 1500, 2),
    fsub("ct2", 2, False, "contour", 30, 1000, 1),
    fsub("ct3", 3, False, "contour", 16, 600, 2),
    Sub("q3limit", lambda: custom(draw_finlim), run_finlim, 16, 600, "binary magnification, third lens too light to matter", shards=1, tshards=4),
]

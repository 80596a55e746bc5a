"""C10 adaptive light curves: which points are refined, where the values go, and independence of chunking, order
and company, against a model built from the pure hexadecapole curve and single-point full solves."""
import numpy as np
from core import *
import finite
import gen
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple    # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.point_source import _images_point_source                # noqa: E402

ASSUMPTIONS = ["coarse settings (resolution 60, 120 limb samples): only the bookkeeping is judged here, accuracy is C08/C09",
               "two evaluations of the same point may differ by the jump that a 1e-12 change of the position causes (region clustering is discrete)",
               "a point counts as refined if its value differs from the hexadecapole by more than one part in 1e9"]
SET = dict(r_resolution=60, th_resolution=60, Nlimb=120, bins_r=50, bins_th=120)
N = {2: 17, 3: 9}
CFG = {2: [(5, 3), (17, 4), (40, 6), (None, None), (5, 100)],
       3: [(4, 4), (9, 2), (30, 50)]}


def solver(n):
    return mag_binary if n == 2 else mag_triple


def lc(n, w, rho, p, u1, M, c):
    kw = dict(SET, u1=u1)
    if M is not None:
        kw.update(MAX_FULL_CALLS=M, chunk_size=c)
    return np.asarray(call(solver(n), jnp.array(w), rho, **kw, **p))


def single(n, w, rho, p, u1):
    """full inverse-ray value of every position, one by one as far as the solver is concerned"""
    f = finite.direct(n, u1 != 0, 60, 120, 50, 120, 1.0, 1.0)
    return np.asarray(call(f, jnp.array(w), rho, u1, p))


def hexa(n, w, rho, p, u1):
    m, zl, xcm = refs.system(n, **p)
    low = refs.params_mid(n, **p)
    z, k = call(_images_point_source, jnp.array(w - xcm), nlenses=n, **low)
    return np.asarray(call(mag_hexadecapole, z, k, rho, u1=u1, nlenses=n, **low)[0])


def draw(n):
    def fn(rng):
        p = gen.binary(rng) if n == 2 else gen.triple(rng, qmin=3e-3, q3min=3e-3)
        rho = float(10 ** rng.uniform(-2.5, -0.7))
        cau = refs.caustic_points(n, 100, **p)[0]
        cau = cau[np.abs(cau) < 4]
        if len(cau) == 0:
            cau = np.array([0j])
        share = rng.choice([0.2, 0.5, 0.8])
        w = []
        while len(w) < N[n]:
            if rng.random() < share:
                w.append(complex(cau[rng.integers(len(cau))] + rho * rng.uniform(0, 2) * np.exp(2j * np.pi * rng.random())))
            else:
                w.append(complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)) + 2 * complex(rng.integers(2)))
        u1 = float(rng.choice([0.0, 0.0, 0.5])) if n == 2 else float(rng.choice([0.0, 0.5]))
        cfg = int(rng.integers(2 if u1 else len(CFG[n])))
        return {"n": n, "p": p, "rho": rho, "u1": u1, "w": pairs(w), "perm": int(rng.integers(2 ** 31)), "cfg": cfg}
    return fn


def same(a, b, n, w, rho, p, u1, rtol=1e-9):
    """None, or the first index where two curves differ by more than rounding can explain"""
    bad = np.flatnonzero(~(np.abs(a - b) <= rtol * np.abs(b)))
    for j in bad:
        d = rho * 1e-10 * np.exp(2j * np.pi * np.arange(N[n]) / N[n]) * 10.0 ** -(np.arange(N[n]) % 3)
        v = np.append(single(n, w[j] + d, rho, p, u1), single(n, np.full(N[n], w[j]), rho, p, u1)[0])
        h = hexa(n, w[j] + 1e-3 * d / rho, rho, p, u1)
        if not abs(a[j] - b[j]) <= 2 * (v.max() - v.min()) + 10 * (h.max() - h.min()) + rtol * abs(b[j]):
            return int(j)
    return None


def run(case, rec):
    n, p, rho, u1 = case["n"], case["p"], case["rho"], case["u1"]
    k = len(case["w"])
    w = cplx(pad(case["w"], N[n]))
    what = f"{n} lenses {p} rho={rho} u1={u1}"
    H = lc(n, w, rho, p, u1, 0, 100)
    F = lc(n, w, rho, p, u1, N[n], N[n])
    D = single(n, w, rho, p, u1)
    h = hexa(n, w, rho, p, u1)
    for x, name in ((H, "MAX_FULL_CALLS=0"), (F, "MAX_FULL_CALLS=length")):
        if x.shape != w.shape or not np.isfinite(x).all():
            raise Violation(f"{what} {name}: output {x} for {len(w)} positions")

    def differ(a, b, name):
        j = same(a, b, n, w, rho, p, u1)
        if j is not None:
            raise Violation(f"{what} {name}: value {a[j]!r} instead of {b[j]!r} at index {j}, w={w[j]}")
    for j in np.flatnonzero(np.abs(H - h) > 1e-9 * np.abs(h)):
        near = hexa(n, w[j] + 1e-13 * np.exp(2j * np.pi * np.arange(N[n]) / N[n]), rho, p, u1)
        if abs(H[j] - h[j]) <= 10 * (near.max() - near.min()):
            continue
        raise Violation(f"{what}: the MAX_FULL_CALLS=0 curve {H[j]!r} is not the hexadecapole value {h[j]!r} at index {j}, w={w[j]}")
    refined = np.abs(F - H) > 1e-9 * np.abs(H)
    differ(F, np.where(refined, D, H), "ample budget")
    idx = np.flatnonzero(refined)
    M, c = CFG[n][case["cfg"]]
    x = lc(n, w, rho, p, u1, M, c)
    budget = 500 if M is None else M
    want = H.copy()
    want[idx[:budget]] = F[idx[:budget]]
    differ(x, want, f"MAX_FULL_CALLS={M} chunk_size={c} ({len(idx)} points need refinement)")
    # order and company
    rng = np.random.default_rng(case["perm"])
    pm = rng.permutation(N[n])
    y = np.empty_like(F)
    y[pm] = lc(n, w[pm], rho, p, u1, N[n], N[n])
    differ(y, F, "after a permutation")
    keep = rng.random(N[n]) < 0.5
    other = np.where(keep, w, 0.3 * rng.normal(size=N[n]) + 0.3j * rng.normal(size=N[n]))
    y = np.where(keep, lc(n, other, rho, p, u1, N[n], N[n]), F)
    differ(y, F, "in other company")
    if n == 2:
        j = int(rng.integers(k))
        y = F.copy()
        y[j] = lc(n, w[j:j + 1], rho, p, u1, 1, 1)[0]
        y[(j + 1) % k] = lc(n, w[(j + 1) % k:(j + 1) % k + 1], rho, p, u1, None, None)[0]
        differ(y, F, "alone")
    if n == 3 and len(idx) != N[n]:
        rec.label("hexadecapole coincides with the full value", N[n] - len(idx))
    for j in range(k):
        rec.point([p, case["w"][j], rho, u1], True, "refined" if refined[j] else "accepted")
    rec.label("budget exceeded", 0 < budget < len(idx))
    rec.label("budget sufficient", budget >= len(idx))


def ex(n, p, rho, u1, w, cfg):
    return {"n": n, "p": p, "rho": rho, "u1": u1, "w": pairs(np.asarray(w, complex)), "perm": 1, "cfg": cfg}


T = np.linspace(-1, 1, 17)
EX2 = [ex(2, {"s": 1.0, "q": 0.1}, 0.05, 0.0, T + 0.05j, i) for i in range(5)] + \
      [ex(2, {"s": 1.3, "q": 1e-3}, 0.02, 0.5, T + 0.1 + 0.001j, i) for i in (0, 1)] + \
      [ex(2, {"s": 1.0, "q": 1.0}, 0.02, 0.0, 3 + T + 0.05j, 0), ex(2, {"s": 1.0, "q": 1.0}, 0.02, 0.0, 0 * T + 0.05j, 0)]
EX3 = [ex(3, {"s": 1.1, "q": 0.1, "q3": 0.03, "r3": 1.0, "psi": np.pi / 2}, 0.05, u1, np.linspace(-1, 1, 9) + 0.05j, i) for i, u1 in ((0, 0.0), (1, 0.5), (2, 0.0))]

SUBS = [
    Sub("triple", lambda: custom(draw(3)), run, 24, 1200, "every position (accepted and refined)", shards=3, examples=EX3),
    Sub("binary", lambda: custom(draw(2)), run, 60, 3000, "every position (accepted and refined)", shards=4, examples=EX2),
]

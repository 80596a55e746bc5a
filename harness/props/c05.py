"""C05 poly_roots: backward error of the joint root set, batching, initial guesses, conjugation."""
import numpy as np
from core import *

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.poly_solver import poly_roots                           # noqa: E402

ASSUMPTIONS = ["double precision; root moduli within six decades for degree <= 6 and two decades up to degree 10 "
               "(beyond that the documented cap of 100 iterations binds: known finding)",
               "the joint tolerance is relaxed for multiple roots by their conditioning eps^(1/m)"]
B = 8
DEG = [1, 2, 3, 4, 5, 6, 8, 10]
JOINT = {"spread": 1e-9, "raw": 1e-11, "rawwide": 1e-11, "tinylead": 1e-11, "wide": 1e-9, "real": 1e-4, "conj": 1e-5,
         "double": 3e-5, "triple": 3e-3, "integer": 1e-4, "scaled": 1e-11}


def coeffs_of(kind, n, rng):
    if kind in ("spread", "double", "triple", "wide"):
        if kind == "wide":
            d = 3 if n <= 6 else 1
            r = 10 ** rng.uniform(-d, d, n) * np.exp(2j * np.pi * rng.random(n))
        else:
            r = rng.normal(size=n) + 1j * rng.normal(size=n)
        if kind == "double" and n > 1:
            r[1] = r[0]
        if kind == "triple" and n > 2:
            r[1] = r[2] = r[0]
        return np.poly(r).astype(complex) * (rng.normal() + 1j * rng.normal())
    if kind == "real":
        return np.poly(rng.normal(size=n)) + 0j
    if kind == "conj":
        z = rng.normal(size=n // 2) + 1j * rng.normal(size=n // 2)
        return np.poly(np.concatenate([z, z.conj(), rng.normal(size=n % 2)])).real + 0j
    c = rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1)
    if kind == "rawwide":
        # the spread of the coefficients bounds the spread of the root moduli
        d = 4 if n <= 6 else 1
        c = c * 10 ** rng.uniform(-d / 2, d / 2, n + 1)
    if kind == "tinylead":
        c[0] *= 10 ** rng.uniform(-9 if n <= 6 else -5, -2)
    if kind == "scaled":
        c = c * 10 ** rng.uniform(-60, 60)
    if kind == "integer":
        c = rng.integers(-3, 4, size=n + 1) + 0j
        c[0] = rng.choice([1, -1, 2, 3])
    return c


def draw(rng):
    n = DEG[int(rng.integers(len(DEG)))]
    kinds = list(JOINT)
    out = []
    for _ in range(B):
        k = kinds[int(rng.integers(len(kinds)))]
        out.append([k, pairs(coeffs_of(k, n, rng))])
    return {"p": out}


def scale_sums(r, c0):
    """componentwise scale of the coefficients of c0 prod(x-r)."""
    return np.abs(np.poly(-np.abs(r))) * abs(c0)


def joint_error(c, r):
    ss = scale_sums(r, c[0])
    # a root at zero makes trailing sums vanish: measure those against eps-sized roots
    floor = np.abs(np.poly(-np.maximum(np.abs(r), (1e-5 if c[-1] == 0 else 1e-9) * (1 + np.abs(r).max())))) * abs(c[0])
    return float(np.max(np.abs(np.poly(r) * c[0] - c) / np.maximum(ss, floor)))


def residual(c, z):
    z = np.asarray(z)
    # multiple roots at the origin are located to the absolute tolerance of the solver
    zz = np.maximum(np.abs(z), 1e-5 if c[-1] == 0 else 1e-9)
    return np.abs(np.polyval(c, z)) / np.polyval(np.abs(c), zz)


def check_roots(kind, c, r):
    n = len(c) - 1
    cn = c / np.abs(c).max()
    if r.shape != (n,):
        raise Violation(f"{r.shape} roots for degree {n}")
    finite(r, f"roots of {kind} polynomial")
    e = residual(cn, r).max()
    # a multiple root can only be located to eps^(1/m); its residual is still at rounding level
    if e > (1e-8 if kind in ("double", "triple", "integer", "real") else 1e-12 * n):
        raise Violation(f"degree {n} {kind}: relative residual {e:.2e} of root {r[np.argmax(residual(cn, r))]}")
    j = joint_error(cn, r)
    if j > JOINT[kind]:
        raise Violation(f"degree {n} {kind}: the {n} roots rebuild the polynomial only to {j:.2e}; roots {r}")
    return e, j


def run(case, rec):
    P = pad(case["p"], B)
    C = np.array([cplx(c) for _, c in P])
    R = np.asarray(call(poly_roots, jnp.array(C)))
    for (kind, pc), c, r in list(zip(P, C, R))[:len(case["p"])]:
        e, j = check_roots(kind, c, r)
        rec.metric(f"joint/{kind}", j)
        rec.point(pc, len(c) > 2, kind, f"deg{len(c) - 1}")


# ------------------------------------------------------------- initial guesses
def draw_init(rng):
    n = DEG[1 + int(rng.integers(len(DEG) - 1))]
    out = []
    for _ in range(B):
        k = ["spread", "raw", "conj"][int(rng.integers(3))]
        c = coeffs_of(k, n, rng)
        mode = ["random", "near", "exact", "shifted", "permuted", "real", "coincident"][int(rng.integers(7))]
        r = np.roots(c)
        if mode == "random":
            i = 2 * (rng.normal(size=n) + 1j * rng.normal(size=n))
        elif mode == "near":
            i = r + 0.05 * (rng.normal(size=n) + 1j * rng.normal(size=n))
        elif mode == "exact":
            i = r
        elif mode == "real":
            i = rng.normal(size=n) + 0j
        elif mode == "coincident":
            i = np.resize(r[:max(1, n // 2)] + 0.1, n)
        elif mode == "shifted":
            i = r + 0.3 * (rng.normal() + 1j * rng.normal())
        else:
            i = rng.permutation(r) + 1e-3 * (rng.normal(size=n) + 1j * rng.normal(size=n))
        out.append([mode, pairs(c), pairs(i)])
    return {"p": out}


def match(a, b):
    """greedy multiset distance between root sets."""
    b = list(b)
    d = 0.0
    for x in a:
        k = int(np.argmin([abs(x - y) for y in b]))
        d = max(d, abs(x - b[k]) / (1 + abs(x)))
        b.pop(k)
    return d


def run_init(case, rec):
    P = pad(case["p"], B)
    C = np.array([cplx(p[1]) for p in P])
    I = np.array([cplx(p[2]) for p in P])
    R0 = np.asarray(call(poly_roots, jnp.array(C)))
    R = np.asarray(call(poly_roots, jnp.array(C), custom_init=True, roots_init=jnp.array(I)))
    for p, c, r, r0 in list(zip(P, C, R, R0))[:len(case["p"])]:
        finite(r, "roots with custom initial guesses")
        cn = c / np.abs(c).max()
        e, j = residual(cn, r).max(), joint_error(cn, r)
        if e > 1e-11 * len(c) or j > 1e-5:
            raise Violation(f"custom initial guesses ({p[0]}): residual {e:.1e}, joint {j:.1e}; default roots {r0}, got {r}")
        sep = np.abs(r0[:, None] - r0[None]) + 9 * np.eye(len(r0))
        if sep.min() > 1e-2 and match(r, r0) > 1e-8:
            raise Violation(f"roots depend on the initial guesses ({p[0]}): {r0} vs {r}")
        rec.metric("joint", j)
        rec.point(p, True, p[0])


# ------------------------------------------------------- batching, conjugation
def draw_batch(rng):
    n = DEG[int(rng.integers(len(DEG)))]
    kinds = list(JOINT)
    return {"p": [[k, pairs(coeffs_of(k, n, rng))] for k in (kinds[int(rng.integers(len(kinds)))] for _ in range(B))],
            "real": pairs(coeffs_of("conj", n, rng)), "shape": int(rng.integers(3)),
            "f": float(10 ** rng.uniform(-20, 20)), "ph": float(rng.uniform(0, 6.3))}


def run_batch(case, rec):
    P = pad(case["p"], B)
    C = np.array([cplx(c) for _, c in P])
    n = C.shape[1] - 1
    R = np.asarray(call(poly_roots, jnp.array(C)))
    sh = [(2, 4), (4, 1, 2), (1, 8)][case["shape"]]
    R2 = np.asarray(call(poly_roots, jnp.array(C.reshape(sh + (n + 1,)))))
    if R2.shape != sh + (n,):
        raise Violation(f"batch shape {sh}: output shape {R2.shape}")
    R3 = np.asarray(call(poly_roots, jnp.array(C[::-1])))[::-1]
    one = np.asarray(call(poly_roots, jnp.array(C[3])))
    if one.shape != (n,):
        raise Violation(f"1-D coefficients: output shape {one.shape}")
    def close(a, b, kind, what):
        tol = 1e-9 if kind not in ("double", "triple", "integer", "real") else 1e-3
        if not match(a, b) < tol:
            raise Violation(f"{what} changes the roots of a {kind} polynomial: {a} vs {b}")
    for i, (kind, _) in enumerate(P):
        close(R[i], R2.reshape(B, n)[i], kind, "batch shape")
        close(R[i], R3[i], kind, "batch order")
    close(R[3], one, P[3][0], "batching")
    # multiplying the coefficients by a constant
    R4 = np.asarray(call(poly_roots, jnp.array(C * case["f"] * np.exp(1j * case["ph"]))))
    for i, (kind, _) in enumerate(P):
        if kind not in ("scaled", "wide"):
            close(R[i], R4[i], kind, f"scaling the coefficients by {case['f']:.1e}")
    # real coefficients (passed as a real array) give a conjugate-closed set
    c = cplx(case["real"]).real
    rr = np.asarray(call(poly_roots, jnp.array(np.array([c] * B))))[0]
    check_roots("conj", c + 0j, rr)
    r0 = np.roots(c)
    sep = (np.abs(r0[:, None] - r0[None]) + 9 * np.eye(n)).min() if n > 1 else 1
    if match(rr, rr.conj()) > 1e-8 / min(1, sep) ** 2:
        raise Violation(f"roots of real coefficients {c.tolist()} are not closed under conjugation: {rr}")
    rec.point([case["p"], case["shape"]], n > 1, f"deg{n}")


# ------------------------------------------------------------ clustered roots
def draw_cluster(rng):
    n = [3, 4, 5, 6, 8, 10][int(rng.integers(6))]
    out = []
    for _ in range(B):
        k = int(rng.integers(2, min(n, 4) + 1))
        while True:
            far = 2 * (rng.normal(size=n - k) + 1j * rng.normal(size=n - k))
            c0 = rng.normal() + 1j * rng.normal()
            if n == k or np.abs(far - c0).min() > 0.7:
                break
        r = np.concatenate([c0 + 10 ** rng.uniform(-9, -2) * (rng.normal(size=k) + 1j * rng.normal(size=k)), far])
        out.append([k, [c0.real, c0.imag], pairs(np.poly(r))])
    return {"p": out}


def run_cluster(case, rec):
    P = pad(case["p"], B)
    C = np.array([cplx(p[2]) for p in P])
    R = np.asarray(call(poly_roots, jnp.array(C)))
    for p, c, r in list(zip(P, C, R))[:len(case["p"])]:
        finite(r, "roots of clustered polynomial")
        e = residual(c / np.abs(c).max(), r).max()
        if e > 1e-8:
            raise Violation(f"cluster: relative residual {e:.2e}")
        d = np.abs(r - (p[1][0] + 1j * p[1][1]))
        if (d < 0.35).sum() != p[0]:
            raise Violation(f"{p[0]} roots cluster at {p[1]}, the solver returns {(d < .35).sum()} there: {r}")
        rec.metric("residual", e)
        rec.point(p, True, f"cluster{p[0]}")


# ------------------------------------------------ resolved close pairs, root by root
def draw_close(rng):
    n = [2, 3, 4, 5, 6][int(rng.integers(5))]
    out = []
    for _ in range(B):
        kind = ["conj", "realpair", "complex"][int(rng.integers(3))]
        d = 10 ** rng.uniform(-6, -1)
        x = rng.uniform(0.3, 1.5) * rng.choice([-1, 1])
        while True:
            if kind == "complex":
                far = rng.normal(size=n - 2) + 1j * rng.normal(size=n - 2)
                z = x * np.exp(1j * rng.uniform(0, 6.3))
                pr = [z, z + d * np.exp(1j * rng.uniform(0, 6.3))]
            else:
                far = rng.normal(size=n - 2) + 0j
                if n >= 4 and rng.random() < 0.5:
                    far[1] = far[0] = far[0] + 1j * rng.normal()
                    far[1] = far[0].conj()
                pr = [x + 1j * d, x - 1j * d] if kind == "conj" else [x + d, x - d]
            r = np.concatenate([pr, far])
            s = np.abs(r[:, None] - r[None]) + 9 * np.eye(n)
            s[0, 1] = s[1, 0] = 9
            if s.min() > 0.3:
                break
        out.append([kind, pairs(r)])
    return {"p": out, "f": float(rng.normal()) or 1.0}


def run_close(case, rec):
    P = pad(case["p"], B)
    T = np.array([cplx(p[1]) for p in P])
    C = np.array([np.poly(t) for t in T]).astype(complex) * case["f"]
    for i, p in enumerate(P):
        if p[0] != "complex":
            C[i] = C[i].real
    R = np.asarray(call(poly_roots, jnp.array(C)))
    for p, c, t, r in list(zip(P, C, T, R))[:len(case["p"])]:
        finite(r, "roots")
        der = np.abs(np.polyval(np.polyder(c), t))
        cond = np.polyval(np.abs(c), np.abs(t)) / der
        tol = 1e-11 + 2e-14 * cond
        left = list(r)
        for x, e in sorted(zip(t, tol), key=lambda v: -v[1]):
            k = int(np.argmin(np.abs(np.array(left) - x)))
            d = abs(left.pop(k) - x)
            if d > e:
                raise Violation(f"root {x} of a degree {len(t)} polynomial ({p[0]}, pair {abs(t[0] - t[1]):.1e} apart) is off by "
                                f"{d:.2e} where its conditioning allows {e:.1e}; roots {r}")
            rec.metric("error/tol", d / e)
        rec.point(p, True, p[0])


SUBS = [
    Sub("roots", lambda: custom(draw, ("p",)), run, 1600, 60000, "degree > 1 with the stated root structure", shards=3,
        examples=[{"p": [["real", [[1.0, 0.0], [1.1166136213388493, 0.0], [0.38491965117766036, 0.0], [0.0410171380904372, 0.0]]]]},
                  {"p": [["real", [[1.0, 0.0], [1.9700781562646417, 0.0], [0.7209104428195404, 0.0], [-0.24582535430630784, 0.0]]]]},
                  {"p": [["integer", [[1, 0], [0, 0], [1, 0]]], ["integer", [[1, 0], [0, 0], [0, 0]]],
                         ["integer", [[1, 0], [0, 0], [-1, 0]]], ["integer", [[1, 0], [-2, 0], [1, 0]]]]},
                  {"p": [["integer", [[1, 0], [0, 0], [0, 0], [0, 0], [1, 0]]], ["integer", [[1, 0], [0, 0], [2, 0], [0, 0], [1, 0]]],
                         ["scaled", [[1e-20, 0], [0, 0], [0, 1e-20], [0, 0], [1e-20, 0]]]]}]),
    Sub("initial", lambda: custom(draw_init, ("p",)), run_init, 800, 30000, "custom initial guesses, degree >= 2", shards=2),
    Sub("batch", lambda: custom(draw_batch, ("p",)), run_batch, 300, 8000, "degree >= 2, reordered / reshaped / rescaled batches", shards=2),
    Sub("close", lambda: custom(draw_close, ("p",)), run_close, 600, 20000, "one pair of roots 1e-6..1e-1 apart, root by root",
        examples=[{"p": [["conj", [[1.0, 1e-6], [1.0, -1e-6]]], ["realpair", [[0.5 + 1e-6, 0], [0.5 - 1e-6, 0]]]], "f": 1.0}]),
    Sub("cluster", lambda: custom(draw_cluster, ("p",)), run_cluster, 600, 20000, "2-4 roots within 1e-9..1e-2 of each other"),
]


# ------------------------------------------ known findings (outside the searched domain)
def run_converged(case, rec):
    """every root of one polynomial to a residual of 1e-6, whatever its dynamic range"""
    c = cplx(case["c"])
    r = np.asarray(call(poly_roots, jnp.array(c)))
    e = residual(c / np.abs(c).max(), finite(r, "roots"))
    if e.max() > 1e-6:
        raise Violation(f"degree {len(c) - 1}: relative residual {e.max():.2e} of root {r[np.argmax(e)]} after the iteration cap")
    rec.point(case["c"], True)


KNOWN_SUBS = [Sub("converged", lambda: custom(lambda rng: {}), run_converged, 0, 0, "pinned cases only")]

"""C19 execution-mode invariance: every public function gives the same value eagerly, under jit and vmap, on scalars,
other shapes and slices, for NumPy / JAX / Python inputs, in any call history, and leaves its inputs alone."""
import json
import os
import subprocess
import sys
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
import microjax.point_source as PS                                    # noqa: E402
import microjax.utils as U                                            # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.poly_solver import poly_roots                           # noqa: E402
from microjax.likelihood import linear_chi2, nll_ulens, nll_ulens_general           # noqa: E402
from microjax.trajectory.parallax import compute_parallax, getpsi, peri_vernal, prepare_projection_basis, set_parallax   # noqa: E402
from microjax.fastlens import special as SP                           # noqa: E402
from microjax.fastlens import fftlog as FN, fftlog_jax as FJ, mag_fft as MN, mag_fft_jax as MJ                            # noqa: E402
from microjax.inverse_ray.boundary import calc_facB, distance_from_source, in_source, step_smooth                       # noqa: E402
from microjax.inverse_ray.extended_source import mag_limb_dark, mag_uniform                                             # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple    # noqa: E402
from microjax.inverse_ray.limb_darkening import Is_limb_1st           # noqa: E402
from microjax.caustics.lightcurve import magnifications               # noqa: E402
from microjax.caustics.extended_source import mag_extended_source     # noqa: E402

ASSUMPTIONS = ["sources at least 0.03 from every caustic and away from the lens centre, so that a change in rounding is not amplified",
               "functions whose documented input is a one-dimensional trajectory or a single position are only given those",
               "values compared to 1e-8 relative (1e-4 for the ray-shooting counts, where one cell on the limb may flip)"]
N = 6


def tree(x):
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def quiet_sources(rng, n, p, k=N, box=1.2):
    out = []
    cau = refs.caustic_points(n, 200, **p)[0] if n > 1 else np.zeros(1)
    while len(out) < k:
        w = complex(rng.uniform(-box, box), rng.uniform(-box, box))
        if np.abs(cau - w).min() > 0.03 and abs(w) > 0.05:
            out.append(w)
    return np.array(out)


def lens(rng, n):
    if n == 1:
        return {}
    p = {"s": float(rng.uniform(0.6, 1.8)), "q": float(rng.uniform(0.05, 1))}
    if n == 3:
        p.update(q3=float(rng.uniform(0.05, 1)), r3=float(rng.uniform(0.5, 1.5)), psi=float(rng.uniform(0.5, 2.6)))
    return p


# ------------------------------------------------------------------------ catalogue
# name -> draw(rng) -> (arrays, params), fn(*arrays, **params); the arrays share one batch shape; ``lead`` output axes before it
class Entry:
    def __init__(self, name, draw, fn, lead=0, tail=0, tol=1e-8, elementwise=True, scalar=True, eager=True, ints=(), modes=None, out=None, shapes=True):
        self.shapes = shapes
        self.name, self.draw, self.fn, self.lead, self.tail, self.tol = name, draw, fn, lead, tail, tol
        self.elementwise, self.scalar, self.eager, self.ints, self.modes, self.out = elementwise, scalar, eager, ints, modes, out


CAT = {}


def add(*a, **k):
    e = Entry(*a, **k)
    CAT[e.name] = e


def d_src(n):
    def f(rng):
        p = lens(rng, n)
        return [quiet_sources(rng, n, p)], p
    return f


def d_mid(n, image=False):
    def f(rng):
        p = lens(rng, n)
        m, zl, x = refs.system(n, **p)
        w = quiet_sources(rng, n, p) - x
        if image:
            w = np.array([refs.images(v, m, zl)[-1] for v in w])
        return [w], refs.params_mid(n, **p)
    return f


def d_hexa(n):
    def f(rng):
        p = lens(rng, n)
        m, zl, x = refs.system(n, **p)
        w = quiet_sources(rng, n, p) - x
        z = [refs.images(v, m, zl)[:n + 1] for v in w]
        k = min(len(v) for v in z)
        return [np.array([v[i] for v in z]) for i in range(k)], dict(refs.params_mid(n, **p), rho=float(10 ** rng.uniform(-3, -1.7)), u1=float(rng.uniform(0, 1)))
    return f


def f_hexa(n):
    def f(*z, rho, u1, **p):
        z = jnp.stack([jnp.asarray(v) for v in z])
        return mag_hexadecapole(z, jnp.ones(z.shape, bool), rho, u1=u1, nlenses=n, **p)
    return f


for n in (1, 2, 3):
    add(f"lens_eq n{n}", d_mid(n, True), lambda z, n=n, **p: PS.lens_eq(z, nlenses=n, **p))
    add(f"lens_eq_det_jac n{n}", d_mid(n, True), lambda z, n=n, **p: PS.lens_eq_det_jac(z, nlenses=n, **p), tol=1e-7)
    add(f"mag_point_source n{n}", d_src(n), lambda w, n=n, **p: PS.mag_point_source(w, nlenses=n, **p), ints=("s", "q", "q3", "r3"))
    add(f"images n{n}", d_mid(n), lambda w, n=n, **p: PS._images_point_source(w, nlenses=n, **p), lead=1, out="images")
    add(f"hexadecapole n{n}", d_hexa(n), f_hexa(n))
    if n > 1:
        add(f"critical curves n{n}", lambda rng, n=n: ([], lens(rng, n)),
            lambda n=n, **p: PS.critical_and_caustic_curves(npts=40, nlenses=n, **p), elementwise=False, tol=1e-6, ints=("s", "q", "q3", "r3"))
for n in (1, 2, 3):
    add(f"images sequential n{n}", d_mid(n), lambda w, n=n, **p: PS._images_point_source_sequential(w, nlenses=n, **p), elementwise=False, out="images")


def d_poly(deg):
    def f(rng):
        c = rng.normal(size=(N, deg + 1)) + 1j * rng.normal(size=(N, deg + 1))
        return [c[:, i] for i in range(deg + 1)], {}
    return f


for deg in (1, 2, 5, 10):
    add(f"poly_roots {deg}", d_poly(deg), lambda *c: poly_roots(jnp.stack([jnp.asarray(v) for v in c], axis=-1)), tail=1, tol=1e-6, out="sorted")


def d_real(lo, hi, **par):
    def f(rng):
        return [rng.uniform(lo, hi, N)], {k: float(rng.uniform(*v)) for k, v in par.items()}
    return f


add("j0", d_real(-40, 40), SP.j0, scalar=False)
add("j1", d_real(-40, 40), SP.j1, scalar=False)
add("j2", d_real(0.1, 40), SP.j2, tol=1e-7, scalar=False)
add("j1p5", d_real(0.1, 40), SP.j1p5, tol=1e-7, scalar=False)
add("ellipk", lambda rng: ([], {"m": float(rng.uniform(-10, 0.99))}), lambda m: SP.ellipk(m), elementwise=False)
add("ellipe", lambda rng: ([], {"m": float(rng.uniform(-10, 0.99))}), lambda m: SP.ellipe(m), elementwise=False)
add("gamma", lambda rng: ([rng.uniform(-3, 5, N) + 1j * rng.uniform(0.1, 5, N)], {}), SP.gamma, scalar="1d")
add("Is_limb_1st", d_real(0, 1.4, u1=(0, 1)), lambda d, u1: Is_limb_1st(d, u1=u1), tol=1e-7)
add("calc_facB", d_real(0, 1, dc=(0.01, 0.5)), lambda d, dc: calc_facB(d, dc), tol=1e-7)
add("in_source", d_real(0, 0.2, rho=(0.05, 0.15)), lambda d, rho: in_source(d, rho))
add("step_smooth", d_real(-0.2, 0.2, fac=(10, 200)), lambda d, fac: step_smooth(d, fac=fac))
add("getpsi", d_real(-7, 7, ecc=(0, 0.3)), lambda x, ecc: getpsi(x, ecc))
add("peri_vernal", lambda rng: ([], {"tref": float(rng.uniform(5000, 9000))}), lambda tref: peri_vernal(tref), elementwise=False, tol=1e-10)


def d_par(rng):
    t0 = float(rng.uniform(7000, 9000))
    return [t0 + rng.uniform(-300, 300, N)], {"tref": t0, "RA": float(rng.uniform(0, 360)), "Dec": float(rng.uniform(-60, 60)),
                                            "N": float(rng.uniform(-1, 1)), "E": float(rng.uniform(-1, 1))}


def f_par(t, tref, RA, Dec, N, E):
    tp, tv = peri_vernal(tref)
    return compute_parallax(t, N, E, set_parallax(tref, tp, tv, RA, Dec))


add("parallax", d_par, f_par, tol=1e-7, scalar="1d", shapes=False)
add("projection basis", lambda rng: ([], {"rot": 23.44, "off": float(rng.uniform(-3, 3)), "RA": float(rng.uniform(0, 360)), "Dec": float(rng.uniform(-80, 80))}),
    lambda rot, off, RA, Dec: prepare_projection_basis(rot, off, RA, Dec), elementwise=False, tol=1e-9)


def d_lin(rng):
    x = rng.normal(size=9)
    return [x, 2 + 3 * x + 0.1 * rng.normal(size=9), rng.uniform(0.05, 0.2, 9)], {}


def d_nll(rng):
    k = 12
    M = np.stack([rng.uniform(1, 5, k), np.ones(k)], axis=1)
    return [3 * M[:, 0] + 2 + 0.1 * rng.normal(size=k), M, rng.uniform(0.05, 0.2, k)], {"sFs": float(rng.uniform(0.5, 20)), "sFb": float(rng.uniform(0.5, 20))}


def d_nllg(rng):
    k = 8
    M = np.stack([rng.uniform(1, 5, k), np.ones(k)], axis=1)
    L = 0.1 * rng.normal(size=(k, k)) + 0.3 * np.eye(k)
    return [3 * M[:, 0] + 2 + 0.1 * rng.normal(size=k), M, L @ L.T + 0.01 * np.eye(k), rng.normal(size=2), np.diag(rng.uniform(1, 9, 2))], {}


add("linear_chi2", d_lin, linear_chi2, elementwise=False)
add("nll_ulens", d_nll, lambda f, M, s, sFs, sFb: nll_ulens(f, M, s ** 2, sFs, sFb), elementwise=False, tol=1e-7)
add("nll_ulens_general", d_nllg, lambda f, M, C, mu, L: nll_ulens_general(f, M, C, mu, L), elementwise=False, tol=1e-7)


def d_match(rng):
    a = rng.normal(size=5) + 1j * rng.normal(size=5)
    return [a, a[rng.permutation(5)] + 0.01 * rng.normal(size=5)], {}


def d_zeros(rng):
    x = rng.normal(size=8) * (rng.random(8) < 0.6)
    return [x], {}


add("match_points", d_match, U.match_points, elementwise=False)
for nm in ("first_nonzero", "last_nonzero", "first_zero", "min_zero_avoiding", "max_zero_avoiding", "mean_zero_avoiding", "sparse_argsort"):
    if hasattr(U, nm):
        add(nm, d_zeros, getattr(U, nm), elementwise=False)
add("trapz_zero_avoiding", lambda rng: ([rng.normal(size=8), np.sort(rng.normal(size=8))], {}), lambda y, x: U.trapz_zero_avoiding(y, x, 5), elementwise=False)
add("hankel", lambda rng: ([np.logspace(-3, 3, 64), 1 / (1 + np.logspace(-3, 3, 64) ** 2 * float(rng.uniform(0.5, 2)))], {}),
    lambda x, f: FJ.hankel(x, f * x, nu=1.5, N_extrap_low=16, N_extrap_high=16).hankel(0), elementwise=False, tol=1e-6)
_OBJ = {}


def obj(key, make):
    if key not in _OBJ:
        _OBJ[key] = make()
    return _OBJ[key]


def d_u(rng):
    return [10 ** rng.uniform(-3, 0.3, N)], {"rho": float(10 ** rng.uniform(-2, 0))}


add("fft disk", d_u, lambda u, rho: obj("disk", MJ.magnification_disk).A(u, rho), scalar=False, tol=1e-6)
add("fft limb", d_u, lambda u, rho: obj("limb", lambda: MJ.magnification_limb1()).A(u, rho), scalar=False, tol=1e-6)
add("fft linear limb", d_u, lambda u, rho: obj("mlimb", MJ.mag_limb).A(u, rho, 0.4), scalar=False, tol=1e-6)


def d_fs(n, pos=3):
    def f(rng):
        p = lens(rng, n)
        return [quiet_sources(rng, n, p, pos, 0.8)], dict(p, rho=float(10 ** rng.uniform(-1.5, -0.7)))
    return f


KW = dict(r_resolution=60, th_resolution=60, Nlimb=100)
add("mag_binary", d_fs(2), lambda w, rho, **p: mag_binary(w, rho, MAX_FULL_CALLS=3, chunk_size=2, **KW, **p), scalar=False, tol=1e-4, ints=("s", "q"), modes="line")
add("mag_binary ld", d_fs(2), lambda w, rho, **p: mag_binary(w, rho, u1=0.5, MAX_FULL_CALLS=3, chunk_size=2, **KW, **p), scalar=False, tol=1e-4, modes="line")
add("mag_triple", d_fs(3), lambda w, rho, **p: mag_triple(w, rho, MAX_FULL_CALLS=3, chunk_size=2, **KW, **p), scalar=False, tol=1e-4, modes="line")
add("magnifications", d_fs(2), lambda w, rho, **p: magnifications(w, rho, nlenses=2, npts_limb=100, **p), scalar=False, tol=1e-6, modes="line")
add("mag_uniform", d_fs(2), lambda w, rho, **p: mag_uniform(w, rho, nlenses=2, **KW, **p), tol=1e-4, modes="single", ints=("s", "q"))
add("mag_limb_dark", d_fs(3), lambda w, rho, **p: mag_limb_dark(w, rho, u1=0.3, nlenses=3, **KW, **p), tol=1e-4, modes="single")
add("mag_extended_source", d_fs(2), lambda w, rho, **p: mag_extended_source(w, rho, nlenses=2, npts_limb=100, **p), tol=1e-6, modes="single")

HEAVY = [k for k, e in CAT.items() if e.modes]
LIGHT = [k for k in CAT if k not in HEAVY]


# ------------------------------------------------------------------------ relations
def canonical(e, leaves):
    """remove the freedom a function has: images in any order, roots in any order"""
    if e.out == "images":
        z, m = leaves
        ax = 0
        if "sequential" in e.name:
            z, m = (np.moveaxis(x, 0, 1) if x.shape[0] == N else x for x in (z, m))
        zz = np.where(m, z, np.nan)
        sh = zz.shape
        zz = zz.reshape(sh[0], -1)
        out = np.array([sorted(c[~np.isnan(c)], key=lambda v: (round(v.real, 7), v.imag)) + [0] * int(np.isnan(c).sum()) for c in zz.T])
        return [out.T.reshape(sh), np.sum(m, axis=ax)]
    if e.out == "sorted":
        z = leaves[0]
        sh = z.shape
        out = np.array([sorted(c, key=lambda v: (round(v.real, 6), v.imag)) for c in z.reshape(-1, sh[-1])])
        return [out.reshape(sh)]
    return leaves


def compare(e, what, got, want, case, shape=True):
    got, want = canonical(e, tree(got)), canonical(e, [np.asarray(v) for v in want])
    if len(got) != len(want):
        raise Violation(f"{e.name} {what}: {len(got)} outputs instead of {len(want)}")
    for g, w in zip(got, want):
        if shape and g.shape != w.shape:
            raise Violation(f"{e.name} {what}: output of shape {g.shape} instead of {w.shape}")
        if g.size != w.size:
            raise Violation(f"{e.name} {what}: {g.size} values instead of {w.size}")
        g = g.reshape(w.shape)
        if w.dtype == bool or np.issubdtype(w.dtype, np.integer):
            ok = np.array_equal(g, w)
        else:
            sc = np.abs(w) + (1.0 if e.out else np.max(np.abs(np.where(np.isfinite(w), w, 0)), initial=1e-300) * 1e-3 + 1e-12)
            with np.errstate(all="ignore"):
                ok = np.all((np.abs(g - w) <= e.tol * sc) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if not ok:
            raise Violation(f"{e.name} {what}: {np.ravel(g)[:6]} instead of {np.ravel(w)[:6]} (inputs {json.dumps(case)[:300]})")


def inputs(name, seed):
    return CAT[name].draw(np.random.default_rng(seed))


def lift(e, leaves, shape):
    """expected outputs for the batch reshaped"""
    out = []
    for v in leaves:
        out.append(v.reshape(v.shape[:e.lead] + shape + v.shape[e.lead + 1:]))
    return out


def draw_from(names):
    return lambda rng: {"f": names[int(rng.integers(len(names)))], "seed": int(rng.integers(2 ** 31))}


def run(case, rec):
    e = CAT[case["f"]]
    arrs, par = inputs(case["f"], case["seed"])
    J = [jnp.array(a) for a in arrs]
    keep = [a.copy() for a in arrs]
    base = tree(call(e.fn, *J, **par))
    for v in base:
        if not np.all(np.isfinite(v)):
            raise Violation(f"{e.name}: non-finite value {v} for {case}")
    done = []

    def check(what, got, want=base, shape=True):
        compare(e, what, got, want, case, shape)
        done.append(what)

    check("with NumPy input", call(e.fn, *arrs, **par))
    for a, b in zip(arrs, keep):
        if not np.array_equal(a, b):
            raise Violation(f"{e.name}: an input array was modified ({case})")
    check("with NumPy parameters", call(e.fn, *J, **{k: np.float64(v) for k, v in par.items()}))
    check("with JAX parameters", call(e.fn, *J, **{k: jnp.asarray(v) for k, v in par.items()}))
    F = obj(("jit", e.name), lambda: jax.jit(lambda a, p: e.fn(*a, **p)))
    check("under jit", call(F, J, par))
    if par:
        G_ = obj(("vp", e.name), lambda: jax.jit(jax.vmap(lambda a, p: e.fn(*a, **p), in_axes=(None, 0))))
        P = {k: jnp.array([v, v * 1.001, v]) for k, v in par.items()}
        out = tree(call(G_, J, P))
        check("under vmap over the parameters", [v[0] for v in out])
        check("under vmap over the parameters, last", [v[2] for v in out])
    elif not e.elementwise:
        G_ = obj(("vb", e.name), lambda: jax.jit(jax.vmap(lambda *a: e.fn(*a))))
        out = tree(call(G_, *[jnp.stack([a[::-1] if a.ndim == 1 else a, a]) for a in J]))
        check("under vmap", [v[1] for v in out])
    for k in e.ints:
        if k in par:
            q = dict(par, **{x: 1.0 for x in e.ints if x in par})
            if e.elementwise:      # keep away from caustics of the changed lens
                m = quiet_sources(np.random.default_rng(case["seed"]), 3 if "q3" in par else 2, {k: v for k, v in q.items() if k in ("s", "q", "q3", "r3", "psi")})
                A = [jnp.array(m)]
            else:
                A = J
            check("with integer parameters", call(e.fn, *A, **{x: int(v) if x in e.ints else v for x, v in q.items()}), tree(call(e.fn, *A, **q)))
            break
    if e.elementwise:
        B = N
        if e.scalar:
            V = obj(("vmap", e.name), lambda: jax.jit(jax.vmap(lambda a, p: e.fn(*a, **p), in_axes=(0, None), out_axes=e.lead)))
            check("under vmap", call(V, J, par), shape=e.scalar is True)
        else:
            V = obj(("vmap", e.name), lambda: jax.jit(jax.vmap(lambda a, p: e.fn(*a, **p), in_axes=(0, None))))
            check("under vmap", call(V, [a.reshape(2, 3) for a in J], par), [v.reshape(2, 3) for v in base])
        if e.shapes:
            check("shape (2, 3)", call(e.fn, *[a.reshape(2, 3) for a in J], **par), lift(e, base, (2, 3)))
            check("shape (6, 1)", call(e.fn, *[a.reshape(6, 1) for a in J], **par), lift(e, base, (6, 1)))
        check("reversed", call(e.fn, *[a[::-1] for a in J], **par), [np.flip(v, e.lead) for v in base])
        check("a strided slice", call(e.fn, *[a[1::2] for a in arrs], **par), [np.take(v, [1, 3, 5], e.lead) for v in base])
        check("one element", call(e.fn, *[a[:1] for a in J], **par), [np.take(v, [0], e.lead) for v in base])
        if e.scalar:
            k = case["seed"] % B
            want = [np.take(v, k, e.lead) for v in base]
            check("JAX scalar", call(e.fn, *[a[k] for a in J], **par), want, e.scalar is True)
            check("Python scalar", call(e.fn, *[a[k].item() for a in arrs], **par), want, e.scalar is True)
    check("called again", call(e.fn, *J, **par))
    for d in done:
        rec.label(d)
    rec.point([case["f"], case["seed"]], True, case["f"])


# ------------------------------------------------------------- finite-source functions
def run_heavy(case, rec):
    e = CAT[case["f"]]
    arrs, par = inputs(case["f"], case["seed"])
    w, keep = arrs[0], arrs[0].copy()
    W = jnp.array(w)
    done = []

    def check(what, got, want, shape=True):
        compare(e, what, got, want, case, shape)
        done.append(what)

    if e.modes == "line":
        base = tree(call(e.fn, W, **par))
        check("with NumPy input", call(e.fn, w, **par), base)
        check("under jit", call(obj(("jit", e.name), lambda: jax.jit(lambda a, p: e.fn(a, **p))), W, par), base)
        check("with NumPy parameters", call(e.fn, W, **{k: np.float64(v) for k, v in par.items()}), base)
        check("one element", np.concatenate([tree(call(e.fn, W[i:i + 1], **par))[0] for i in range(3)]), base)
        check("reversed", call(e.fn, W[::-1], **par), [v[::-1] for v in base])
        if case["seed"] % 3 == 0:
            G_ = obj(("vp", e.name), lambda: jax.jit(jax.vmap(lambda a, p: e.fn(a, **p))))
            out = call(G_, jnp.stack([W[::-1], W]), {k: jnp.array([v * 1.01, v]) for k, v in par.items()})
            check("under vmap", [v[1] for v in tree(out)], base)
    else:
        V = obj(("v", e.name), lambda: jax.jit(jax.vmap(lambda a, p: e.fn(a, **p), in_axes=(0, None))))
        base = tree(call(V, W, par))
        k = case["seed"] % 3
        one = [np.take(v, k, 0) for v in base]
        check("eager scalar", call(e.fn, W[k], **par), one)
        check("Python scalar", call(e.fn, w[k].item(), **par), one)
        check("under jit", call(obj(("jit", e.name), lambda: jax.jit(lambda a, p: e.fn(a, **p))), W[k], par), one)
        check("reversed", call(V, W[::-1], par), [v[::-1] for v in base])
    if e.ints and case["seed"] % 2:
        q = dict(par, **{x: 1.0 for x in e.ints})
        a = W if e.modes == "line" else W[0]
        check("with integer parameters", call(e.fn, a, **{x: int(v) if x in e.ints else v for x, v in q.items()}), tree(call(e.fn, a, **q)))
    if not np.array_equal(w, keep):
        raise Violation(f"{e.name}: the input array was modified ({case})")
    for v in base:
        if not np.all(np.isfinite(v)):
            raise Violation(f"{e.name}: non-finite value {v} for {case}")
    for d in done:
        rec.label(d)
    rec.point([case["f"], case["seed"]], True, case["f"])


# ------------------------------------------------------------------------ call history
STATIC = {
    "mag_binary": lambda w, rho, k, **p: mag_binary(w[:1 + k % 3], rho, u1=[0.0, 0.5][k % 2], MAX_FULL_CALLS=[3, 1, 0][k % 3], chunk_size=[1, 2, 3][k % 3],
                                                    r_resolution=[40, 60][k % 2], th_resolution=[60, 40][k // 2 % 2], Nlimb=100, **p),
    "magnifications": lambda w, rho, k, **p: magnifications(w[:1 + k % 3], rho, nlenses=2, npts_limb=[60, 100][k % 2], limb_darkening=bool(k % 2), u1=0.4, npts_ld=20, **p),
    "mag_point_source": lambda w, rho, k, **p: [lambda: PS.mag_point_source(w, nlenses=1), lambda: PS.mag_point_source(w[:2], nlenses=2, **p),
                                                lambda: PS.mag_point_source(w, nlenses=3, q3=0.2, r3=0.7, psi=1.0, **p)][k % 3](),
    "critical": lambda w, rho, k, **p: PS.critical_and_caustic_curves(npts=[20, 30][k % 2], nlenses=2, **p),
    "mag_uniform": lambda w, rho, k, **p: [lambda: mag_uniform(w[k % 3], rho, nlenses=2, **KW, **p),
                                           lambda: mag_uniform(w[k % 3], rho, nlenses=3, q3=0.2, r3=0.7, psi=1.0, **KW, **p)][k % 2](),
    "fft": lambda w, rho, k, **p: [lambda: MJ.magnification_disk(N_fft=[512, 1024][k % 2]).A(abs(w), rho), lambda: obj("disk", MJ.magnification_disk).A(abs(w), rho),
                                   lambda: MN.magnification_disk(N_fft=[512, 1024][k % 2]).A(abs(w), rho)][k % 3](),
    "poly": lambda w, rho, k, **p: poly_roots(jnp.array(np.concatenate([w, w[::-1] + 1, w * rho])[:3 + k % 6])),
    "parallax": lambda w, rho, k, **p: f_par(8000 + 100 * w.real[:1 + k % 3], 8000.0 + k, 268.0, -29.0, 0.2, 0.1),
}


def draw_hist(rng):
    p = lens(rng, 2)
    names = list(STATIC)
    return {"p": p, "rho": float(10 ** rng.uniform(-1.5, -0.8)), "w": pairs(quiet_sources(rng, 2, p, 3, 0.8)),
            "calls": [[names[int(rng.integers(len(names)))], int(rng.integers(6))] for _ in range(9)]}


def histcalls(case, order):
    w = cplx(case["w"])
    p, rho = case["p"], case["rho"]
    out = {}
    bad = []
    for i in order:
        nm, k = case["calls"][i]
        v = tree(call(STATIC[nm], w if i % 2 else jnp.array(w), rho, k, **p))
        key = f"{nm} {k}"
        if key in out and not all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(out[key], v)):
            if not all(np.allclose(a, b, rtol=1e-9, atol=1e-9) for a, b in zip(out[key], v)):
                bad.append(key)
        out[key] = v
    return out, bad


def run_hist(case, rec):
    k = len(case["calls"])
    orders = [list(range(k)) + list(range(0, k, 2)), list(range(k))[::-1]]
    res = []
    a, bad = histcalls(case, orders[0])
    if bad:
        raise Violation(f"repeating the call {bad[0]} after other calls gives another value ({json.dumps(case)[:300]})")
    code = ("import sys,json; sys.path.insert(0, %r); from props import c19; c=json.load(sys.stdin);"
            "o,b=c19.histcalls(c['case'], c['order']);"
            "print('RESULT'+json.dumps({k:[[list(v.shape), [[float(x.real), float(x.imag)] for x in v.ravel().astype(complex)]] for v in t] for k,t in o.items()}))"
            % os.path.join(VERIF, "harness"))
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps({"case": case, "order": orders[1]}), capture_output=True, text=True, timeout=400)
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
    if not line:
        if "Violation" in r.stderr:
            raise Violation(f"calls in the reverse order fail: {r.stderr[-300:]}")
        raise HarnessError(f"child failed: {r.stderr[-500:]}")
    b = json.loads(line[0][6:])
    for key, t in a.items():
        for v, (sh, x) in zip(t, b[key]):
            x = np.array([complex(*y) for y in x]).reshape(sh)
            if list(v.shape) != sh or not np.allclose(v, x, rtol=1e-9, atol=1e-9, equal_nan=True):
                raise Violation(f"{key}: value depends on the calls made before: {v.ravel()[:4]} in one order, {x.ravel()[:4]} in the reverse order in a new process "
                                f"({json.dumps(case)[:300]})")
    rec.point(case, True, *[c[0] for c in case["calls"]])


def split(kind, names, fn, parts, quick, thorough):
    out = []
    for i in range(parts):
        nm = names[i::parts]
        out.append(Sub(f"{kind}{i}", lambda nm=nm: custom(draw_from(nm)), fn, quick, thorough, "every case: all relations of the function hold",
                       tshards=2, examples=[{"f": k, "seed": 17} for k in nm]))
    return out


SUBS = split("modes", LIGHT, run, 3, 40, 2000) + split("finite", HEAVY, run_heavy, 4, 3, 120) + [
    Sub("history", lambda: custom(draw_hist, reduce=("calls",)), run_hist, 3, 150, "sequence of calls run in two orders in two processes", shards=3),
]

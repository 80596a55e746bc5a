"""C06 derivatives of the point-source model: automatic derivatives against implicit
differentiation of the lens equation done independently, forward against reverse mode."""
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.point_source import _images_point_source, mag_point_source       # noqa: E402
from microjax.multipole import mag_hexadecapole                       # noqa: E402
from microjax.poly_solver import poly_roots                           # noqa: E402
from microjax.trajectory.parallax import compute_parallax, set_parallax        # noqa: E402
from microjax.likelihood import linear_chi2, nll_ulens, nll_ulens_general      # noqa: E402

ASSUMPTIONS = ["generic positions as in C01; tolerance propagated from the condition number of the lens polynomial",
               "trajectory and likelihood derivatives are compared with Richardson-extrapolated central differences"]
NP = 8


def mid(n, th):
    """low-level (mid-point frame) source and parameters from the public vector."""
    w = th[0] + 1j * th[1]
    if n == 1:
        return w, {}
    if n == 2:
        s, q = th[2], th[3]
        a = 0.5 * s
        return w - a * (1 - q) / (1 + q), dict(a=a, e1=q / (1 + q))
    s, q, q3, r3, psi = th[2:]
    a = 0.5 * s
    return w - a * (1 - q) / (1 + q), dict(a=a, e1=q / (1 + q + q3), e2=1 / (1 + q + q3), r3=r3, psi=psi)


def f_mag(n):
    def f(th):
        return mag_point_source(th[0] + 1j * th[1], nlenses=n, **dict(zip(gen.KEYS[n], th[2:])))
    return f


def f_img(n):
    def f(th):
        w, low = mid(n, th)
        z, mask = _images_point_source(w, nlenses=n, **low)
        return z
    return f


def f_hex(n):
    def f(th):
        w, low = mid(n, th[2:] if False else th[:-2])
        z, mask = _images_point_source(w, nlenses=n, **low)
        return mag_hexadecapole(z, mask, th[-2], u1=th[-1], nlenses=n, **low)[0]
    return f


_C = {}


def J(kind, n, what):
    k = (kind, n, what)
    if k not in _C:
        f = {"mag": f_mag, "img": f_img, "hex": f_hex}[kind](n)
        g = {"val": f, "fwd": jax.jacfwd(f), "rev": jax.grad(f),
             "jvp": lambda th, d: jax.jvp(f, (th,), (d,))[1]}[what]
        _C[k] = jax.jit(jax.vmap(g))
    return _C[k]


def sys_of(n, th):
    return refs.system(n, **dict(zip(gen.KEYS[n], th[2:])))


def zeta(n, z, th):
    m, zl, xcm = sys_of(n, th)
    return refs.lens_map(z, m, zl) + xcm - (th[0] + 1j * th[1])


def steps(n, th):
    h = np.full(len(th), 1e-5)
    if n > 1:
        h[3] = 1e-5 * th[3]
    if n > 2:
        h[4] = 1e-5 * th[4]
    return h


def cdiff(f, th, j, h):
    """fourth-order central difference in component j."""
    def at(k):
        t = th.copy()
        t[j] += k * h
        return f(t)
    return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)


def truth(n, th, rep, zl):
    """d z_i / d theta_j and d mu_i / d theta_j."""
    K = len(th)
    g = np.conj(rep.gamma)
    h = steps(n, th)
    dz = np.zeros((len(rep.z), K), complex)
    dmu = np.zeros((len(rep.z), K))
    for j in range(K):
        b = -cdiff(lambda t: zeta(n, rep.z, t), th, j, h[j])           # dz + g conj(dz) = b
        dz[:, j] = (b - g * np.conj(b)) / rep.det
        # det J along the exact direction; step limited by the distance over which J changes
        dist = np.min(np.abs(rep.z[:, None] - zl[None]), axis=1)
        for i in range(len(rep.z)):
            rate = abs(dz[i, j]) / dist[i] + 1e-300
            e = min(h[j] * 20, 1e-3 / rate)
            def Jf(t, i=i, j=j):
                m, zz, _ = sys_of(n, t)
                return refs.det_jac(rep.z[i] + dz[i, j] * (t[j] - th[j]), m, zz)
            dJ = cdiff(Jf, th, j, e)
            dmu[i, j] = -np.sign(rep.det[i]) * dJ / rep.det[i] ** 2
    return dz, dmu


def draw(rng):
    n = int(rng.choice([1, 2, 2, 3, 3]))
    p = gen.binary(rng, qmin=1e-5) if n == 2 else gen.triple(rng, qmin=1e-3, q3min=1e-3) if n == 3 else {}
    return {"n": n, "p": p, "w": pairs(gen.sources(rng, n, p, NP, dmin=-3))}


def run(case, rec):
    n, p = case["n"], case["p"]
    w = cplx(pad(case["w"], NP))
    T = np.array([gen.theta(n, p, x) for x in w])
    G = np.asarray(call(J("mag", n, "fwd"), jnp.array(T)))
    R = np.asarray(call(J("mag", n, "rev"), jnp.array(T)))
    K = T.shape[1]
    dirs = np.random.default_rng(7).normal(size=(NP, K)) * np.maximum(steps(n, T[0]) * 1e5, 0)
    Zd = np.asarray(call(J("img", n, "jvp"), jnp.array(T), jnp.array(dirs)))
    Z = np.asarray(call(J("img", n, "val"), jnp.array(T)))
    m, zl, xcm = refs.system(n, **p)
    sc = steps(n, T[0]) * 1e5                     # natural scale of each parameter
    for k in range(len(case["w"])):
        key = [n, p, case["w"][k]]
        rep = refs.Report(w[k] - xcm, m, zl)
        if n > 1 and (not rep.generic or rep.dA > 1e-4 * rep.A):
            rec.point(key, False, "not judged")
            continue
        if n == 1 and abs(w[k]) < 1e-3:
            continue
        dz, dmu = truth(n, T[k], rep, zl)
        dist = np.min(np.abs(rep.z[:, None] - zl[None]), axis=1)
        un = rep.dz * (rep.mu * rep.ddet + 1 / dist + rep.curv)
        un = np.where(rep.ok, un, 0)
        mov = (rep.mu ** 2 * rep.ddet)[:, None] * np.abs(dz)          # what a wrong image motion does to mu
        tol = (np.sum((np.abs(dmu) + mov) * np.minimum(1.0, 1e-6 + 10 * un)[:, None], axis=0) + 1e-9 * rep.A / sc + 5 * rep.dA / sc) + \
            np.sum(np.where(rep.ok, 0, np.abs(dmu).T * 1.0), axis=1)
        want = dmu.sum(axis=0)
        names = ["w_re", "w_im"] + gen.KEYS[n]
        big = np.sum(np.abs(dmu), axis=0) + 1e-3 * rep.A / sc
        for j in range(K):
            if tol[j] > 0.02 * big[j]:
                rec.label("component not judged")
                continue
            for lab, g in (("forward", G), ("reverse", R)):
                if not abs(g[k, j] - want[j]) <= tol[j]:
                    raise Violation(f"{n} lenses {p} w={w[k]}: {lab}-mode dA/d{names[j]} = {g[k, j]:.10g}, true {want[j]:.10g} (tol {tol[j]:.1e})")
            rec.metric(f"err/n{n}", abs(G[k, j] - want[j]) / big[j])
        # image displacements in a random parameter direction
        zd = dz @ dirs[k]
        for i in range(len(rep.z)):
            if rep.ok[i] and un[i] < 1e-3:
                a = int(np.argmin(np.abs(Z[k] - rep.z[i])))
                lim = np.abs(zd[i]) * (1e-6 + 30 * un[i]) + 1e-8 * (1 + rep.mu[i])
                if not abs(Zd[k, a] - zd[i]) <= lim:
                    raise Violation(f"{n} lenses {p} w={w[k]}: image {rep.z[i]} moves by {Zd[k, a]} instead of {zd[i]}")
        rec.point(key, True, f"n{n}:{len(rep.z)}")


# --------------------------------------------------------------- hexadecapole
def draw_hex(rng):
    c = draw(rng)
    c["rho"] = float(10 ** rng.uniform(-4, -1.5))
    c["u1"] = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
    return c


def run_hex(case, rec):
    n, p = case["n"], case["p"]
    w = cplx(pad(case["w"], NP))
    T = np.array([np.concatenate([gen.theta(n, p, x), [case["rho"], case["u1"]]]) for x in w])
    G = np.asarray(call(J("hex", n, "fwd"), jnp.array(T)))
    R = np.asarray(call(J("hex", n, "rev"), jnp.array(T)))
    m, zl, xcm = refs.system(n, **p)
    sc = np.concatenate([steps(n, T[0][:-2]) * 1e5, [case["rho"], 1.0]])
    reps = [refs.Report(x - xcm, m, zl) for x in w]
    V = J("hex", n, "val")
    A0 = np.asarray(call(V, jnp.array(T)))
    names = ["w_re", "w_im"] + gen.KEYS[n] + ["rho", "u1"]
    good = []
    for k, rep in enumerate(reps):
        ok = rep.generic and rep.complete and np.abs(rep.det).min() > 0.05 and rep.dA < 1e-7 * rep.A and \
            A0[k] < 1.5 * rep.A if n > 1 else abs(w[k]) > max(1e-2, 3 * case["rho"])
        good.append(bool(ok))
    h = 2e-4 * sc
    h[2 + len(gen.KEYS[n])] = 1e-2 * case["rho"]
    h[-1] = 1e-2
    for j in range(T.shape[1]):
        v = {}
        for s in (-4, -2, -1, 1, 2, 4):
            t = T.copy()
            t[:, j] += s * h[j]
            v[s] = np.asarray(V(jnp.array(t)))
        d1 = (8 * (v[1] - v[-1]) - (v[2] - v[-2])) / (12 * h[j])
        d2 = (8 * (v[2] - v[-2]) - (v[4] - v[-4])) / (24 * h[j])
        err = np.abs(d1 - d2)
        for k in range(len(case["w"])):
            if not good[k]:
                continue
            scale = np.abs(d1[k]) + reps[k].A / sc[j]
            if err[k] > 1e-4 * scale:
                rec.label("difference not converged")
                continue
            for lab, g in (("forward", G), ("reverse", R)):
                if not abs(g[k, j] - d1[k]) <= 3e-4 * scale * 1e-2 + 3 * err[k] + 1e-6 * abs(d1[k]) + 1e-9 * scale:
                    raise Violation(f"hexadecapole {n} lenses {p} w={w[k]} rho={case['rho']} u1={case['u1']}: {lab}-mode derivative in {names[j]} "
                                    f"{g[k, j]:.10g}, differences {d1[k]:.10g}")
            rec.metric(f"err/n{n}", abs(G[k, j] - d1[k]) / scale)
    for k in range(len(case["w"])):
        rec.point([n, p, case["w"][k], case["rho"], case["u1"]], good[k], f"n{n}" if good[k] else "not judged")


# ----------------------------------------------------------- polynomial roots
def draw_poly(rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 10]))
    out = []
    for _ in range(NP):
        r = rng.normal(size=n) + 1j * rng.normal(size=n)
        c = np.poly(r) * (rng.normal() + 1j * rng.normal())
        if rng.random() < 0.3:
            c = np.poly(np.concatenate([r[:n // 2], r[:n // 2].conj(), rng.normal(size=n % 2)])) + 0j
        out.append([pairs(c), pairs(rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1))])
    return {"p": out}


def _prj(c, d):
    return jax.jvp(lambda x: poly_roots(x), (c,), (d,))


_prj = jax.jit(_prj)
_prv = jax.jit(lambda c, d, wt: jax.grad(lambda x: jnp.sum((poly_roots(c + x * d) * wt).real))(0.0))


def run_poly(case, rec):
    P = pad(case["p"], NP)
    C = np.array([cplx(x[0]) for x in P])
    D = np.array([cplx(x[1]) for x in P])
    z, dz = (np.asarray(x) for x in call(_prj, jnp.array(C), jnp.array(D)))
    wt = np.random.default_rng(3).normal(size=z.shape) + 1j * np.random.default_rng(4).normal(size=z.shape)
    rv = float(call(_prv, jnp.array(C), jnp.array(D), jnp.array(wt)))
    tot, totabs, allok = 0.0, 1e-300, True
    for k in range(len(P)):
        pp = np.polyval(np.polyder(C[k]), z[k])
        want = -np.polyval(D[k], z[k]) / pp
        cond = np.polyval(np.abs(C[k]), np.abs(z[k])) / np.abs(pp)
        ok = cond < 1e6
        allok &= bool(ok.all())
        if k < len(case["p"]):
            e = np.abs(dz[k] - want)
            lim = (1e-12 * cond + 1e-9) * (np.polyval(np.abs(D[k]), np.abs(z[k])) / np.abs(pp))
            if np.any(ok & ~(e <= lim)):
                raise Violation(f"degree {C.shape[1] - 1}: derivative of the roots {z[k]} is {dz[k]}, implicit differentiation gives {want}")
            rec.point(P[k], C.shape[1] > 2, f"deg{C.shape[1] - 1}")
        tot += np.sum((want * wt[k]).real)
        totabs += np.sum(np.abs(want * wt[k]))
    if allok and not abs(rv - tot) <= 1e-7 * totabs:
        raise Violation(f"reverse-mode derivative of the roots {rv} instead of {tot}")


# ------------------------------------------------------- trajectory, likelihood
def draw_traj(rng):
    tref = float(rng.uniform(1700, 8700))
    return {"th": [float(x) for x in [tref + rng.uniform(-400, 400), rng.normal(), rng.normal(), tref, rng.uniform(0, 360), rng.uniform(-85, 85),
                                      tref + rng.uniform(-200, 200), tref + rng.uniform(-200, 200), rng.uniform(0, 60), rng.uniform(0, 0.5),
                                      rng.uniform(300, 400)]]}


TN = ["t", "piEN", "piEE", "tref", "RA", "Dec", "tperi", "tvernal", "rotaxis", "ecc", "period"]
TH = np.array([0.05, .1, .1, .05, .05, .05, .05, .05, .05, 1e-3, .05])


def _traj(th):
    t, n, e, tref, ra, dec, tp, tv, rot, ecc, per = th
    pp = set_parallax(tref, tp, tv, ra, dec, rotaxis_deg=rot, ecc=ecc, period=per)
    a, b = compute_parallax(jnp.atleast_1d(t), n, e, pp)
    return jnp.stack([a[0], b[0]])


_tv = jax.jit(jax.vmap(_traj))
_tf = jax.jit(jax.jacfwd(_traj))
_tr = jax.jit(jax.jacrev(_traj))


def run_traj(case, rec):
    th = np.array(case["th"])
    F = np.asarray(call(_tf, jnp.array(th)))
    R = np.asarray(call(_tr, jnp.array(th)))
    finite(F, "trajectory derivative")
    if np.any(np.abs(F - R) > 1e-9 * (1 + np.abs(F))):
        raise Violation(f"trajectory: forward- and reverse-mode derivatives differ: {F} {R}")
    pts = []
    for j in range(len(th)):
        for s in (-4, -2, -1, 1, 2, 4):
            t = th.copy()
            t[j] += s * TH[j]
            pts.append(t)
    v = np.asarray(_tv(jnp.array(pts))).reshape(len(th), 6, 2)
    d1 = (8 * (v[:, 3] - v[:, 2]) - (v[:, 4] - v[:, 1])) / (12 * TH[:, None])
    d2 = (8 * (v[:, 4] - v[:, 1]) - (v[:, 5] - v[:, 0])) / (24 * TH[:, None])
    err = np.abs(d1 - d2)
    for j in range(len(th)):
        for c in range(2):
            # the velocity at tref is itself a finite difference: noise of 1e-11 x |t - tref|
            if err[j, c] < 1e-4 * (1 + abs(d1[j, c])) and abs(F[c, j] - d1[j, c]) > 1e-6 * (1 + abs(d1[j, c])) + 3 * err[j, c]:
                raise Violation(f"trajectory: d({'tau', 'u'}[{c}])/d{TN[j]} = {F[c, j]:.10g}, differences give {d1[j, c]:.10g} at {case['th']}")
    rec.point(case["th"], True, "trajectory")


def draw_like(rng):
    n = 6
    A = 1 + 3 * np.abs(rng.normal(size=n))
    return {"A": A.tolist(), "flux": rng.normal(size=n).tolist(), "s2": (10 ** rng.uniform(-2, 1, n)).tolist(),
            "p": (10 ** rng.uniform(-2, 2, 2)).tolist(), "mu": rng.normal(size=2).tolist(), "off": float(rng.uniform(-.5, .5)),
            "d": rng.normal(size=3 * n + 6).tolist()}


def _likes(x, off):
    n = 6
    A, f, s2 = x[:n], x[n:2 * n], x[2 * n:3 * n]
    M = jnp.stack([A, jnp.ones(n)], axis=1)
    C = jnp.diag(s2) + 0.3 * off * jnp.sqrt(s2[:, None] * s2[None, :]) * (1 - jnp.eye(n))
    L = jnp.array([[1.0, off], [off, 1.0]]) * jnp.sqrt(x[3 * n:3 * n + 2][:, None] * x[3 * n:3 * n + 2][None, :])
    chi = linear_chi2(A, f, jnp.sqrt(s2))
    return jnp.stack([nll_ulens(f, M, s2, x[3 * n], x[3 * n + 1]),
                      nll_ulens_general(f, M, C, x[3 * n + 2:3 * n + 4], L)] + [jnp.asarray(c) for c in chi])


_lv = jax.jit(jax.vmap(_likes, in_axes=(0, None)))
_lj = jax.jit(lambda x, off, d: jax.jvp(lambda y: _likes(y, off), (x,), (d,))[1])
_lr = jax.jit(lambda x, off, d: jax.jacrev(lambda y: _likes(y, off))(x) @ d)


def run_like(case, rec):
    x = np.array(case["A"] + case["flux"] + case["s2"] + case["p"] + case["mu"])
    sc = np.concatenate([np.ones(12), case["s2"], case["p"], np.ones(2)])
    d = np.array(case["d"])[:len(x)] * sc * 0.3
    F = np.asarray(call(_lj, jnp.array(x), case["off"], jnp.array(d)))
    R = np.asarray(call(_lr, jnp.array(x), case["off"], jnp.array(d)))
    if np.any(np.abs(F - R) > 1e-8 * (1 + np.abs(F))):
        raise Violation(f"likelihood: forward and reverse derivatives differ: {F} {R}")
    h = 1e-3
    v = np.asarray(_lv(jnp.array([x + s * h * d for s in (-4, -2, -1, 1, 2, 4)]), case["off"]))
    d1 = (8 * (v[3] - v[2]) - (v[4] - v[1])) / (12 * h)
    d2 = (8 * (v[4] - v[1]) - (v[5] - v[0])) / (24 * h)
    err = np.abs(d1 - d2)
    for k, nm in enumerate(["nll_ulens", "nll_ulens_general", "intercept", "slope", "chi2_a", "chi2_b", "chi2"]):
        if err[k] < 1e-3 * (1 + abs(d1[k])) and not abs(F[k] - d1[k]) <= 1e-6 * (1 + abs(d1[k]) + abs(v[2][k])) + 3 * err[k]:
            raise Violation(f"likelihood: directional derivative of {nm} is {F[k]:.10g}, differences give {d1[k]:.10g}")
    rec.point([case["A"], case["flux"]], True, "likelihood")


SUBS = [
    Sub("magnification", lambda: custom(draw), run, 140, 4000, "generic well-conditioned position, all parameters", shards=4),
    Sub("hexadecapole", lambda: custom(draw_hex), run_hex, 40, 1200, "generic position, converged differences", shards=3),
    Sub("roots", lambda: custom(draw_poly, ("p",)), run_poly, 120, 4000, "degree >= 2"),
    Sub("trajectory", lambda: custom(draw_traj, ()), run_traj, 200, 5000, "every case"),
    Sub("likelihood", lambda: custom(draw_like, ()), run_like, 200, 5000, "every case"),
]

"""C20 derivatives of finite-source magnifications: forward-mode derivatives against finite differences of an
independent finite-source solver, exactness on the multipole branch, finiteness, value under differentiation."""
import numpy as np
from core import *
import finite
import gen
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.extended_source import mag_limb_dark, mag_uniform         # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple    # noqa: E402

ASSUMPTIONS = ["derivatives are compared where central differences of the reference with steps of 2 and 4 per cent of the source radius agree to 1 per cent "
               "of A/rho (elsewhere the source is tangent to a caustic or the reference is too coarse)",
               "errors are measured in units of A/rho (A for the limb-darkening coefficient); single positions are judged loosely, populations tightly",
               "a limb-darkened value computed under differentiation differs by up to 5.5 per cent from the plain value (known finding)"]
RES = 300
NAMES = {2: ["x", "y", "rho", "s", "q"], 3: ["x", "y", "rho", "s", "q", "q3", "r3", "psi"]}
_F = {}


def solver(n, ld, res=RES):
    k = (n, ld, res)
    if k not in _F:
        names = NAMES[n]

        def g(th):
            p = {nm: th[i] for i, nm in enumerate(names) if i > 2}
            if ld:
                return mag_limb_dark(th[0] + 1j * th[1], th[2], u1=th[len(names)], nlenses=n, r_resolution=res, th_resolution=res, **p)
            return mag_uniform(th[0] + 1j * th[1], th[2], nlenses=n, r_resolution=res, th_resolution=res, **p)
        d = len(names) + int(ld)
        f = lambda th: (g(th), *jax.vmap(lambda e: jax.jvp(g, (th,), (e,)))(jnp.eye(d)))
        _F[k] = jax.jit(f)
    return _F[k]


def vb(n, th, u1):
    p = dict(zip(NAMES[n][3:], [float(v) for v in th[3:]]))
    return float(finite.reference(n, complex(th[0], th[1]), float(th[2]), p, u1)[0])


def reference_gradient(n, th, u1, f=0.02):
    """central differences with two steps: (derivative, discrepancy)"""
    out = []
    for k in range(len(th)):
        h = f * min(th[2], th[k] if k > 2 and NAMES[n][k] in ("q", "q3") else th[2])
        d = []
        for t in (1, 2):
            a, b = th.copy(), th.copy()
            a[k] += t * h
            b[k] -= t * h
            d.append((vb(n, a, u1) - vb(n, b, u1)) / (2 * t * h))
        out.append(((4 * d[0] - d[1]) / 3, abs(d[0] - d[1])))
    return np.array(out).T


def draw(n, ld):
    def fn(rng):
        if n == 2:
            p = gen.binary(rng, qmin=1e-3, qmax=2, smin=0.5, smax=2.2)
            rho = float(10 ** rng.uniform(-2.3, -0.6))
        else:
            p = gen.triple(rng, qmin=2e-2, q3min=2e-2, r3max=1.6, smin=0.5, smax=2.0)
            rho = float(10 ** rng.uniform(-1.5, -0.6))
        cau = refs.caustic_points(n, 150, **p)[0]
        cau = cau[np.abs(cau) < 2.5]
        while True:
            if rng.random() < 0.8 and len(cau):
                w = cau[rng.integers(len(cau))] + rho * 3 * rng.random() * np.exp(2j * np.pi * rng.random())
            else:
                w = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
            if abs(w) > 1e-3 and not finite.origin_fold(n, w, rho, p):
                return {"n": n, "p": p, "rho": rho, "u1": float(rng.uniform(0.1, 0.9)) if ld else 0.0, "w": pairs([complex(w)])}
            rho *= 0.8 if rho > 0.02 else 1
    return fn


LIM = {0: 0.15, 1: 0.6}        # single positions, units of A/rho


def run(case, rec):
    n, p, rho, u1 = case["n"], case["p"], case["rho"], case["u1"]
    w = cplx(case["w"])[0]
    ld = u1 > 0
    base = np.array([w.real, w.imag, rho] + [p[k] for k in NAMES[n][3:]])
    th = np.append(base, u1) if ld else base
    A, P, T = (np.asarray(v) for v in call(solver(n, ld), jnp.array(th)))
    key = [n, p, rho, u1, case["w"]]
    if not (np.all(np.isfinite(T)) and np.isfinite(A) and np.all(np.isfinite(P))):
        raise Violation(f"non-finite derivative {T} (value {A}) of the {n}-lens magnification {p} w={w} rho={rho} u1={u1}")
    if np.ptp(P) > 1e-9 * A:
        raise Violation(f"the value under differentiation depends on the direction: {P}")
    e = abs(P[0] / A - 1)
    if not e <= (0.12 if ld else 0.02):
        raise Violation(f"value under differentiation {P[0]:.8g}, plain value {A:.8g}, for {n} lenses {p} w={w} rho={rho} u1={u1}")
    rec.metric("value", e)
    D, noise = reference_gradient(n, base, u1)
    A0 = vb(n, base, u1)
    if not (np.all(np.isfinite(D)) and abs(A0 / A - 1) < 0.02):
        rec.point(key, False, "reference not usable")
        return
    unit = rho / A0
    ok = noise * unit < 0.01
    err = np.abs(T[:len(base)] - D) * unit
    lim = LIM[int(ld)] + 0.3 * np.abs(D) * unit
    bad = ok & ok[:3].all() & ~(err <= lim)
    if bad.any():
        T2 = np.asarray(call(solver(n, ld, 900), jnp.array(th))[2])
        D2, noise2 = reference_gradient(n, base, u1, 0.005)
        rec.label("escalated")
        e2 = np.minimum(np.abs(T2[:len(base)] - D) * unit, np.abs(T2[:len(base)] - D2) * unit)
        worse = bad & ~(e2 <= lim) & (noise2 * unit < 0.02)
        if worse.any():
            k = int(np.argmax(np.where(worse, e2, 0)))
            raise Violation(f"d(magnification)/d({NAMES[n][k]}) = {T[k]:.6g} (resolution 900: {T2[k]:.6g}) but the reference has {D[k]:.6g} for {n} lenses {p} w={w} "
                            f"rho={rho} u1={u1} (A={A0:.5g})")
        err = np.where(bad, np.minimum(err, e2), err)
    for k, nm in enumerate(NAMES[n]):
        if ok[k]:
            rec.metric("err " + nm, err[k])
            rec.metric("scale " + nm, abs(D[k]) * unit)
    if ld:
        # A(u1) = (a + b u1)/(3 - u1): exact derivative from the end points
        a0, a1 = vb(n, base, 0.0), vb(n, base, 1.0)
        if np.isfinite(a0 + a1):
            want = ((2 * a1 - 3 * a0) * (3 - u1) + 3 * a0 + (2 * a1 - 3 * a0) * u1) / (3 - u1) ** 2
            eu = abs(T[-1] - want) / A0
            if not eu <= 0.1 + 0.2 * abs(want) / A0:
                raise Violation(f"d(magnification)/d(u1) = {T[-1]:.6g}, exact {want:.6g} for {n} lenses {p} w={w} rho={rho} u1={u1}")
            rec.metric("err u1", eu)
    rec.point(key, ok.sum() >= 3, "all directions" if ok.all() else "some directions")


def fin(n, lim):
    def f(metrics):
        for nm in NAMES[n] + ["u1", "value"]:
            x = np.array([v for v, _ in metrics.get("value" if nm == "value" else "err " + nm, [])])
            if len(x) < 25 or nm not in lim:
                continue
            for pc, l in zip((50, 80), lim[nm]):
                v = np.percentile(x, pc)
                if v > l:
                    raise Violation(f"derivative with respect to {nm}: {pc}th percentile of the error is {v:.3g} A/rho over {len(x)} positions (limit {l})"
                                    if nm != "value" else f"value under differentiation: {pc}th percentile of the deviation is {v:.3g} over {len(x)} positions (limit {l})")
    return f


# ------------------------------------------------ multipole branch: exact derivative
NPH = 4


def line(n):
    def f(th):
        w = th[:NPH] + 1j * th[NPH:2 * NPH]
        p = {nm: th[2 * NPH + 1 + i] for i, nm in enumerate(NAMES[n][3:])}
        return (mag_binary if n == 2 else mag_triple)(w, th[2 * NPH], MAX_FULL_CALLS=0, r_resolution=20, th_resolution=20, Nlimb=20, chunk_size=1, **p)
    return f


def draw_multi(rng):
    n = int(rng.choice([2, 2, 3]))
    p = gen.binary(rng, qmin=1e-2, qmax=2, smin=0.5, smax=2.0) if n == 2 else gen.triple(rng, qmin=3e-2, q3min=3e-2, r3max=1.6, smin=0.6, smax=1.8)
    cau = refs.caustic_points(n, 200, **p)[0]
    w = []
    while len(w) < NPH:
        x = complex(rng.uniform(-1.3, 1.3), rng.uniform(-1.3, 1.3))
        if np.abs(cau - x).min() > 0.1 and abs(x) > 0.1:
            w.append(x)
    return {"n": n, "p": p, "rho": float(10 ** rng.uniform(-3, -1.7)), "w": pairs(w)}


def run_multi(case, rec):
    n, p = case["n"], case["p"]
    w = cplx(pad(case["w"], NPH))
    th = np.concatenate([w.real, w.imag, [case["rho"]], [p[k] for k in NAMES[n][3:]]])
    k = ("line", n)
    if k not in _F:
        f = line(n)
        _F[k] = jax.jit(f), jax.jit(jax.jacfwd(f))
    f, jf = _F[k]
    J = np.asarray(call(jf, jnp.array(th)))
    A = np.asarray(call(f, jnp.array(th)))
    if not np.all(np.isfinite(J)):
        raise Violation(f"non-finite derivative of the multipole light curve {case}")
    # rows of other positions must not react
    for k in range(NPH):
        for j in range(NPH):
            if k != j and max(abs(J[j, k]), abs(J[j, NPH + k])) > 0:
                raise Violation(f"the magnification of position {j} depends on position {k} ({case})")
    for k in range(len(th)):
        h = 1e-4 * (case["rho"] / 0.02 if k == 2 * NPH else 1.0)
        D = []
        for t in (1, 2):
            e = np.zeros(len(th))
            e[k] = t * h
            D.append((np.asarray(call(f, jnp.array(th + e))) - np.asarray(call(f, jnp.array(th - e)))) / (2 * t * h))
        d = (4 * D[0] - D[1]) / 3
        tol = 1e-6 * (np.abs(A) * 10 + np.abs(d)) + 0.1 * np.abs(D[0] - D[1]) + (1e-9 / h) * np.abs(A)
        bad = ~(np.abs(J[:, k] - d) <= tol)
        bad &= np.abs(D[0] - D[1]) < 1e-3 * (np.abs(A) + np.abs(d))
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation(f"multipole light curve: derivative {k} at position {j} is {J[j, k]:.10g}, finite difference {d[j]:.10g} ({json_(case)})")
        rec.metric("multipole", np.max(np.abs(J[:, k] - d) / (np.abs(A) + np.abs(d))))
    rec.point(case, True, f"n{n}")


def json_(x):
    return canon(x)[:400]


# --------------------- light curves mix both branches: derivatives of each point as if it stood alone
def draw_mix(rng):
    p = gen.binary(rng, qmin=3e-2, qmax=1, smin=0.7, smax=1.6)
    rho = float(10 ** rng.uniform(-1.7, -1))
    cau = refs.caustic_points(2, 200, **p)[0]
    cau = cau[np.abs(cau) < 2]
    w = [complex(cau[rng.integers(len(cau))] + rho * rng.uniform(0, 0.9) * np.exp(2j * np.pi * rng.random())) for _ in range(2)]
    while len(w) < 4:
        x = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        if np.abs(cau - x).min() > 0.4:
            w.append(x)
    w = [w[i] for i in rng.permutation(4)]
    if any(finite.origin_fold(2, x, rho, p) for x in w):
        return draw_mix(rng)
    return {"p": p, "rho": rho, "w": pairs(w)}


def run_mix(case, rec):
    p = case["p"]
    w = cplx(pad(case["w"], 4))
    th = np.array([0.0, 0.0, case["rho"], p["s"], p["q"]])
    if "mix" not in _F:
        kw = dict(r_resolution=100, th_resolution=100, Nlimb=200)

        def lc(th, w, m):
            return mag_binary(w + th[0] + 1j * th[1], th[2], s=th[3], q=th[4], MAX_FULL_CALLS=m, chunk_size=2, margin_r=0.5, margin_th=0.5, **kw)

        def full(th, w):
            return jax.vmap(lambda x: mag_uniform(x + th[0] + 1j * th[1], th[2], nlenses=2, s=th[3], q=th[4], margin_r=0.5, margin_th=0.5, **kw))(w)
        J = lambda g: jax.jit(lambda th, w: (g(th, w), jax.jacfwd(g)(th, w)))
        _F["mix"] = J(lambda th, w: lc(th, w, 4)), J(lambda th, w: lc(th, w, 0)), J(full)
    (A, JA), (H, JH), (F, JF) = ([np.asarray(x) for x in call(f, jnp.array(th), jnp.array(w))] for f in _F["mix"])
    kinds = 0
    for j in range(len(case["w"])):
        near = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
        if near(A[j], H[j]) and not near(A[j], F[j]):
            want, kind = JH[j], "multipole"
        elif near(A[j], F[j]) and not near(A[j], H[j]):
            want, kind = JF[j], "full"
        else:
            continue
        if not np.allclose(JA[j], want, rtol=1e-6, atol=1e-6 * (np.abs(want).max() + A[j])):
            raise Violation(f"derivative of point {j} ({kind} value) in the light curve is {JA[j]}, of the same point alone {want} ({json_(case)})")
        rec.label(kind)
        kinds |= 1 if kind == "full" else 2
    rec.point(case, kinds == 3, "mixed" if kinds == 3 else "one kind")


# ------------------------------------------------------------------ finiteness everywhere
def draw_any(n, ld):
    def fn(rng):
        p = gen.binary(rng, qmin=1e-4) if n == 2 else gen.triple(rng, qmin=1e-2, q3min=1e-2)
        t = rng.random()
        rho = float(10 ** rng.uniform(-3, -0.3))
        if t < 0.3:
            w = complex(rng.choice([0.0, 1.0, -0.5, rng.uniform(-1.5, 1.5)]), 0.0)
        elif t < 0.4:
            w = 1j * float(rng.uniform(-1, 1))
        elif t < 0.7:
            cau = refs.caustic_points(n, 60, **p)[0]
            w = complex(cau[rng.integers(len(cau))])
        else:
            w = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        return {"n": n, "p": p, "rho": rho, "u1": float(rng.choice([0.0, 0.5, 1.0])) if ld else 0.0, "w": pairs([complex(w)]), "ld": bool(ld)}
    return fn


def run_any(case, rec):
    n, p, rho = case["n"], case["p"], case["rho"]
    w = cplx(case["w"])[0]
    th = np.array([w.real, w.imag, rho] + [p[k] for k in NAMES[n][3:]] + ([case["u1"]] if case["ld"] else []))
    A, P, T = (np.asarray(v) for v in call(solver(n, case["ld"], 60), jnp.array(th)))
    if not (np.isfinite(A) and np.all(np.isfinite(T)) and np.all(np.isfinite(P))):
        raise Violation(f"non-finite result for {n} lenses {p} w={w} rho={rho} u1={case['u1']}: value {A}, derivatives {T}")
    rec.point([n, p, rho, case["u1"], case["w"]], True, "axis" if w.imag == 0 else "off axis")


UNI = {"x": (1.5e-3, 6e-3), "y": (1.5e-3, 6e-3), "rho": (2.5e-3, 1e-2), "s": (1.5e-3, 6e-3), "q": (4e-3, 1.5e-2), "value": (6e-4, 1e-3)}
LDK = {"x": (0.015, 0.04), "y": (0.015, 0.04), "rho": (0.03, 0.1), "s": (0.012, 0.03), "q": (0.03, 0.06), "u1": (0.025, 0.035), "value": (0.022, 0.027)}
TRI = {"x": (4e-3, 2e-2), "y": (4e-3, 2e-2), "rho": (5e-3, 2e-2), "s": (4e-3, 2e-2), "q": (5e-3, 2e-2), "q3": (5e-3, 2e-2), "r3": (4e-3, 2e-2), "psi": (4e-3, 2e-2), "value": (6e-4, 1e-3)}
SUBS = [
    Sub("uniform", lambda: custom(draw(2, False)), run, 100, 3000, "at least three derivatives judged", shards=2, finalize=fin(2, UNI)),
    Sub("limbdark", lambda: custom(draw(2, True)), run, 80, 2000, "at least three derivatives judged", shards=2, finalize=fin(2, LDK)),
    Sub("triple", lambda: custom(draw(3, False)), run, 40, 1000, "at least three derivatives judged", shards=2, finalize=fin(3, TRI)),
    Sub("multipole", lambda: custom(draw_multi), run_multi, 40, 1500, "every light curve"),
    Sub("mixed", lambda: custom(draw_mix), run_mix, 10, 400, "light curve with both multipole and full points"),
    Sub("finite", lambda: custom(draw_any(2, False)), run_any, 200, 6000, "every position"),
    Sub("finiteld", lambda: custom(draw_any(2, True)), run_any, 150, 5000, "every position"),
    Sub("finite3", lambda: custom(draw_any(3, True)), run_any, 60, 2500, "every position"),
]


def run_value(case, rec):
    """limb-darkened value under differentiation (known finding): the plain value is 1.7 per cent higher"""
    p, u1, rho, w = case["p"], case["u1"], case["rho"], cplx(case["w"])[0]
    A, P, _ = (np.asarray(v) for v in call(solver(2, True), jnp.array([w.real, w.imag, rho, p["s"], p["q"], u1])))
    if abs(P[0] / A - 1) > 6e-3:
        raise Violation(f"value under differentiation {P[0]:.8g}, plain value {A:.8g}: {case}")
    rec.point(case, True)


KNOWN_SUBS = [Sub("value", lambda: custom(lambda rng: {}), run_value, 0, 0, "pinned case only")]

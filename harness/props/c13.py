"""C13 FFTLog and Hankel transforms: direct quadrature of the defining integral,
NumPy <-> JAX differential, linearity and scale covariance."""
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
import numpy as np                                                    # noqa: E402
from core import *                                                    # noqa: E402

bootstrap()
import jax                                                            # noqa: E402,F401
import jax.numpy as jnp                                               # noqa: E402
from scipy.special import jv                                          # noqa: E402
from microjax.fastlens import fftlog as FN, fftlog_jax as FJ          # noqa: E402

METHOD = {"j": "fftlog", "dj": "fftlog_dj", "ddj": "fftlog_ddj", "jsqr": "fftlog_jsqr", "hankel": "hankel"}
T = np.linspace(-15, 11, 26001)
X = np.exp(T)


def sph(l, z):
    return np.sqrt(np.pi / 2 / z) * jv(l + .5, z)


def kernel(kind, l, z):
    if kind == "hankel":
        return jv(l, z)                         # F(y) = int dx/x f(x) J_n(xy)
    j = sph(l, z)
    if kind == "j":
        return j
    if kind == "jsqr":
        return j * j
    j1 = sph(l + 1, z)
    if kind == "dj":
        return l / z * j - j1
    return (l * (l - 1) / z ** 2 - 1) * j + 2 / z * j1


def func(c, x):
    lx = np.log(x)
    k = c["ftype"]
    if k == "lognormal":
        return sum(a * np.exp(-(lx - m) ** 2 / 2 / s ** 2) for a, m, s in c["comp"])
    p, x0 = c["p"], c["x0"]
    if k == "powexp":
        return (x / x0) ** p * np.exp(-(x / x0) ** c["e"])
    return (x / x0) ** p / (1 + (x / x0) ** 2) ** ((p + 4) / 2)


def gen_tr():
    def fn(rng):
        kind = str(rng.choice(list(METHOD)))
        integer = rng.random() < .6 or kind in ("dj", "ddj")
        l = float(rng.integers(0, 6)) if integer else float(np.round(rng.uniform(-.4 if kind == "j" else 0, 5), 2))
        lo = {"j": -l, "dj": 1 - l if l > 0 else -1, "ddj": [0, -1][int(l)] if l < 2 else 2 - l, "jsqr": -2 * l,
              "hankel": .5 - l}[kind]
        hi = {"jsqr": .7}.get(kind, 1.8)
        c = {"kind": kind, "l": l, "N": int(rng.choice([512, 513, 600, 1024])), "L": float(rng.uniform(5, 6)),
             "cw": float(rng.uniform(.05, .4)), "pad": int(rng.choice([0, 100, 256])), "xlo": 0, "xhi": 0,
             "ftype": str(rng.choice(["lognormal", "powexp", "rational"])), "shift": float(rng.uniform(-.3, .3))}
        if c["ftype"] == "lognormal":
            c["comp"] = [[float(rng.normal()), float(rng.uniform(-1, 1)), float(rng.uniform(.5, 1.2))] for _ in range(3)]
        else:
            # the biased function x^-nu f must fall at the low end
            c["p"] = float(rng.uniform(max(lo, -1) + 1.7, 3.5))
            c["x0"] = float(10 ** rng.uniform(-.5, .5))
            c["e"] = float(rng.uniform(.8, 2))
            c["xlo"] = int(rng.choice([0, 64, 200]))
            if c["ftype"] == "rational":
                c["xhi"] = int(rng.choice([0, 64, 200]))
            hi = min(hi, c["p"] - .8 - (.5 if kind == "hankel" else 0))
        lo = max(lo, -1) + .8
        if hi <= lo:
            hi = lo
            if c["ftype"] != "lognormal":
                c["p"] = max(c["p"], lo + .8 + (.5 if kind == "hankel" else 0))
        c["nu"] = float(rng.uniform(lo, hi)) if hi > lo else float(lo)
        return c
    return custom(fn, ())


def build(mod, xp, c, x, f):
    kw = dict(nu=c["nu"], N_extrap_low=c["xlo"], N_extrap_high=c["xhi"], c_window_width=c["cw"], N_pad=c["pad"])
    if c["kind"] == "hankel":
        return call(mod.hankel, xp(x), xp(f), **kw)
    return call(mod.fftlog, xp(x), xp(f), **kw)


def transform(mod, xp, c, x, f):
    y, F = call(getattr(build(mod, xp, c, x, f), METHOD[c["kind"]]), c["l"])
    return np.array(y), np.array(F)


def sizes(c, y, F, n):
    if y.shape != F.shape or not n - 1 <= len(y) <= n + 1:
        raise Violation(f"{c['kind']}: output of shape {y.shape}/{F.shape} for {n} samples: {c}")


def run_tr(c, rec):
    x = np.logspace(-c["L"] + c["shift"], c["L"] + c["shift"], c["N"])
    f = func(c, x)
    yn, Fn = transform(FN, np.asarray, c, x, f)
    yj, Fj = transform(FJ, jnp.asarray, c, x, f)
    sizes(c, yn, Fn, c["N"])
    sizes(c, yj, Fj, c["N"])
    if yj.shape != yn.shape or np.max(np.abs(yj / yn - 1)) > 1e-11:
        raise Violation(f"output abscissae of the two implementations differ: {c}")
    finite(Fj, f"transform {c}")
    b = yn ** c["nu"]
    e = np.max(np.abs(Fn - Fj) * b) / np.max(np.abs(Fn) * b)
    if not e < 3e-10:
        raise Violation(f"NumPy and JAX {c['kind']} transforms differ by {e:.2g} of the biased maximum: {c}")
    rec.metric("numpy-vs-jax", e, None)
    # the abscissae are (l+1)/x reversed
    l1 = (c["l"] + .5) if c["kind"] == "hankel" else (c["l"] + 1)
    mid = yn * x[::-1][-len(yn):] / l1 if len(yn) <= len(x) else yn[1:] * x[::-1] / l1
    mid2 = yn * x[::-1][:len(yn)] / l1 if len(yn) <= len(x) else mid
    if min(np.max(np.abs(mid - 1)), np.max(np.abs(mid2 - 1))) > 1e-9:
        raise Violation(f"abscissae are not (order+1)/x reversed: {c}")
    sel = np.nonzero((yn > .1) & (yn < 8))[0][::9]
    y = yn[sel]
    ff = func(c, X)
    w = np.abs(ff * np.minimum(1, X ** max(0, min(c["l"], 2)))) > 1e-17 * np.abs(ff).max()
    h = T[1] - T[0]
    want, scale = [], []
    for yy in y:
        g = ff[w] * kernel(c["kind"], c["l"], X[w] * yy)
        want.append(g.sum() * h)
        scale.append(np.abs(g).sum() * h)
    want, scale = np.array(want), np.array(scale)
    # FFTLog errors scale with the biased quantity, so compare against the local and biased scale
    loc = np.maximum(scale, 1e-3 * np.max(scale * y ** c["nu"]) * y ** -c["nu"])
    for nm, F in (("NumPy", Fn), ("JAX", Fj)):
        err = np.abs(F[sel] - want) / loc
        rec.metric("transform error", err.max(), None)
        if not err.max() < 2e-5:
            i = int(np.argmax(err))
            raise Violation(f"{nm} {METHOD[c['kind']]}(order {c['l']}) at y={y[i]:.5g}: {F[sel][i]:.10g}, defining integral {want[i]:.10g}: {c}")
    rec.point(c, True, c["kind"], c["ftype"], "extrapolated" if c["xlo"] or c["xhi"] else "", "padded" if c["pad"] else "",
              "odd N" if c["N"] % 2 else "")


def gen_alg():
    def fn(rng):
        c = gen_tr().draw(rng)
        c.update(ftype="lognormal", comp=[[float(rng.normal()), float(rng.uniform(-1, 1)), float(rng.uniform(.5, 1.2))] for _ in range(3)],
                 xlo=0, xhi=0, lam=float(10 ** rng.uniform(-2, 2)), al=float(rng.normal()), be=float(rng.normal()), seed=int(rng.integers(1 << 30)))
        return c
    return custom(fn, ())


def run_alg(c, rec):
    x = np.logspace(-c["L"], c["L"], c["N"])
    f = func(c, x)
    g = np.exp(-.5 * np.log(x) ** 2) * np.random.default_rng(c["seed"]).normal(size=len(x))       # rough
    for nm, mod, xp in (("NumPy", FN, np.asarray), ("JAX", FJ, jnp.asarray)):
        y, F = transform(mod, xp, c, x, f)
        _, G = transform(mod, xp, c, x, g)
        _, H = transform(mod, xp, c, x, c["al"] * f + c["be"] * g)
        b = y ** c["nu"]
        s = np.max((np.abs(c["al"] * F) + np.abs(c["be"] * G)) * b)
        e = np.max(np.abs(H - c["al"] * F - c["be"] * G) * b) / s
        if not e < 1e-9:
            raise Violation(f"{nm} {c['kind']} transform is not linear ({e:.2g}): {c}")
        lam = c["lam"]
        y2, F2 = transform(mod, xp, c, x * lam, f)
        e = np.max(np.abs(F2 - F) * b) / np.max(np.abs(F) * b)
        if not (np.max(np.abs(y2 * lam / y - 1)) < 1e-9 and e < 1e-8):
            raise Violation(f"{nm} {c['kind']} transform is not scale covariant ({e:.2g}): {c}")
    rec.point(c, True, c["kind"])


SUBS = [
    Sub("transform", gen_tr, run_tr, 280, 12000, "every (function, kernel, order, bias, size, padding, extrapolation) tuple", shards=4),
    Sub("algebra", gen_alg, run_alg, 80, 6000, "rough random input, random scale factor", shards=2),
]
ASSUMPTIONS = ["bias kept at least 0.8 inside the strip where the Mellin transform of the kernel is analytic (documented restriction on nu); "
               "outside, the algorithm's periodic aliasing is expected",
               "defining integral evaluated by 26001-point trapezoid in log x (spectrally accurate for these functions)"]

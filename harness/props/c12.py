"""C12 FFT single-lens magnification: differential against direct quadrature of
the point-lens magnification over the disc, closed forms, and metamorphic relations."""
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
import numpy as np                                                    # noqa: E402
from core import *                                                    # noqa: E402

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from scipy.special import ellipk, ellipe                              # noqa: E402
from microjax.fastlens import mag_fft as N, mag_fft_jax as J          # noqa: E402

GX, GW = np.polynomial.legendre.leggauss(72)
TT = (GX + 1) / 2 * np.pi - np.pi / 2
SX, CW = np.sin(TT), np.cos(TT) * GW * np.pi / 2

_R, _RW = np.polynomial.legendre.leggauss(16)
_R, _RW = .5 * (_R + 1), .5 * _RW
_PH = np.arange(48) * 2 * np.pi / 48


def integ(f, a, b):
    """sin-substituted Gauss-Legendre: handles square-root end points."""
    x = .5 * (a + b) + .5 * (b - a) * SX
    return np.sum(f(x) * CW * .5 * (b - a))


def uniform(u, rho):
    u = abs(u)
    if u == 0:
        return np.sqrt(rho ** 2 + 4) / rho
    if u > 2 * rho:                      # smooth integrand: polar product rule
        r = _R[:, None] * rho
        v2 = u * u + r * r + 2 * u * r * np.cos(_PH)[None, :]
        return float(np.sum(_RW[:, None] * _R[:, None] * (v2 + 2) / np.sqrt(v2 * (v2 + 4))) * 2 / len(_PH))
    tot = 0.0
    if u < rho:
        v = rho - u
        tot += np.pi * v * np.sqrt(v * v + 4)
    lo, hi = abs(u - rho), u + rho

    def g(v):
        return (v * v + 2) / np.sqrt(v * v + 4) * 2 * np.arccos(np.clip((u * u + v * v - rho * rho) / (2 * u * v), -1, 1))
    # the arc length varies fast close to the lens when the limb passes nearby
    br = [lo]
    while lo > 0 and br[-1] * 30 < hi:
        br.append(br[-1] * 10)
    br.append(hi)
    tot += sum(integ(g, p, q) for p, q in zip(br[:-1], br[1:]))
    return tot / np.pi / rho ** 2


def power(u, rho, n):
    """profile (1-(r/rho)^2)^(n/2) as a superposition of uniform discs."""
    k = abs(u) / rho
    seg = [(0, k), (k, 1)] if 0 < k < 1 else [(0, 1)]
    num = den = 0.0
    for a, b in seg:
        t = .5 * (a + b) + .5 * (b - a) * SX
        w = n * t ** 3 * (1 - t * t) ** (n / 2 - 1) * CW * .5 * (b - a)
        num += np.sum(w * np.array([uniform(u, x * rho) for x in t]))
        den += np.sum(w)
    return num / den


def ref(prof, u, rho, a1):
    if prof == "disk":
        return uniform(u, rho)
    if prof == "limb2":
        return power(u, rho, 2)
    p1 = power(u, rho, 1)
    if prof == "limb1":
        return p1
    return ((1 - a1) * uniform(u, rho) + a1 * 2 / 3 * p1) / (1 - a1 / 3)


def exact0(prof, rho, a1):
    d = np.sqrt(rho ** 2 + 4) / rho
    if prof == "disk":
        return d
    # quadrature of 2 r S A_point, independent of the package's closed forms
    x = np.sin(np.pi / 4 * (GX + 1))
    w = GW * np.pi / 4 * np.cos(np.pi / 4 * (GX + 1))
    m = np.sqrt(1 - x * x)
    A = (x ** 2 * rho ** 2 + 2) / np.sqrt(x ** 2 * rho ** 2 + 4)
    S = {"limb1": m, "limb2": m ** 2}.get(prof, 1 - a1 * (1 - m))
    return np.sum(w * S * A) / rho / np.sum(w * S * x)


_C = {}


def models(prof, a1):
    """(name, callable(u, rho)) of every implementation of this profile."""
    if prof not in _C:
        _C[prof] = {"disk": lambda: [("np disk", N.magnification_disk().A), ("jax disk", J.magnification_disk().A),
                                     ("jax mag_disk", J.mag_disk().A)],
                    "limb1": lambda: [("np limb(1)", N.magnification_limb(1).A), ("jax limb1", J.magnification_limb1().A)],
                    "limb2": lambda: [("np limb(2)", N.magnification_limb(2).A), ("jax limb2", J.magnification_limb2().A)],
                    "linear": lambda: [("jax mag_limb", J.mag_limb().A)]}[prof]()
        out = []
        for nm, f in _C[prof]:
            if nm.startswith("jax"):
                f = jax.jit(f)
            out.append((nm, f))
        _C[prof] = out
    m = list(_C[prof])
    if prof == "linear":
        m = [("jax mag_limb", lambda u, r: _C["linear"][0][1](u, r, a1)), ("jax mag_limb1", J.mag_limb1(a1=a1).A)]
    return m


def ev(nm, f, u, rho):
    u = np.asarray(u, float)
    return np.array(call(f, u if nm.startswith("np") else jnp.array(u), rho))


PROF = ["disk", "limb1", "limb2", "linear"]
N_U = 12


def gen(small):
    def fn(rng):
        rho = float(10 ** rng.uniform(-6, -4.005)) if small else float(10 ** rng.uniform(-3.97, 1))
        if not small and rng.random() < .15:
            rho = float(rng.choice([1.1e-4, 1e-3, .01, .1, 1, 2, 10]))
        u = []
        for _ in range(N_U):
            k = rng.integers(7)
            v = (rho * rng.uniform(0, 3), rho * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -.5)), 10 ** rng.uniform(-5, 1.7),
                 rho * 10 ** rng.uniform(-2, 2), rng.choice([0.0, rho, 1.0]), rng.uniform(0, 2), rng.uniform(0, 60))[k]
            u.append(float(v * rng.choice([-1, 1])))
        return {"rho": rho, "u": u, "prof": str(rng.choice(PROF)), "a1": float(rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 1)]))}
    return custom(fn, ("u",))


def run(c, rec):
    rho, prof, a1 = c["rho"], c["prof"], c["a1"]
    small = rho < 1e-4
    u = np.array(pad(c["u"], N_U))
    want = np.array([ref(prof, x, rho, a1) if x != 0 else exact0(prof, rho, a1) for x in u])
    vals = {}
    for nm, f in models(prof, a1):
        if small and nm in ("jax mag_disk", "jax mag_limb"):
            continue                             # these two classes have no small-source branch
        v = ev(nm, f, u, rho)
        if v.shape != u.shape:
            raise Violation(f"{nm}: shape {v.shape} for {u.shape} impact parameters")
        vals[nm] = v
        e = np.abs(v / want - 1)
        x = np.abs(u) / rho
        edge = np.abs(x - 1) < (.05 if prof in ("disk", "linear") else .03)
        if small:
            tol = np.where(edge, .02, .01)
        else:
            tol = np.where(edge, .01, .003)
        tol = np.where(u == 0, 1e-9 + 2e-15 / rho ** 2 if not small else .01, tol)
        for i in range(len(c["u"])):
            rec.metric(f"{'small' if small else 'large'} {'edge' if edge[i] else 'off'}", e[i] if np.isfinite(e[i]) else 9, None)
        if not np.all(e <= tol):
            i = int(np.argmax(np.where(np.isfinite(e), e / tol, np.inf)))
            raise Violation(f"{nm}(u={u[i]:.8g}, rho={rho:.8g}, a1={a1}): {v[i]:.8g}, disc average {want[i]:.8g} "
                            f"(relative error {e[i]:.2g}, tolerance {tol[i]:.2g})")
        # even in u; each point independent of its neighbours and of the order
        if np.max(np.abs(ev(nm, f, -u, rho) / v - 1)) > 1e-12:
            raise Violation(f"{nm} is not even in u at rho={rho}")
        p = np.random.default_rng(len(c["u"]) + int(1e6 * rho)).permutation(N_U)
        if np.max(np.abs(ev(nm, f, u[p], rho) / v[p] - 1)) > 1e-12:
            raise Violation(f"{nm} depends on the order of the impact parameters at rho={rho}")
    if not small:
        k = list(vals)
        for a in k[1:]:
            d = np.max(np.abs(vals[a] / vals[k[0]] - 1))
            if d > 1e-9 + 2e-15 / rho ** 2:              # the closed form at u = 0 cancels for tiny sources
                raise Violation(f"{a} and {k[0]} differ by {d:.2g} at rho={rho}, u={u.tolist()}")
    for x in c["u"]:
        rec.point([prof, rho, x, a1], abs(x) < 20 * rho or abs(x) < 3, prof, "limb" if abs(abs(x) / rho - 1) < .05 else "inside" if abs(x) < rho else "outside")


def gen_lim():
    return record({"rho": loguni(1.1e-4, 10), "u": lists(uni(0, 3), 8), "a1": uni(0, 1)})


def run_lim(c, rec):
    """limits between profiles that hold exactly within one implementation."""
    u = np.array(pad(c["u"], 8))
    rho = c["rho"]
    d = ev("jax", dict(models("disk", 0))["jax disk"], u, rho)
    l0 = ev("jax", dict(models("linear", 0.0))["jax mag_limb"], u, rho)
    if np.max(np.abs(l0 / d - 1)) > 3e-5:
        raise Violation(f"zero limb darkening differs from the uniform disc by {np.max(np.abs(l0 / d - 1)):.2g} at rho={rho}")
    l1 = ev("jax", dict(models("limb1", 0))["jax limb1"], u, rho)
    lf = ev("jax", dict(models("linear", 1.0))["jax mag_limb"], u, rho)
    if np.max(np.abs(lf / l1 - 1)) > 3e-5:
        raise Violation(f"full limb darkening differs from the n=1 profile by {np.max(np.abs(lf / l1 - 1)):.2g} at rho={rho}")
    # linear in the flux weights
    a = c["a1"]
    la = ev("jax", dict(models("linear", a))["jax mag_limb"], u, rho)
    want = ((1 - a) * d + 2 / 3 * a * l1) / (1 - a / 3)
    if np.max(np.abs(la / want - 1)) > 3e-5:
        raise Violation(f"linear limb darkening a1={a} is not the flux-weighted mean of its components at rho={rho}")
    rec.point(c, 0 < a < 1, "rho<0.01" if rho < .01 else "rho>=0.01")


def fin(metrics):
    lim = {"large off": (1e-4, 6e-4), "large edge": (2.5e-3, 7e-3), "small off": (3e-4, 1.5e-3), "small edge": (4e-3, 9e-3)}
    for k, v in metrics.items():
        e = np.array([x for x, _ in v])
        if len(e) < 150:
            continue
        a, b = np.percentile(e, [50, 90])
        if a > lim[k][0] or b > lim[k][1]:
            raise Violation(f"typical error ({k}) is {a:.2g} (median) / {b:.2g} (90%), normally below {lim[k]}")


SUBS = [
    Sub("large", lambda: gen(False), run, 160, 6000, "impact parameter within 20 rho or 3 Einstein radii", shards=4, finalize=fin),
    Sub("small", lambda: gen(True), run, 80, 3000, "impact parameter within 20 rho or 3 Einstein radii", shards=2, finalize=fin),
    Sub("profile_limits", gen_lim, run_lim, 60, 3000, "0 < a1 < 1"),
]
ASSUMPTIONS = ["reference: flux-weighted quadrature of (u^2+2)/(u sqrt(u^2+4)) over the disc (72-node Gauss-Legendre with square-root end points)",
               "default FFT grid (N_fft=1024, 1e-6..1e3), the configuration whose precision the package states"]

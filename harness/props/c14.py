"""C14 special functions: differential against mpmath (arbitrary precision)."""
import numpy as np
from core import *

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
import mpmath as mp                                                   # noqa: E402
from microjax.fastlens import special as S                            # noqa: E402

mp.mp.dps = 40
EPS = 2.3e-16


def _mpc(z):
    return mp.mpc(float(z.real), float(z.imag))


def bad(name, x, got, want, tol):
    raise Violation(f"{name}({x}) = {got}, definition gives {want} (tolerance {tol:.2g})")


# --------------------------------------------------------------------- gamma
SHAPES = [(16,), (4, 4), (2, 2, 4), (1, 16)]


def gen_gamma():
    def fn(rng):
        z = []
        for _ in range(16):
            k = rng.integers(6)
            if k == 0:                                   # around the reflection line and the real axis
                re = rng.choice([0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.5, -0.5])
                im = rng.choice([1e-6, 1e-2, 1.0, 30.0, 99.0]) * rng.choice([-1, 1])
            elif k == 1:                                 # positive half integers, large real part
                re, im = rng.integers(1, 160) / 2.0, 0.0
            elif k == 2:
                re, im = rng.uniform(-100, 100), 0.0
                while re <= 0 and abs(re - round(re)) < 1e-3:
                    re = rng.uniform(-100, 100)
            elif k == 3:                                 # the strip used by FFTLog kernels
                re, im = rng.uniform(-2, 6), rng.uniform(-100, 100)
            else:
                re, im = rng.uniform(-100, 100), rng.uniform(-100, 100)
            if re <= 0 and im == 0 and re == round(re):
                im = 1e-3
            z.append([float(re), float(im)])
        return {"z": z, "shape": int(rng.integers(len(SHAPES)))}
    return custom(fn, ("z",))


GJ = jax.jit(lambda z, t: jax.jvp(S.gamma, (z,), (t,)))


def run_gamma(c, rec):
    z = cplx(pad(c["z"], 16))
    sh = SHAPES[c["shape"]]
    f = np.array(call(S.gamma, jnp.array(z.reshape(sh))))
    if f.shape != sh:
        raise Violation(f"gamma changes the shape {sh} -> {f.shape}")
    f = f.ravel()
    _, d = call(GJ, jnp.array(z), jnp.ones(16, complex))
    d = np.array(d)
    _, di = call(GJ, jnp.array(z), 1j * jnp.ones(16, complex))
    if np.any(np.abs(np.array(di) - 1j * d) > 1e-12 * np.abs(d)):
        raise Violation("gamma's derivative rule is not complex linear")
    for i in range(len(c["z"])):
        x = _mpc(z[i])
        t = mp.gamma(x)
        lt = float(mp.log(abs(t)) / mp.log(10))
        if not -290 < lt < 290:                          # outside double range / flushed to zero
            rec.point(["gamma", c["z"][i]], False, "outside double range")
            continue
        # distance to the nearest pole conditions the value
        n = min(0, round(z[i].real))
        cond = 1 + abs(z[i]) * (float(abs(mp.digamma(x))) + 1)
        tol = max(3e-12, 50 * EPS * cond)
        if not np.isfinite(f[i]) or float(abs(_mpc(f[i]) - t) / abs(t)) > tol:
            bad("gamma", c["z"][i], f[i], mp.nstr(t, 15), tol)
        dt = t * mp.digamma(x)
        cond2 = 1 + abs(z[i]) * float(abs(mp.polygamma(1, x)) + abs(mp.digamma(x))) / max(1e-3, float(abs(mp.digamma(x))))
        tol = max(1e-11, 100 * EPS * (cond + cond2))
        if not np.isfinite(d[i]) or float(abs(_mpc(d[i]) - dt) / abs(dt)) > tol:
            bad("d gamma/dz", c["z"][i], d[i], mp.nstr(dt, 15), tol)
        rec.point(["gamma", c["z"][i]], True, "reflected" if z[i].real <= 0 else "direct",
                  "near pole" if abs(z[i] - n) < .01 else "regular")


# ------------------------------------------------------------------ elliptic
def gen_ell():
    def fn(rng):
        m = []
        for _ in range(16):
            k = rng.integers(6)
            v = (rng.uniform(0, 1), 1 - 10 ** rng.uniform(-10, 0), 10 ** rng.uniform(-12, -0.01), -10 ** rng.uniform(-12, 0),
                 -10 ** rng.uniform(0, 7), rng.choice([0.0, 0.5, -1.0, -0.25, 1e-3, -1e-3, 9.99e-4, 1.001e-3]))[k]
            m.append(float(v))
        return {"m": m, "scalar": int(rng.random() < 0.06)}
    return custom(fn, ("m",))


ELL = {n: (jax.jit(jax.vmap(f)), jax.jit(jax.vmap(jax.grad(f))),
           jax.jit(jax.vmap(lambda x, f=f: jax.jvp(f, (x,), (1.0,)))), f)
       for n, f in (("ellipk", S.ellipk), ("ellipe", S.ellipe))}


def run_ell(c, rec):
    m = np.array(pad(c["m"], 16))
    for name, (fv, fg, fj, f) in ELL.items():
        v = np.array(call(fv, jnp.array(m)))
        g = np.array(call(fg, jnp.array(m)))
        pv, tv = call(fj, jnp.array(m))
        sc = float(call(f, float(m[0]))) if c.get("scalar", 1) else v[0]   # un-jitted scalar call is slow
        if abs(sc - v[0]) > 1e-13 * abs(v[0]):
            raise Violation(f"{name}({m[0]}) scalar {sc} != batched {v[0]}")
        for i, x in enumerate(c["m"]):
            M = mp.mpf(x)
            K, Em = mp.ellipk(M), mp.ellipe(M)
            if name == "ellipk":
                t, d = K, ((Em - (1 - M) * K) / (2 * M * (1 - M)) if x else mp.pi / 8)
            else:
                t, d = Em, ((Em - K) / (2 * M) if x else -mp.pi / 8)
            # 1-m is formed from |m|/(1+|m|) for negative m: rounding grows with |m|
            tol = 1e-13 + 20 * EPS * (abs(x) if x < 0 else 0)
            if not abs(v[i] - float(t)) <= tol * float(t):
                bad(name, x, v[i], mp.nstr(t, 16), tol)
            if abs(pv[i] - v[i]) > 1e-14 * abs(v[i]):
                raise Violation(f"{name} value changes under jvp at {x}")
            one_m = 1 - x if x >= 0 else 1 / (1 - x)
            told = 1e-11 + 100 * EPS / one_m ** (1.0 if name == "ellipk" else .5) * (1 if x >= 0 else 1 / max(1e-3, min(1, -x)))
            for w, q in (("reverse", g[i]), ("forward", tv[i])):
                if not abs(q - float(d)) <= told * abs(float(d)):
                    bad(f"d {name}/dm ({w})", x, q, mp.nstr(d, 16), told)
        for x in c["m"]:
            rec.point([name, x], x != 0, "m<0" if x < 0 else "m~1" if x > .99 else "0<m<1")


# -------------------------------------------------------------------- Bessel
FUN = {"j0": 0, "j1": 1, "j2": 2, "j1p5": mp.mpf(3) / 2}


def gen_bes():
    def fn(rng):
        x = []
        for _ in range(16):
            k = rng.integers(7)
            v = (rng.uniform(0, 10), 10 ** rng.uniform(-9, 0), 10 ** rng.uniform(0, 3.5), rng.uniform(4.99, 5.01),
                 5 + rng.choice([0, 1e-15, -1e-15, 1e-9, -1e-9]) * 5, rng.choice([0.0, 1e-5, 2.404825557695773, 3.831705970207512, 0.2]),
                 rng.uniform(0, 100))[k]
            x.append(float(v * rng.choice([-1, 1])))
        return {"x": x, "n": choice([1, 4, 16]).draw(rng)}
    return custom(fn, ("x",))


def run_bes(c, rec):
    X = np.array(pad(c["x"], 16))
    for name, order in FUN.items():
        f = getattr(S, name)
        x = np.abs(X) if name == "j1p5" else X
        v = np.array(call(f, jnp.array(x)))
        n = c["n"]
        part = np.array(call(f, jnp.array(x[:n])))
        if not np.allclose(part, v[:n], rtol=1e-13, atol=1e-15):
            raise Violation(f"{name}: a batch of {n} differs from the same points in a batch of 16")
        pv, d = call(jax.jvp, f, (jnp.array(x),), (jnp.ones(16),))
        d = np.array(d)
        _, vjp = call(jax.vjp, f, jnp.array(x))
        r = np.array(vjp(jnp.ones(16))[0])
        for i in range(len(c["x"])):
            t = mp.besselj(order, mp.mpf(x[i]))
            # second-order ODE avoids mpmath's numerical differentiation
            if x[i] == 0:
                dt = mp.mpf(1) / 2 if name == "j1" else mp.mpf(0)
            else:
                dt = mp.besselj(order - 1, mp.mpf(x[i])) - order * t / mp.mpf(x[i])
            a = abs(x[i])
            small = min(1.0, a ** (float(order) if order else 0)) if order else 1.0
            tol = (2e-14 + 4 * EPS * a) * min(1, a ** -.5 if a > 1 else 1)
            tol = tol * max(small, 1e-3 if name in ("j2", "j1p5") and a > .2 else 0) if order else tol
            tol = max(tol, 1e-300)
            if not abs(v[i] - float(t)) <= tol:
                bad(name, x[i], v[i], mp.nstr(t, 16), tol)
            told = 3e-14 + 8 * EPS * a
            for w, q in (("forward", d[i]), ("reverse", r[i])):
                if not abs(q - float(dt)) <= told:
                    bad(f"{name}' ({w})", x[i], q, mp.nstr(dt, 16), told)
            rec.point([name, x[i]], x[i] != 0, "|x|<5" if a < 5 else "|x|>=5", "tiny" if a < 1e-3 else "")


SUBS = [
    Sub("gamma", gen_gamma, run_gamma, 600, 60000, "finite result in double range; distinct argument"),
    Sub("elliptic", gen_ell, run_ell, 500, 60000, "m != 0; both integrals, value and forward/reverse derivative"),
    Sub("bessel", gen_bes, run_bes, 500, 60000, "x != 0; four functions, value and forward/reverse derivative"),
]
ASSUMPTIONS = ["mpmath at 40 digits is the definition", "tolerances scale with the conditioning of the argument (rounding of x itself)",
               "XLA flushes subnormals: arguments whose value leaves 1e+-290 are not compared"]

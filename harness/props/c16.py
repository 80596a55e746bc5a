"""C16 parallax: independent Kepler/projection model, geometric invariants,
metamorphic relations and the astropy ephemeris of the real Earth."""
import numpy as np
from core import *

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.trajectory import parallax as PX                        # noqa: E402

D2R = np.pi / 180


# ------------------------------------------------------------------ reference
def kepler(M, e):
    """eccentric anomaly by bisection + Newton polish, any M."""
    M = np.asarray(M, float)
    k = np.round(M / (2 * np.pi))
    m = M - 2 * np.pi * k
    lo, hi = m - e - 1e-9, m + e + 1e-9
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        up = mid - e * np.sin(mid) < m
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    E = 0.5 * (lo + hi)
    for _ in range(3):
        E = E - (E - e * np.sin(E) - m) / (1 - e * np.cos(E))
    return E + 2 * np.pi * k


def true_anomaly(E, e):
    return np.arctan2(np.sqrt(1 - e * e) * np.sin(E), np.cos(E) - e)


def ref_basis(RA, Dec):
    a, d = RA * D2R, Dec * D2R
    los = np.array([np.cos(a) * np.cos(d), np.sin(a) * np.cos(d), np.sin(d)])
    east = np.array([-np.sin(a), np.cos(a), 0.0])
    north = np.array([-np.cos(a) * np.sin(d), -np.sin(a) * np.sin(d), np.cos(d)])
    return los, north, east


def ref_q(t, tperi, tvernal, P, e, obl, RA, Dec):
    """[north, east] projection of the orbit whose position at tvernal is the x axis."""
    t = np.atleast_1d(np.asarray(t, float))
    f = true_anomaly(kepler(2 * np.pi * (t - tperi) / P, e), e)
    E = kepler(2 * np.pi * (t - tperi) / P, e)
    r = 1 - e * np.cos(E)
    f0 = true_anomaly(kepler(2 * np.pi * (tvernal - tperi) / P, e), e)
    lam = f - f0                                    # ecliptic longitude
    ob = obl * D2R
    v = np.array([r * np.cos(lam), r * np.sin(lam) * np.cos(ob), r * np.sin(lam) * np.sin(ob)])
    _, n, ea = ref_basis(RA, Dec)
    return np.array([n @ v, ea @ v])


def near(got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    d = np.abs(got - want)
    if not np.all(d <= tol):
        i = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.shape else ()
        raise Violation(f"{what}: got {got[i]!r}, expected {want[i]!r} (|diff| {d[i]:.3g} > {tol:.2g})")


# -------------------------------------------------------------------- kepler
def s_kepler():
    return record({"e": mix(uni(0, 0.9), [0.0, 0.0167, 0.9]),
                                  "phi": lists(mix(uni(-50, 50), [0.0, np.pi, -np.pi, 2 * np.pi, 1e-9, 6.283, 100.0, 3.0, -3.3]), 16)})


def r_kepler(c, rec):
    phi = np.array(pad(c["phi"], 16))
    E = np.asarray(call(PX.getpsi, jnp.array(phi), c["e"]))
    near(E, kepler(phi, c["e"]), 2e-9, f"getpsi(e={c['e']}) vs reference")
    near(E - c["e"] * np.sin(E), phi, 1e-10, f"Kepler's equation residual at e={c['e']}")
    s = call(PX.getpsi, float(phi[0]), c["e"])
    near(s, E[0], 1e-10, "getpsi scalar vs array")
    for p in phi[:len(c["phi"])]:
        rec.point(["kepler", c["e"], p], c["e"] > 0.05, "e>0.6" if c["e"] > .6 else "e<=0.6")


# --------------------------------------------------------------------- basis
def s_basis():
    return record({"obl": mix(uni(0, 90), [0.0, 23.44]), "off": mix(uni(-7, 7), [0.0]),
                                  "RA": mix(uni(-180, 540), [0.0, 90.0, 180.0, 270.0, 266.4168]),
                                  "Dec": mix(uni(-89.5, 89.5), [0.0, -29.0078])})


def r_basis(c, rec):
    R, n, e = (np.asarray(x) for x in call(PX.prepare_projection_basis, c["obl"], c["off"], c["RA"], c["Dec"]))
    los, n0, e0 = ref_basis(c["RA"], c["Dec"])
    near(R @ R.T, np.eye(3), 1e-12, "R R^T")
    near(np.linalg.det(R), np.array(1.0), 1e-12, "det R")
    near(n, n0, 1e-10, "north")
    near(e, e0, 1e-10, "east")
    o = c["obl"] * D2R
    near(R @ np.array([0, 0, 1.0]), np.array([0, -np.sin(o), np.cos(o)]), 1e-12, "image of the orbit pole")
    near(R @ np.array([np.cos(c["off"]), np.sin(c["off"]), 0]), np.array([1.0, 0, 0]), 1e-12, "vernal direction")
    rec.point(["basis", c], c["obl"] > 0 and c["off"] != 0 and c["Dec"] != 0)


# -------------------------------------------------------------------- offsets
def s_off():
    return record({
        "tref": uni(1600, 9000), "tperi": uni(-400, 400), "tv": uni(-400, 400), "P": mix(uni(20, 1000), [365.25636]),
        "e": mix(uni(0, 0.8), [0.0, 0.0167]), "obl": mix(uni(0, 60), [23.44]), "RA": uni(0, 360), "Dec": mix(uni(-85, 85), [0.0]),
        "N": mix(uni(-2, 2), [0.0, 0.1]), "E": mix(uni(-2, 2), [0.0, 0.1]), "dt": mix(loguni(0.01, 1), [0.1]),
        "t": lists(mix(uni(-1500, 1500), [0.0]), 8)})


def r_off(c, rec):
    t = c["tref"] + np.array(pad(c["t"], 8))
    tperi, tv = c["tref"] + c["tperi"], c["tref"] + c["tv"]
    kw = dict(rotaxis_deg=c["obl"], ecc=c["e"], period=c["P"], dt=c["dt"])
    par = call(PX.set_parallax, c["tref"], tperi, tv, c["RA"], c["Dec"], **kw)
    ref = lambda x: ref_q(x, tperi, tv, c["P"], c["e"], c["obl"], c["RA"], c["Dec"])
    q0 = ref(c["tref"])[:, 0]
    v0 = (ref(c["tref"] + c["dt"]) - ref(c["tref"] - c["dt"]))[:, 0] / (2 * c["dt"])
    dq = ref(t) - q0[:, None] - v0[:, None] * (t - c["tref"])[None, :]
    N, E = c["N"], c["E"]
    tol = 2e-8 * (1 + np.abs(t - c["tref"]).max() / c["dt"] * 1e-2)
    dtn, dum = (np.asarray(x) for x in call(PX.compute_parallax, jnp.array(t), N, E, par))
    near(dtn, N * dq[0] + E * dq[1], tol * (1 + abs(N) + abs(E)), "dtn")
    near(dum, N * dq[1] - E * dq[0], tol * (1 + abs(N) + abs(E)), "dum")
    # zero value and zero slope at tref, whatever piE (true derivative, hence O(dt^2))
    z, zu = (np.asarray(x) for x in call(PX.compute_parallax, jnp.array([c["tref"]]), N, E, par))
    near(z, np.zeros(1), 1e-9, "dtn(tref)")
    near(zu, np.zeros(1), 1e-9, "dum(tref)")
    # linear in piE
    a = [np.asarray(x) for x in call(PX.compute_parallax, jnp.array(t), 1.0, 0.0, par)]
    b = [np.asarray(x) for x in call(PX.compute_parallax, jnp.array(t), 0.0, 1.0, par)]
    for k, nm, g in ((0, "dtn", dtn), (1, "dum", dum)):
        near(g, N * a[k] + E * b[k], tol * (1 + abs(N) + abs(E)), nm + " linearity")
    near(a[0], -b[1], tol, "rotation rule")
    near(a[1], b[0], tol, "rotation rule")
    # periodic orbit, scalar input
    args = (par[6], par[7], par[8], par[2], par[3], par[4])
    q1 = np.asarray(call(PX.project_earth_position, jnp.array(t), *args))
    q2 = np.asarray(call(PX.project_earth_position, jnp.array(t + 3 * c["P"]), *args))
    near(q1, ref(t), 1e-8, "projected position")
    near(q2, q1, 1e-8, "periodicity")
    s = np.asarray(call(PX.project_earth_position, float(t[0]), *args))
    near(s, q1[:, :1], 1e-10, "scalar time")
    for x in c["t"]:
        rec.point(["off", dict(c, t=x)], x != 0 and (N != 0 or E != 0), "e>0.3" if c["e"] > .3 else "e<=0.3")


# --------------------------------------------------------- epochs + ephemeris
def s_eph():
    return record({"tref": uni(1600, 9000), "jd": choice([False, True]), "RA": uni(0, 360), "Dec": uni(-80, 80),
                                  "zero": choice(["both", "peri", "vernal"]),
                                  "t": lists(uni(-700, 700), 8)})


def eph(t):
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    T = Time(np.asarray(t) + 2450000.0, format="jd", scale="tdb")
    f = lambda b: get_body_barycentric(b, T, ephemeris="builtin").xyz.to_value("AU")
    return f("sun") - f("earth")


def ref_perihelion(tref):
    """time of the smallest Earth-Sun distance nearest to tref."""
    t = tref + np.arange(-220, 221, 1.0)
    r = np.linalg.norm(eph(t), axis=0)
    k = np.where((r[1:-1] < r[:-2]) & (r[1:-1] < r[2:]))[0] + 1
    return t[k]


def r_eph(c, rec):
    tin = c["tref"] + (2450000.0 if c["jd"] else 0.0)
    tp, tv = (float(x) for x in call(PX.peri_vernal, tin))
    r = np.linalg.norm(eph(np.array([tp, tp - 20, tp + 20])), axis=0)
    if not (r[0] < r[1] and r[0] < r[2] and abs(r[0] - 0.98330) < 2e-4):
        raise Violation(f"peri_vernal({tin}): {tp} is not a perihelion (distances {r})")
    sv = eph(np.array([tv]))[:, 0]
    lon = np.arctan2(sv[1], sv[0])
    if not (abs(lon) < 0.01 and sv[0] > 0):
        raise Violation(f"peri_vernal({tin}): {tv} is not a vernal equinox (solar right ascension {lon:.3f} rad)")
    if 1546.7 < c["tref"] < 8853.8 and abs(tp - c["tref"]) > 186:
        raise Violation(f"peri_vernal({tin}): perihelion {tp} is not the closest one")
    a = {"both": (0.0, 0.0), "peri": (0.0, tv), "vernal": (tp, 0.0)}[c["zero"]]
    par = call(PX.set_parallax, c["tref"], a[0], a[1], c["RA"], c["Dec"])
    t = c["tref"] + np.array(pad(c["t"], 8))
    q = np.asarray(call(PX.project_earth_position, jnp.array(t), par[6], par[7], par[8], par[2], par[3], par[4]))
    _, n, e = ref_basis(c["RA"], c["Dec"])
    d = eph(t)
    near(q, np.array([n @ d, e @ d]), 0.015, "projected Sun-Earth separation vs ephemeris [AU]")
    # observable offsets: the sky-plane acceleration signal within +-60 days
    tt = c["tref"] + np.linspace(-60, 60, 8)
    dtn, dum = (np.asarray(x) for x in call(PX.compute_parallax, jnp.array(tt), 1.0, 0.0, par))
    h = 0.5
    D = lambda x: (lambda d: np.array([n @ d, e @ d]))(eph(x))
    v = (D(np.array([c["tref"] + h])) - D(np.array([c["tref"] - h]))) / (2 * h)
    w = D(tt) - D(np.array([c["tref"]])) - v * (tt - c["tref"])
    near(dtn, w[0], 0.03, "dtn vs ephemeris")
    near(dum, w[1], 0.03, "dum vs ephemeris")
    for x in c["t"]:
        rec.point(["eph", dict(c, t=x)], True, "JD" if c["jd"] else "JD-2450000", "auto " + c["zero"])


SUBS = [
    Sub("offsets", s_off, r_off, 160, 3000, "random orbit, direction and times vs independent Kepler projection; non-trivial: t != tref and piE != 0", shards=4),
    Sub("ephemeris", s_eph, r_eph, 50, 800, "real Earth vs astropy built-in ephemeris, automatic epochs; every case non-trivial", shards=2),
    Sub("kepler", s_kepler, r_kepler, 150, 2500, "mean anomalies x eccentricity; non-trivial: e > 0.05"),
    Sub("basis", s_basis, r_basis, 150, 2500, "directions and obliquities; non-trivial: tilted orbit, Dec != 0"),
]

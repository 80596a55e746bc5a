"""C01 point-source images: the flagged set against an independent solver, count and parity
rules, batching, initial guesses and the sequential tracker."""
import numpy as np
from core import *
import gen
import refs

bootstrap()
import jax.numpy as jnp                                               # noqa: E402
from microjax.point_source import _images_point_source, _images_point_source_sequential   # noqa: E402

ASSUMPTIONS = ["generic positions: no pair of roots within the mask threshold of becoming (or ceasing to be) a pair of images",
               "images whose position is uncertain by more than the mask threshold in double precision (reference condition "
               "number of the lens polynomial x 3e4) may be missing: very faint images next to a low-mass lens"]
NP = 16


def draw(n):
    def fn(rng):
        p = gen.lens(rng, n)
        w = gen.sources(rng, n, p, NP)
        return {"n": n, "p": p, "w": pairs(w), "perm": int(rng.integers(2 ** 31))}
    return fn


def strat():
    f = {n: draw(n) for n in (1, 2, 3)}
    return custom(lambda rng: f[int(rng.choice([1, 2, 2, 2, 3, 3, 3]))](rng))


def compare(n, w, m, zl, z, mask, what):
    """flagged images against the reference; returns (label, report)."""
    rep = refs.Report(w, m, zl)
    if not rep.generic:
        return "close to a caustic", rep
    got = z[mask]
    finite(got, f"{what}: images of w={w}")
    if len(got) == 0:
        raise Violation(f"{what}: no image flagged at w={w}, {len(rep.z)} exist")
    d = np.abs(got[:, None] - rep.z[None, :])
    tol = np.where(rep.amp < 0.1, rep.dz, np.maximum(rep.dz, 1e-3))
    # every flagged root is a true image, each of them a different one
    owner = np.argmin(d, axis=1)
    off = d[np.arange(len(got)), owner] - tol[owner]
    if np.any(off > 0):
        i = int(np.argmax(off))
        raise Violation(f"{what}: flagged root {got[i]} is no image of w={w} (nearest image at {d[i].min():.2e}; {len(got)} flagged, {len(rep.z)} exist)")
    own = owner[rep.ok[owner]].tolist()
    if len(set(own)) != len(own):
        raise Violation(f"{what}: the same image is flagged twice at w={w}: {got}")
    # every well-conditioned image is flagged
    miss = rep.ok & (d.min(axis=0) > tol)
    if miss.any():
        i = int(np.argmax(np.where(miss, rep.mu, 0)))
        raise Violation(f"{what}: image {rep.z[i]} (magnification {rep.mu[i]:.3g}) of w={w} is not flagged; {len(got)} flagged, {len(rep.z)} exist")
    if rep.complete:
        if len(got) != len(rep.z):
            raise Violation(f"{what}: {len(got)} images flagged at w={w}, {len(rep.z)} exist")
        par = int(np.sum(np.sign(refs.det_jac(got, m, zl))))
        if par != 1 - n:
            raise Violation(f"{what}: parities sum to {par} instead of {1 - n} at w={w}")
        return f"n{n}:{len(got)}", rep
    return "ill-conditioned image", rep


def run(case, rec):
    n, p = case["n"], case["p"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(pad(case["w"], NP)) - xcm
    low = refs.params_mid(n, **p)
    z, mask = call(_images_point_source, jnp.array(w), nlenses=n, **low)
    z, mask = np.asarray(z), np.asarray(mask)
    nimg = {1: 2, 2: 5, 3: 10}[n]
    if z.shape != (nimg, NP) or mask.shape != z.shape:
        raise Violation(f"images have shape {z.shape}, mask {mask.shape} for {NP} positions")
    for j in range(len(case["w"])):
        lab, rep = compare(n, w[j], m, zl, z[:, j], mask[:, j], f"{n} lenses {p}")
        rec.point([n, p, case["w"][j]], lab[0] == "n", lab)
        if lab[0] == "n" and n > 1:
            got = z[mask[:, j], j]
            rec.metric(f"err/n{n}", np.abs(got[:, None] - rep.z[None]).min(axis=0).max())
    # batching: permuted positions, other shapes
    perm = np.random.default_rng(case["perm"]).permutation(NP)
    z2, m2 = call(_images_point_source, jnp.array(w[perm].reshape(4, 4)), nlenses=n, **low)
    z2, m2 = np.asarray(z2), np.asarray(m2)
    if z2.shape != (nimg, 4, 4):
        raise Violation(f"images of a (4,4) array have shape {z2.shape}")
    z2, m2 = z2.reshape(nimg, NP), m2.reshape(nimg, NP)
    for k, j in enumerate(perm):
        if not np.array_equal(np.sort(m2[:, k]), np.sort(mask[:, j])) or \
                match(z2[m2[:, k], k], z[mask[:, j], j]) > 1e-7:
            rep = refs.Report(w[j], m, zl)
            if rep.generic and rep.complete:
                raise Violation(f"{n} lenses {p}: images of w={w[j]} depend on the batch: {z2[m2[:, k], k]} vs {z[mask[:, j], j]}")


def match(a, b):
    if len(a) != len(b):
        return np.inf
    b = list(b)
    d = 0.0
    for x in a:
        k = int(np.argmin([abs(x - y) for y in b]))
        d = max(d, abs(x - b[k]))
        b.pop(k)
    return d


# ----------------------------------------------------------- initial guesses
def draw_init(rng):
    p = gen.binary(rng)
    w = gen.sources(rng, 2, p, NP)
    mode = ["random", "images of another source", "near"][int(rng.integers(3))]
    seed = int(rng.integers(2 ** 31))
    return {"n": 2, "p": p, "w": pairs(w), "mode": mode, "seed": seed}


def run_init(case, rec):
    p = case["p"]
    m, zl, xcm = refs.system(2, **p)
    w = cplx(pad(case["w"], NP)) - xcm
    low = refs.params_mid(2, **p)
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "random":
        z0 = 2 * (rng.normal(size=(NP, 5)) + 1j * rng.normal(size=(NP, 5)))
    else:
        w0 = w + (0.02 if case["mode"] == "near" else 0.5) * (rng.normal(size=NP) + 1j * rng.normal(size=NP))
        z0 = np.asarray(call(_images_point_source, jnp.array(w0), nlenses=2, **low)[0]).T.copy()
        z0 += 1e-9 * (rng.normal(size=z0.shape) + 1j * rng.normal(size=z0.shape))
    z, mask = call(_images_point_source, jnp.array(w), nlenses=2, custom_init=True, z_init=jnp.array(z0), **low)
    z, mask = np.asarray(z), np.asarray(mask)
    for j in range(len(case["w"])):
        lab, _ = compare(2, w[j], m, zl, z[:, j], mask[:, j], f"binary {p}, initial guesses ({case['mode']})")
        rec.point([p, case["w"][j], case["mode"], case["seed"]], lab[0] == "n", case["mode"], lab)


# ----------------------------------------------------------------- tracker
NT = 40


def draw_seq(rng):
    n = int(rng.choice([1, 2, 2, 2, 3]))
    p = gen.lens(rng, n)
    kind = ["line", "walk", "jump", "return"][int(rng.integers(4))]
    a = gen.sources(rng, n, p, NT, dmax=-1.5, box=1.0)
    if kind == "line" and rng.random() < 0.3:
        w = np.linspace(-rng.uniform(0.2, 2), rng.uniform(0.2, 2), NT) + 0j    # along the lens axis
    elif kind == "line":
        w = np.linspace(a[0], a[0] + 2 * np.exp(2j * np.pi * rng.random()), NT) - 1
    elif kind == "walk":
        w = a[0] + np.cumsum(10 ** rng.uniform(-3, -1) * (rng.normal(size=NT) + 1j * rng.normal(size=NT)))
    elif kind == "return":
        h = np.linspace(a[0], a[1], NT // 2)
        w = np.concatenate([h, h[::-1]])
    else:
        w = a
    return {"n": n, "p": p, "w": pairs(w), "kind": kind}


def run_seq(case, rec):
    n, p = case["n"], case["p"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(pad(case["w"], NT)) - xcm
    z, mask = call(_images_point_source_sequential, jnp.array(w), nlenses=n, **refs.params_mid(n, **p))
    z, mask = np.asarray(z), np.asarray(mask)
    if z.shape != ({1: 2, 2: 5, 3: 10}[n], NT) or mask.shape != z.shape:
        raise Violation(f"sequential images have shape {z.shape}, mask {mask.shape}")
    counts = set()
    for j in range(len(case["w"])):
        lab, _ = compare(n, w[j], m, zl, z[:, j], mask[:, j], f"tracker step {j}, {n} lenses {p}")
        counts.add(lab)
        rec.point([n, p, case["w"][j], case["kind"], j], lab[0] == "n", lab)
    rec.label(f"{case['kind']} trajectory")
    rec.label("trajectory crossing a caustic", len([c for c in counts if c[0] == "n"]) > 1)


# ------------------------------------------------------- single lens closed form
def draw_one(rng):
    r = 10 ** rng.uniform(-6, 3, NP)
    return {"w": pairs(r * np.exp(2j * np.pi * rng.choice([rng.random(), 0.0, 0.25, 0.5], NP)))}


def run_one(case, rec):
    w = cplx(pad(case["w"], NP))
    z, mask = call(_images_point_source, jnp.array(w), nlenses=1)
    z, mask = np.asarray(z), np.asarray(mask)
    u = np.abs(w)
    for j in range(len(case["w"])):
        e = w[j] / u[j]
        want = np.array([0.5 * (u[j] + np.sqrt(u[j] ** 2 + 4)) * e, -2 / (u[j] + np.sqrt(u[j] ** 2 + 4)) * e])
        if not mask[:, j].all() or match(z[:, j], want) > 1e-12 * (1 + u[j]):
            raise Violation(f"single lens w={w[j]}: images {z[:, j]} flags {mask[:, j]}, expected {want}")
        rec.point(case["w"][j], True)


SUBS = [
    Sub("images", strat, run, 700, 20000, "well-conditioned generic source position, all images compared", shards=4),
    Sub("tracker", lambda: custom(draw_seq), run_seq, 160, 4000, "generic trajectory step", shards=3,
        examples=[{"kind": "line", "n": 2, "p": {"q": 0.41335979275340523, "s": 1.8931076419150235},
                   "w": [[-0.5000969526836818, 0.0], [0.29560322779917936, 0.0], [0.7637602532838755, -1.0377435019373566]]},
                  {"kind": "line", "n": 2, "p": {"q": 1.0, "s": 1.0}, "w": pairs(np.linspace(-1.5, 1.5, NT) + 1e-3)},
                  {"kind": "line", "n": 2, "p": {"q": 0.5, "s": 1.6}, "w": pairs(np.linspace(-1.5, 1.5, NT) + 1e-3)},
                  {"kind": "line", "n": 2, "p": {"q": 0.01, "s": 0.8}, "w": pairs(np.linspace(-1.5, 1.5, NT) + 1e-3)}]),
    Sub("initial", lambda: custom(draw_init), run_init, 160, 5000, "generic position, custom initial guesses"),
    Sub("single", lambda: custom(draw_one), run_one, 60, 2000, "every position"),
]


# ------------------------------------------ known findings (outside the searched domain)
def run_complete(case, rec):
    """every image flagged, whatever the conditioning of the lens polynomial"""
    n, p = case["n"], case["p"]
    m, zl, xcm = refs.system(n, **p)
    w = cplx(case["w"])[0] - xcm
    z, mask = call(_images_point_source, jnp.array([w]), nlenses=n, **refs.params_mid(n, **p))
    z, mask = np.asarray(z)[:, 0], np.asarray(mask)[:, 0]
    rep = refs.Report(w, m, zl)
    got = z[mask]
    if len(got) != len(rep.z):
        i = int(np.argmax(np.abs(got[:, None] - rep.z[None]).min(axis=0)))
        raise Violation(f"{len(got)} images flagged, {len(rep.z)} exist; {rep.z[i]} of magnification {rep.mu[i]:.3g} is missing")
    rec.point(case["w"], True)


KNOWN_SUBS = [Sub("complete", lambda: custom(lambda rng: {}), run_complete, 0, 0, "pinned cases only")]

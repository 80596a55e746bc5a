"""C09 triple inverse-ray magnification: against VBMicrolensing with an independent area computation as arbiter,
resolution escalation, and coverage of the limb images by the polar regions."""
import numpy as np
from core import *
import finite
import gen
import refs
from props import c08

bootstrap()

ASSUMPTIONS = ["rho >= 0.01, mass ratios >= 3e-3 (the point-source images of lower masses are ill conditioned in double precision)",
               "sources within 10 rho of the position whose image falls on the origin of the polar grid are left out where that image is "
               "magnified more than three times (known finding of the binary solver, same code)",
               "a deviation above the tolerance at resolution 300 counts as a violation only if it persists at resolution 1200 with finer bins "
               "and limb sampling, and if an independent subdivision of the image plane confirms the reference"]
NP = 8


def draw(ld):
    def fn(rng):
        p = gen.triple(rng, qmin=3e-3, q3min=3e-3, r3max=2.0, smin=0.5, smax=2.2)
        rho = float(10 ** rng.uniform(-2, -0.4))
        cau = refs.caustic_points(3, 100, **p)[0]
        cau = cau[np.abs(cau) < 3]
        if len(cau) == 0:
            cau = np.array([0j])
        w = []
        while len(w) < NP:
            if rng.random() < 0.7:
                x = cau[rng.integers(len(cau))] + rho * rng.uniform(0, 3) * np.exp(2j * np.pi * rng.random())
            else:
                x = complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5))
            if rng.random() < 0.05:
                x = complex(x.real, 0.0)
            if not finite.origin_fold(3, x, rho, p):
                w.append(complex(x))
            elif rng.random() < 0.1:
                rho, w = max(0.01, 0.7 * rho), []
        u1 = 0.0 if not ld else float(rng.choice([0.5, 0.5, rng.uniform(0.05, 1), 1.0]))
        return {"p": p, "rho": rho, "u1": u1, "how": str(rng.choice(["adaptive", "direct"])) if u1 in (0.0, 0.5) else "direct", "w": pairs(w)}
    return fn


def run(case, rec):
    c08.run(case, rec, n=3, res=300, tols={0: 0.015, 1: 0.02})


def run_regions(case, rec):
    c08.run_regions(case, rec, n=3)


def ex(s, q, q3, r3, psi, rho, w, u1=0.0, how="direct"):
    return {"p": {"s": s, "q": q, "q3": q3, "r3": r3, "psi": psi}, "rho": rho, "u1": u1, "how": how, "w": pairs(np.atleast_1d(w))}


PINNED = [ex(1.1, 0.1, 0.03, 1.0, np.pi / 2, 0.05, [0.1 + 0.05j, 0.3 - 0.1j, 0j]), ex(1.0, 1.0, 1.0, np.sqrt(3) / 2, np.pi / 2, 0.1, [0.1 + 0.2j, 0j]),
          ex(1.2, 0.5, 0.3, 0.7, -2.0, 0.1, [0.1 + 0.2j, -.4 + 0.1j], how="adaptive"), ex(0.8, 0.3, 0.01, 1.3, 0.4, 0.02, [0.05 + 0.02j, 0.4 + 0.3j])]
PINNED_LD = [dict(c, u1=0.5) for c in PINNED] + [dict(PINNED[0], u1=1.0)]

SUBS = [
    Sub("uniform", lambda: custom(draw(False)), run, 72, 3000, "magnification differs from 1 by more than 1e-3", shards=4, tshards=8,
        examples=PINNED, finalize=c08.fin("uniform", {50: 8e-4, 90: 4e-3, 99: 1.2e-2})),
    Sub("limbdark", lambda: custom(draw(True)), run, 52, 2000, "magnification differs from 1 by more than 1e-3", shards=4, tshards=8,
        examples=PINNED_LD, finalize=c08.fin("ld", {50: 1.5e-3, 90: 8e-3, 99: 2.5e-2})),
    Sub("regions", lambda: custom(draw(False)), run_regions, 100, 4000, "every position", examples=PINNED, finalize=c08.fin_regions),
]

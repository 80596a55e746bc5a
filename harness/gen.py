"""Shared generators of lens systems and source positions (public, centre-of-mass frame)."""
import numpy as np
import refs

NICE_S = [0.5, 0.8, 1.0, 1.2, 2.0]
NICE_Q = [1.0, 0.1, 0.01, 1e-3, 0.5]


def binary(rng, smin=0.3, smax=3.0, qmin=1e-6, qmax=3.0, planet=0.4):
    """{'s','q'}; close, resonant, wide, planetary."""
    if rng.random() < 0.12:
        s, q = rng.choice(NICE_S), rng.choice(NICE_Q)
    else:
        t = rng.random()
        if t < 0.4:
            s = 10 ** rng.uniform(np.log10(0.7), np.log10(1.6))
        else:
            s = 10 ** rng.uniform(np.log10(smin), np.log10(smax))
        lo, hi = np.log10(max(qmin, 1e-6)), np.log10(qmax)
        q = 10 ** (rng.uniform(lo, max(lo, -2)) if rng.random() < planet else rng.uniform(max(lo, -2), hi))
    s, q = min(max(float(s), smin), smax), min(max(float(q), qmin), qmax)
    return {"s": s, "q": q}


def triple(rng, qmin=1e-4, q3min=1e-4, r3max=2.5, smin=0.4, smax=2.5):
    """{'s','q','q3','r3','psi'} with the third lens not on top of another one."""
    while True:
        p = binary(rng, smin, smax, qmin, 2.0, planet=0.35)
        q3 = float(10 ** rng.uniform(np.log10(q3min), 0.0))
        r3 = float(rng.choice([0.5, 1.0])) if rng.random() < 0.1 else float(rng.uniform(0.1, r3max))
        psi = float(rng.choice([0.0, np.pi / 2, np.pi, -np.pi / 2])) if rng.random() < 0.1 else float(rng.uniform(-np.pi, np.pi))
        z3 = r3 * np.exp(1j * psi)
        if min(abs(z3 - p["s"] / 2), abs(z3 + p["s"] / 2)) > 0.15:
            return dict(p, q3=q3, r3=r3, psi=psi)


def lens(rng, n):
    return {} if n == 1 else binary(rng) if n == 2 else triple(rng)


def sources(rng, n, p, k, near=0.45, dmin=-4.0, dmax=-0.5, box=1.5):
    """k complex source positions: around caustics, on the axis, near the lens centre, in a box, far."""
    cau = None
    out = []
    while len(out) < k:
        t = rng.random()
        if t < near and n > 1:
            if cau is None:
                cau = refs.caustic_points(n, 64, **p)[0]
                cau = cau[np.abs(cau) < 6]
                if len(cau) == 0:
                    cau = np.array([0j])
            w = cau[rng.integers(len(cau))] + 10 ** rng.uniform(dmin, dmax) * np.exp(2j * np.pi * rng.random())
        elif t < near + 0.1:
            w = rng.uniform(-box, box) + 0j                # on the lens axis
        elif t < near + 0.15:
            w = 1j * rng.uniform(-box, box)
        elif t < near + 0.25:
            w = 10 ** rng.uniform(-3, 0) * np.exp(2j * np.pi * rng.random())
        elif t < near + 0.32:
            w = 10 ** rng.uniform(0, 1.5) * np.exp(2j * np.pi * rng.random())
        else:
            w = complex(rng.uniform(-box, box), rng.uniform(-box, box))
        w = complex(w)
        if abs(w) > 1e-6:
            out.append(w)
    return np.array(out)


KEYS = {1: [], 2: ["s", "q"], 3: ["s", "q", "q3", "r3", "psi"]}


def theta(n, p, w):
    return np.array([w.real, w.imag] + [p[k] for k in KEYS[n]])

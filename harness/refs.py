"""Independent oracles (NumPy only; nothing here imports the code under test).

Lens systems are described by (masses, positions) in the mid-point frame.
"""
import numpy as np


# ------------------------------------------------------------- lens systems
def system(n, s=None, q=None, q3=None, r3=None, psi=None):
    """masses, positions (mid-point frame) and x_cm offset of the public frame."""
    if n == 1:
        return np.array([1.0]), np.array([0j]), 0.0
    a = 0.5 * s
    xcm = a * (1 - q) / (1 + q)
    if n == 2:
        return np.array([q, 1.0]) / (1 + q), np.array([a + 0j, -a + 0j]), xcm
    M = 1 + q + q3
    return np.array([q, 1.0, q3]) / M, np.array([a + 0j, -a + 0j, r3 * np.exp(1j * psi)]), xcm


def params_mid(n, **p):
    """keyword arguments of the low-level functions of the package."""
    if n == 1:
        return {}
    if n == 2:
        return dict(a=0.5 * p["s"], e1=p["q"] / (1 + p["q"]))
    M = 1 + p["q"] + p["q3"]
    return dict(a=0.5 * p["s"], e1=p["q"] / M, e2=1 / M, r3=p["r3"], psi=p["psi"])


def lens_map(z, m, zl):
    z = np.asarray(z, complex)
    out = z.copy()
    for mi, zi in zip(m, zl):
        out = out - mi / np.conj(z - zi)
    return out


def gamma_shear(z, m, zl):
    """d zeta / d zbar (conjugated): sum m/(z-zl)^2."""
    z = np.asarray(z, complex)
    return sum(mi / (z - zi) ** 2 for mi, zi in zip(m, zl))


def det_jac(z, m, zl):
    return 1 - np.abs(gamma_shear(z, m, zl)) ** 2


# ------------------------------------------------ independent image solver
def images(w, m, zl):
    """All images of one source position: resultant polynomial built with numpy
    in exact order-independent form, roots polished by Newton on the lens map."""
    n = len(m)
    w = complex(w)
    c = zl.mean()
    zz = zl - c
    ww = w - c
    P = np.poly1d
    den = P([1.0])
    for zi in zz:
        den = den * P([1.0, -zi])
    num = P([0.0])
    for i in range(n):
        t = P([m[i]])
        for j in range(n):
            if j != i:
                t = t * P([1.0, -zz[j]])
        num = num + t
    # zbar = conj(w) + num/den ; zbar - conj(zi) = (conj(w-zi)*den + num)/den =: B_i/den
    B = [den * complex(np.conj(ww - zi)) + num for zi in zz]
    prodB = P([1.0])
    for b in B:
        prodB = prodB * b
    acc = P([1.0, -ww]) * prodB
    for i in range(n):
        t = P([m[i]]) * den
        for j in range(n):
            if j != i:
                t = t * B[j]
        acc = acc - t
    r = acc.r
    out = []
    for z in r:
        if abs(lens_map(z, m, zz) - ww) > 0.3 * (1 + abs(z)):
            continue
        ok = False
        for _ in range(60):
            F = lens_map(z, m, zz) - ww
            g = np.conj(gamma_shear(z, m, zz))
            J = 1 - abs(g) ** 2
            if J == 0:
                break
            dz = -(F - g * np.conj(F)) / J
            if abs(dz) > 0.1 * (1 + abs(z)):
                break
            z = z + dz
            if abs(dz) < 1e-15 * (1 + abs(z)):
                ok = True
                break
        if not ok and abs(lens_map(z, m, zz) - ww) > 1e-11 * (1 + abs(z)):
            continue
        if all(abs(z - y) > 1e-9 * (1 + abs(z)) for y in out):
            out.append(z)
    return np.array(out, complex) + c


def mag_ps(w, m, zl):
    z = images(w, m, zl)
    return np.sum(1 / np.abs(det_jac(z, m, zl)))


# ------------------------------------------------- finite source by quadtree
def area_images(w, rho, m, zl, max_cells=400000, tol=2e-4):
    """Area of {z : |zeta(z)-w| < rho} by Lipschitz-bounded quadtree refinement.

    Cells proven inside/outside are settled exactly; boundary cells are split
    until their estimated error is below tol, then linearised."""
    w = complex(w)
    M = m.sum()
    R = np.abs(zl).max() + abs(w) + rho + 2.2 + np.sqrt(M)
    k = 8
    g = (np.arange(-k, k) + 0.5) / k * R
    z = (g[:, None] + 1j * g[None, :]).ravel()
    h = R / k / 2
    inside = 0.0
    est_prev = None
    for level in range(60):
        d = np.abs(lens_map(z, m, zl) - w)
        reach = h * np.sqrt(2)
        dist = np.abs(z[:, None] - zl[None, :])
        near = dist - reach
        with np.errstate(all="ignore"):
            L = np.where(np.all(near > 0, axis=1),
                         1 + np.sum(m / np.maximum(near, 1e-150) ** 2, axis=1), np.inf)
            # sharper: local derivative + second-derivative bound
            g1 = 1 + np.abs(gamma_shear(z, m, zl))
            g2 = np.sum(2 * m / np.maximum(near, 1e-90) ** 3, axis=1) * reach
            L = np.minimum(L, np.where(np.isfinite(L), g1 + g2, np.inf))
        var = L * reach
        out = d - var > rho
        inn = d + var < rho
        # cells touching a lens: the deflection of that lens alone moves them away
        sing = ~np.isfinite(L)
        if sing.any():
            zs = z[sing]
            dd = dist[sing]
            far = dd + reach
            i = np.argmin(dd, axis=1)
            own = m[i] / far[np.arange(len(zs)), i]
            oth = np.zeros(len(zs))
            for j in range(len(m)):
                sel = i != j
                nd = dd[:, j] - reach
                oth += np.where(sel, np.where(nd > 0, m[j] / np.maximum(nd, 1e-300), np.inf), 0)
            lower = own - oth - np.abs(zs - w) - reach
            out[sing] = lower > rho
            inn[sing] = False
        inside += inn.sum() * (2 * h) ** 2
        z = z[~out & ~inn]
        if len(z) == 0:
            return inside
        # linearised fraction of the boundary cells
        fr = _fraction(z, h, w, rho, m, zl)
        est = inside + fr.sum() * (2 * h) ** 2
        if est_prev is not None and level >= 6 and est > 0:
            if abs(est - est_prev) < tol * 0.25 * est and len(z) * 4 * h * h < 0.1 * est and len(z) > 3000:
                return est
        if len(z) * 4 > max_cells:
            return est
        est_prev = est
        h *= 0.5
        z = (z[:, None] + h * np.array([1 + 1j, 1 - 1j, -1 + 1j, -1 - 1j])[None, :]).ravel()
    return est


def _fraction(z, h, w, rho, m, zl):
    """fraction of each cell with |zeta-w|<rho, from a first-order model (exact for half-planes)."""
    f = lens_map(z, m, zl) - w
    d = np.abs(f)
    g = np.conj(gamma_shear(z, m, zl))     # dzeta = dz + g*conj(dz) (g=conj shear)
    u = f / np.maximum(d, 1e-300)
    # grad of d: Re(conj(u)*(dz + g conj dz)) = Re(conj(conj(.)) ...) -> vector
    vec = u + np.conj(np.conj(u) * g)       # Re(conj(u) dz)+Re(conj(u) g conj(dz)) = Re(conj(vec) dz)
    a, b = np.abs(vec.real) * h, np.abs(vec.imag) * h
    t = rho - d                              # inside if a x + b y < t, x,y in [-1,1]
    big, small = np.maximum(a, b), np.minimum(a, b)
    big = np.maximum(big, 1e-300)
    small = np.maximum(small, 1e-9 * big)
    # CDF of a*x+b*y for uniform x,y
    def ramp(x):
        return np.maximum(x, 0) ** 2
    F = (ramp(t + big + small) - ramp(t + big - small) - ramp(t - big + small) + ramp(t - big - small)) / (8 * big * small)
    return np.clip(F, 0, 1)


def mag_uniform(w, rho, m, zl, **k):
    return area_images(w, rho, m, zl, **k) / (np.pi * rho ** 2)


_GL = {}


def gl(n, a, b):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    x, wt = _GL[n]
    return 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * wt


def mag_ld(w, rho, u1, m, zl, nodes=16, **k):
    """linear limb darkening as a superposition of uniform discs."""
    A = mag_uniform(w, rho, m, zl, **k)
    if u1 == 0:
        return A
    ph, wt = gl(nodes, 0, np.pi / 2)
    num = (1 - u1) * A
    for p, g in zip(ph, wt):
        t = np.sin(p)
        num += u1 * g * t ** 3 * mag_uniform(w, rho * t, m, zl, **k)
    return num / (1 - u1 + u1 * 2 / 3)


# ------------------------------------------------------- external libraries
_VB = {}


def _ask(req, timeout=60.0):
    """one request to the child process holding the C++ libraries; None if it crashes or hangs"""
    import json
    import os
    import select
    import subprocess
    import sys
    p = _VB.get("p")
    if p is None or p.poll() is not None:
        p = _VB["p"] = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vbserver.py")],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    try:
        p.stdin.write(json.dumps(req) + "\n")
        p.stdin.flush()
        if select.select([p.stdout], [], [], timeout)[0]:
            line = p.stdout.readline()
            if line:
                return np.array([float(x) for x in json.loads(line)])
    except (BrokenPipeError, ValueError):
        pass
    p.kill()
    p.wait()
    return None


def _vb(req, w):
    w = np.atleast_1d(w)
    r = _ask(dict(req, w=[[float(x.real), float(x.imag)] for x in w]))
    if r is not None:
        return r
    out = []
    for x in w:                      # find the position that brings the library down
        r = _ask(dict(req, w=[[float(x.real), float(x.imag)]]), 15.0)
        out.append(np.nan if r is None else r[0])
    return np.array(out)


def vb_binary(w, rho, s, q, u1=0.0):
    """BinaryMag2 of VBBinaryLensing (NaN where the library crashes or hangs)"""
    return _vb({"kind": "binary", "s": float(s), "q": float(q), "rho": float(rho), "u1": float(u1)}, w)


def vb_binary_ps(w, s, q):
    return _vb({"kind": "binary", "s": float(s), "q": float(q), "rho": 0, "u1": 0.0}, w)


def vb_triple(w, rho, s, q, q3, r3, psi, u1=0.0):
    """public-frame coordinates of the package (centre of mass of the first two)."""
    m, zl, xcm = system(3, s, q, q3, r3, psi)
    par = []
    for i in [1, 0, 2]:                       # primary first
        par += [float(zl[i].real + xcm), float(zl[i].imag), float(m[i])]
    return _vb({"kind": "multi", "par": par, "rho": float(rho), "u1": float(u1)}, w)


# ------------------------------------------------------------- caustic aids
def caustic_points(n, npts, **p):
    """points on the caustics in the public (centre-of-mass) frame."""
    m, zl, xcm = system(n, **p)
    phi = np.linspace(0, 2 * np.pi, npts, endpoint=False)
    P = np.poly1d
    lin = [P([1.0, -z]) for z in zl]
    D = P([1.0])
    for l in lin:
        D = D * l * l
    out = []
    for f in phi:
        acc = D * complex(np.exp(1j * f))
        for i in range(len(m)):
            t = P([m[i]])
            for j in range(len(m)):
                if j != i:
                    t = t * lin[j] * lin[j]
            acc = acc - t
        out.append(acc.r)
    zc = np.array(out).ravel()
    return lens_map(zc, m, zl) + xcm, zc + xcm


def images_ghosts(w, m, zl):
    """(images, residuals of the polynomial roots that are not images): the second
    tells how close the source is to a caustic (a pair about to become real)."""
    n = len(m)
    if n == 1:
        return images(w, m, zl), np.array([])
    z = images(w, m, zl)
    r = _roots(w, m, zl)
    res = np.abs(lens_map(r, m, zl) - w)
    if len(z):
        near = np.min(np.abs(r[:, None] - z[None, :]), axis=1) < 1e-5 * (1 + np.abs(r))
    else:
        near = np.zeros(len(r), bool)
    return z, res[~near]


def _roots(w, m, zl):
    n = len(m)
    c = zl.mean()
    zz, ww = zl - c, complex(w) - c
    P = np.poly1d
    den = P([1.0])
    for zi in zz:
        den = den * P([1.0, -zi])
    num = P([0.0])
    for i in range(n):
        t = P([m[i]])
        for j in range(n):
            if j != i:
                t = t * P([1.0, -zz[j]])
        num = num + t
    B = [den * complex(np.conj(ww - zi)) + num for zi in zz]
    prodB = P([1.0])
    for b in B:
        prodB = prodB * b
    acc = P([1.0, -ww]) * prodB
    for i in range(n):
        t = P([m[i]]) * den
        for j in range(n):
            if j != i:
                t = t * B[j]
        acc = acc - t
    return acc.r + c


# ------------------------------------- conditioning of the degree n^2+1 polynomial
EPS = 2.2e-16


def lens_poly(w, m, zl):
    """coefficients (np.poly1d order) of the complex polynomial about the centre of mass, and that centre."""
    n = len(m)
    c = (m * zl).sum()
    zz, ww = zl - c, complex(w) - c
    P = np.poly1d
    den = P([1.0])
    for zi in zz:
        den = den * P([1.0, -zi])
    num = P([0.0])
    for i in range(n):
        t = P([m[i]])
        for j in range(n):
            if j != i:
                t = t * P([1.0, -zz[j]])
        num = num + t
    B = [den * complex(np.conj(ww - zi)) + num for zi in zz]
    prodB = P([1.0])
    for b in B:
        prodB = prodB * b
    acc = P([1.0, -ww]) * prodB
    for i in range(n):
        t = P([m[i]]) * den
        for j in range(n):
            if j != i:
                t = t * B[j]
        acc = acc - t
    return np.asarray(acc.c, complex), c


class Report:
    """Images of one source with what double precision allows a polynomial solver:
    z, mu, dz (position tolerance), amp (lens-equation residual that dz implies),
    ghost (smallest residual among the roots that are not images)."""

    def __init__(self, w, m, zl, C=3e4):
        z, gh = images_ghosts(w, m, zl)
        self.z = z
        self.ghost = float(gh.min()) if len(gh) else np.inf
        self.gamma = gamma_shear(z, m, zl)
        self.det = 1 - np.abs(self.gamma) ** 2
        with np.errstate(all="ignore"):
            self.mu = 1 / np.abs(self.det)
        self.A = float(self.mu.sum())
        if len(m) == 1:
            self.dz = (1e-13 * (1 + abs(w)) + 10 * EPS / max(abs(w), 1e-14)) * np.ones(len(z))
            self.curv = np.ones(len(z))
        else:
            c, cen = lens_poly(w, m, zl)
            x = z - cen
            with np.errstate(all="ignore"):
                self.dz = C * EPS * np.polyval(np.abs(c), np.abs(x)) / np.abs(np.polyval(np.polyder(c), x)) + 1e-12 * (1 + np.abs(z))
                self.curv = np.abs(np.polyval(np.polyder(c, 2), x) / np.polyval(np.polyder(c), x))
        self.amp = self.dz * (1 + np.abs(self.gamma))
        gp = np.abs(sum(-2 * mi / (z - zi) ** 3 for mi, zi in zip(m, zl)))
        self.ddet = 2 * np.abs(self.gamma) * gp
        # tolerance of the total magnification
        with np.errstate(all="ignore"):
            rel = self.mu * self.ddet * self.dz
        thr = 1e-3 if len(m) == 3 else 1e-6
        ok = (self.amp < thr) & (rel < 0.1)
        self.ok = ok
        self.dA = float(np.sum(np.where(ok, 2 * self.mu * rel, self.mu))) + 1e-12 * self.A
        self.complete = bool(ok.all())
        # Burke/Witt parity: an odd defect means the reference itself missed an image
        n = len(m)
        nexp = len(z)
        par = int(np.sum(np.sign(self.det)))
        self.consistent = par == 1 - n and (n == 1 and nexp == 2 or n > 1 and nexp in range(n + 1, 5 * n - 4, 2))
        self.generic = self.consistent and self.ghost > (1e-2 if n == 3 else 1e-5) and np.abs(self.det).min() > 1e-5

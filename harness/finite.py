"""Finite-source solvers under test at fixed array shapes, with references and escalation."""
import numpy as np
from core import *
import refs

bootstrap()
import jax                                                            # noqa: E402
import jax.numpy as jnp                                               # noqa: E402
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple    # noqa: E402
from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark     # noqa: E402
from microjax.caustics.lightcurve import magnifications               # noqa: E402
from microjax.caustics.extended_source import mag_extended_source     # noqa: E402

NP = 8
_J = {}


def direct(n, ld, res=400, Nlimb=500, bins_r=50, bins_th=120, margin_r=0.5, margin_th=0.5):
    """vmapped mag_uniform / mag_limb_dark with u1 traced: f(W, rho, u1, params)"""
    k = ("d", n, ld, res, Nlimb, bins_r, bins_th, margin_r, margin_th)
    if k not in _J:
        kw = dict(nlenses=n, r_resolution=res, th_resolution=res, Nlimb=Nlimb, bins_r=bins_r, bins_th=bins_th,
                  margin_r=margin_r, margin_th=margin_th)
        if ld:
            g = lambda w, rho, u1, p: mag_limb_dark(w, rho, u1=u1, **kw, **p)
        else:
            g = lambda w, rho, u1, p: mag_uniform(w, rho, **kw, **p)
        _J[k] = jax.jit(jax.vmap(g, in_axes=(0, None, None, None)))
    return _J[k]


def inverse_ray(n, W, rho, p, u1=0.0, how="adaptive", res=400, Nlimb=500, bins_r=50, bins_th=120, margin=1.0):
    """magnification of the positions W (length NP) by the inverse-ray solver"""
    W = jnp.array(W)
    if how == "direct":
        f = direct(n, u1 != 0, res, Nlimb, bins_r, bins_th, margin, margin)
        return np.asarray(call(f, W, rho, u1, p))
    f = mag_binary if n == 2 else mag_triple
    return np.asarray(call(f, W, rho, u1=float(u1), r_resolution=res, th_resolution=res, Nlimb=Nlimb, bins_r=bins_r, bins_th=bins_th,
                           margin_r=margin, margin_th=margin, MAX_FULL_CALLS=len(W), chunk_size=len(W), **p))


def fine(n, w, rho, p, u1, how):
    """one position at the settings used to decide whether a deviation is mere resolution"""
    W = np.full(1, w)
    return float(inverse_ray(n, W, rho, p, u1, how, res=1200, Nlimb=3000, bins_r=200, bins_th=360, margin=1.0)[0])


def contour(n, W, rho, p, u1=0.0, npts=500, npts_ld=100):
    return np.asarray(call(magnifications, jnp.array(W), rho, nlenses=n, npts_limb=npts, limb_darkening=bool(u1), u1=float(u1), npts_ld=npts_ld, **p))


def reference(n, W, rho, p, u1=0.0):
    """fast external reference (VBBinaryLensing / VBMicrolensing); may itself be wrong now and then"""
    W = np.atleast_1d(W)
    if n == 2:
        return refs.vb_binary(W, rho, p["s"], p["q"], u1)
    return refs.vb_triple(W, rho, u1=u1, **p)


def truth(n, w, rho, p, u1=0.0):
    """area of the images by Lipschitz-bounded subdivision: slow and independent of everything else"""
    m, zl, xcm = refs.system(n, **p)
    return refs.mag_ld(w - xcm, rho, u1, m, zl)


def origin_fold(n, w, rho, p, f=10.0):
    """True if the source is near the position whose image sits at the origin of the polar grid (the centre of mass of
    the first two lenses) and that image is highly magnified: the (r, theta) regions lose parts of it (known finding)."""
    m, zl, xcm = refs.system(n, **p)
    z0 = -xcm + 0j
    if np.min(np.abs(z0 - zl)) < 1e-9:
        return False
    return abs(refs.lens_map(z0, m, zl) - (w - xcm)) < f * rho and abs(refs.det_jac(z0, m, zl)) < 1 / 3

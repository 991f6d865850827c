"""C06 agreement of measurements with Sersic theory (root finding and incomplete gamma functions)."""
import numpy as np
from scipy.optimize import brentq
import petrofit as pf
from astropy.modeling import models
from .. import refs

RULE = ("Noiseless Sersic galaxies n 0.4-6, r_eff 6-60, ellipticity 0-0.8, any angle; analytic curves of growth (expected radius from "
        "the annulus formula solved by root finding) and simulated images measured with radial_photometry / source_photometry. "
        "Non-trivial: distinct (route, n bin, r_eff bin, ellipticity bin, eta).")
PLAN = {"quick": {"analytic": 1050, "image": 180, "pipeline": 48},
        "thorough": {"analytic": 10000, "image": 1000, "pipeline": 150}}
NEED = ["radii_judged", "image_judged", "corrected_judged", "pipeline_judged"]
ASSUME = ["Tolerances: one interpolation step plus 3% of the aperture spacing (analytic), 2% (images, n <= 2)."]


def discrete_rp(eta, re, n, dr):
    """Root of annulus/mean brightness for apertures spaced by dr."""
    def g(r):
        L1, L0 = refs.sersic_L(r, 1, re, n), refs.sersic_L(r - dr, 1, re, n)
        return (L1 - L0) / (r * r - (r - dr) ** 2) / (L1 / r ** 2) - eta
    lo = dr * 1.0001
    if g(lo) <= 0:
        return None
    return brentq(g, lo, 400 * re, xtol=1e-10)


def run_analytic(M, rng, case):
    n = float(rng.uniform(.4, 6)) if rng.random() < .7 else float(rng.choice([.5, 1, 2, 4]))
    re = float(rng.uniform(6, 60))
    q = 1.0 if rng.random() < .4 else float(rng.uniform(.2, 1))
    amp = float(10 ** rng.uniform(-3, 4))
    r99 = float(refs.sersic_r(.99, re, n))
    eta = float(rng.choice([.2, .3, .4, .5])) if rng.random() < .6 else float(rng.uniform(.1, .6))
    dr = re / rng.uniform(8, 30)
    rp_t = refs.sersic_rp(eta, re, n)
    rmax = max(r99, 2.1 * rp_t) * 1.05
    N = int(np.ceil(rmax / dr))
    if N > 2500:
        N, dr = 2500, rmax / 2500
    if dr > re / 6:
        return
    r = dr * np.arange(1, N + 1)
    F, A = refs.sersic_L(r, amp, re, n, 1 - q), np.pi * r ** 2 * q
    p = pf.Petrosian(r, A, F, eta=eta)
    want = discrete_rp(eta, re, n, dr)
    step = r[-1] / 4999
    wit = dict(n=n, r_eff=re, eta=eta, dr=dr, q=q)
    if want is None or want < 6 * dr:
        return
    M.check(abs(p.r_petrosian - want) <= 1.01 * step + .03 * dr, "r_petrosian", "Petrosian radius differs from theory", got=p.r_petrosian, want=want, theory=rp_t, **wit)
    # the true profile itself, to first order in the aperture spacing
    M.check(rp_t - step <= p.r_petrosian <= rp_t + 6 * dr + step, "r_petrosian_theory", "Petrosian radius far from the analytic root", got=p.r_petrosian, want=rp_t, **wit)
    M.event("radii_judged")
    p.epsilon = r99 / p.r_petrosian
    if not r99 <= r[-1]:
        return
    ftol = 1.5 * step + 1e-3 * dr
    for name, val, frac in (("r_half_light", p.r_half_light, .5), ("r_50", p.r_50, .5), ("r_total_flux", p.r_total_flux, .99), ("r_20", p.fraction_flux_to_r(.2), .2),
                            ("r_80", p.fraction_flux_to_r(.8), .8)):
        w = float(refs.sersic_r(frac, re, n))
        M.check(abs(val - w) <= ftol + (.05 * dr if w < 4 * dr else 0), name, "radius differs from the model's", got=val, want=w, **wit)
    L = refs.sersic_L(np.inf, amp, re, n, 1 - q)
    M.close(p.total_flux, .99 * L, "total_flux", rtol=2e-3, msg="total flux", **wit)
    M.close(p.half_flux, .5 * L, "half_flux", rtol=5e-3, msg="half flux", **wit)
    r20, r80, r90 = [float(refs.sersic_r(f, re, n)) for f in (.2, .8, .9)]
    dc = 5 / np.log(10) * ftol
    M.check(abs(p.c2080 - 5 * np.log10(r80 / r20)) <= dc * (1 / r80 + 1 / r20) * 1.5 + (.02 if r20 < 4 * dr else 1e-4), "c2080", "concentration", got=p.c2080, want=5 * np.log10(r80 / r20), **wit)
    M.check(abs(p.c5090 - 5 * np.log10(r90 / re)) <= dc * (1 / r90 + 1 / re) * 1.5 + 1e-3, "c5090", "concentration", got=p.c5090, want=5 * np.log10(r90 / re), **wit)
    M.event("corrected_judged")
    M.nontrivial("analytic", round(n * 2), round(re / 8), round(q * 5), round(eta, 2))
    M.sample(r_petrosian=p.r_petrosian, expected=want, theory=rp_t, **wit)


def run_image(M, rng, case):
    n, re = float(rng.uniform(.5, 2)), float(rng.uniform(6, 11))
    el, th = (0.0 if rng.random() < .3 else float(rng.uniform(.05, .6))), float(rng.uniform(-np.pi, np.pi))
    r99 = float(refs.sersic_r(.99, re, n))
    half = int(np.ceil(r99 * 1.15)) + 3
    size = (2 * half + 1 + int(rng.integers(0, 3)), 2 * half + 1 + int(rng.integers(0, 3)))
    x0, y0 = half + float(rng.uniform(-.5, .5)), half + float(rng.uniform(-.5, .5))
    amp = float(10 ** rng.uniform(-2, 3))
    m = models.Sersic2D(amp, re, n, x0, y0, el, th)
    if rng.random() < .5:
        img = pf.model_to_image(pf.PSFConvolvedModel2D(m, oversample=4), size)
    else:
        img = pf.model_to_image(m, size, mode="oversample", factor=4)
    rl = np.arange(1, int(r99 * 1.12) + 1)
    elong = pf.ellip_to_elong(el)
    f, a, _ = pf.radial_photometry(img, (x0, y0), rl, elong=elong, theta=th)
    wit = dict(n=n, r_eff=re, ellip=el, theta=th)
    want = refs.sersic_L(rl, amp, re, n, el)
    sel = rl > 3 / (1 - el)
    M.check(np.all(np.abs(f[sel] / want[sel] - 1) < .02), "image_flux", "curve of growth differs from theory", got=f[sel], want=want[sel], **wit)
    M.close(a, np.pi * rl ** 2 * (1 - el), "image_area", rtol=1e-6, atol=1e-5, msg="area of a covered ellipse", **wit)
    p = pf.Petrosian(rl, a, f)
    w = discrete_rp(.2, re, n, 1.0)
    M.check(abs(p.r_petrosian / w - 1) < .02, "image_rp", "Petrosian radius differs from theory", got=p.r_petrosian, want=w, **wit)
    p.epsilon = r99 / p.r_petrosian
    if r99 <= rl[-1]:
        M.check(abs(p.r_half_light / re - 1) < .02, "image_half", "half-light radius is not r_eff", got=p.r_half_light, **wit)
        M.check(abs(p.r_total_flux / r99 - 1) < .02, "image_total", "total-flux radius", got=p.r_total_flux, want=r99, **wit)
        M.check(abs(p.total_flux / (.99 * refs.sersic_L(np.inf, amp, re, n, el)) - 1) < .01, "image_flux", "total flux", got=p.total_flux, **wit)
        c = 5 * np.log10(refs.sersic_r(.8, re, n) / refs.sersic_r(.2, re, n))
        # (the light is known to 2 %, the inner radius of cuspy or flat sources only to a fraction of a pixel)
        r20 = refs.sersic_r(.2, re, n)
        M.check(abs(p.c2080 - c) < (.1 if r20 * (1 - el) > 2.5 else .1 + 5 / np.log(10) * .12 / (1 - el) / r20), "image_c2080", "concentration", got=p.c2080, want=c, **wit)
    M.event("image_judged")
    M.nontrivial("image", round(n * 3), round(re), round(el * 5), round(th))


def run_pipeline(M, rng, case):
    """detect -> source photometry -> Petrosian -> theory, with a sky plane"""
    n, re, el, th = float(rng.uniform(.5, 1.2)), float(rng.uniform(5, 7)), float(rng.uniform(0, .5)), float(rng.uniform(-1.4, 1.4))
    size = 121
    x0, y0 = float(60 + rng.integers(-6, 7)), float(60 + rng.integers(-6, 7))
    m = models.Sersic2D(100.0, re, n, x0, y0, el, th)
    img = pf.model_to_image(m, size, mode="oversample", factor=3)
    r99 = float(refs.sersic_r(.99, re, n))
    jj, ii = np.mgrid[:size, :size]
    cat, segm, sd = pf.make_catalog(img, .05, deblend=False, npixels=9, plot=False)
    s = cat[int(pf.order_cat(cat)[0])] if len(np.atleast_1d(cat.label)) > 1 else cat[0]
    rl = np.arange(1, int(min(r99 * 1.1, 48)) + 1)
    wit = dict(n=n, r_eff=re, ellip=el, theta=th)
    M.check(tuple(int(v) for v in pf.get_source_position(s)) == (int(x0), int(y0)), "pipeline_pos", "source not at its centre", **wit)
    f, a, _ = pf.source_photometry(s, img + 3 + .02 * ii - .01 * jj, segm, rl, bg_sub=True, cutout_size=119)
    p = pf.Petrosian(rl, a, f)
    w = discrete_rp(.2, re, n, 1.0)
    M.check(abs(p.r_petrosian / w - 1) < .06, "pipeline_rp", "Petrosian radius differs from theory", got=p.r_petrosian, want=w, **wit)
    p.epsilon = r99 / p.r_petrosian
    if p.r_epsilon <= rl[-1]:
        M.check(abs(p.r_half_light / re - 1) < .06, "pipeline_half", "half-light radius is not r_eff", got=p.r_half_light, **wit)
        M.check(abs(p.total_flux / refs.sersic_L(np.inf, 100, re, n, el) - .99) < .04, "pipeline_flux", "total flux", got=p.total_flux, **wit)
    M.event("pipeline_judged")
    M.nontrivial("pipeline", round(n * 4), round(re), round(el * 5), round(th * 2))

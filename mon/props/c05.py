"""C05 equivariance: metamorphic pairs of real runs (flux scale, radius scale, pixel symmetry)."""
import numpy as np
import petrofit as pf
from .. import refs, gens

RULE = ("Pairs of runs related by a flux factor (powers of two, judged to rounding, and arbitrary 1e-20..1e20), a radius factor, "
        "a whole-pixel shift, a transpose or a mirror, on aperture photometry, source photometry and Petrosian objects. "
        "Non-trivial: distinct (relation, factor exponent, error mode, style).")
PLAN = {"quick": {"flux_curve": 900, "flux_image": 360, "radius_curve": 900, "symmetry": 360, "source": 120},
        "thorough": {"flux_curve": 8000, "flux_image": 2500, "radius_curve": 8000, "symmetry": 2500, "source": 800}}
NEED = ["finite_pairs", "photometry_pairs", "symmetry_pairs", "source_pairs"]
ASSUME = ["Petrosian radii are grid samples: for factors that are not powers of two a difference of one sample is rounding."]

RADII = ["r_petrosian", "r_petrosian_err", "r_total_flux", "r_total_flux_err", "r_half_light", "r_half_light_err", "r_epsilon"]
FLUX = ["total_flux", "half_flux", "total_flux_err", "half_flux_err"]
PURE = ["c2080", "c5090"]


def factor(rng):
    if rng.random() < .5:
        return float(2.0 ** rng.integers(-66, 67)), True
    return float(10.0 ** rng.uniform(-20, 20)) if rng.random() < .7 else float(rng.choice([1e-20, 1e20, 1e-9, 1e9])), False


def smooth(kind):
    return kind in ("cubic", "linear", "quadratic", "slinear", 2, 3, None)


def jump_near(p, at):
    """Does a node or a midpoint between nodes (the steps of nearest, previous, next) lie at one of the radii?"""
    r = np.asarray(p.r_list, float)
    jumps = np.concatenate([r, (r[1:] + r[:-1]) / 2])
    return any(np.min(np.abs(jumps - a)) <= 1e-9 * r[-1] for a in at if np.isfinite(a))


def compare(M, p, q, cr, cf, exact, r, rel, wit):
    """q measured on radii*cr, fluxes*cf."""
    step = 0 if exact else 2.2 * (r[-1] - 0) / (max(p.interp_num, len(r)) - 1)
    if p.interp_kind is None:
        step = 0 if exact else np.max(np.diff(np.asarray(r, float))) * 1.01
    fin = 0
    for k in RADII:
        a, b = getattr(p, k), getattr(q, k)
        tol = 1e-9 * abs(r[-1]) + step * (p.epsilon if k == "r_epsilon" else 1)
        # errors combine two samples each
        if k.endswith("_err"):
            tol *= 2
        ok = (np.isnan(a) and np.isnan(b)) or abs(b / cr - a) <= tol
        if not ok and (np.isnan(a) != np.isnan(b)) and not exact:
            M.event("edge_skipped")       # rounding may decide whether a level is reached at all
            continue
        if not ok and not exact and k not in ("r_petrosian", "r_epsilon"):
            # derived radii follow r_petrosian; excuse only if that one moved by a sample
            if abs(q.r_petrosian / cr - p.r_petrosian) > 1e-9 * abs(r[-1]):
                M.event("sample_moved")
                continue
        fin += bool(np.isfinite(a))
        M.check(ok, rel + "_radius", "%s not equivariant" % k, a=a, b=b, cr=cr, cf=cf, **wit)
    if np.isnan(p.r_petrosian) or abs(q.r_petrosian / cr - p.r_petrosian) > 1e-9 * abs(r[-1]) \
            or np.isnan(p.r_half_light) != np.isnan(q.r_half_light) or np.isnan(p.r_total_flux) != np.isnan(q.r_total_flux):
        return
    same_half = abs(q.r_half_light / cr - p.r_half_light) <= 1e-9 * r[-1]
    same_tot = abs(q.r_total_flux / cr - p.r_total_flux) <= 1e-9 * r[-1]
    for k in FLUX:
        a, b = getattr(p, k), getattr(q, k)
        if not (same_half if k.startswith("half") else same_tot):
            continue
        e = "r_half_light_err" if k.startswith("half") else "r_total_flux_err"
        if k.endswith("_err") and not abs(getattr(q, e) / cr - getattr(p, e)) <= 1e-9 * r[-1] and not np.isnan(getattr(p, e)):
            continue
        rt = p.r_half_light if k.startswith("half") else p.r_total_flux
        if not exact and (k.endswith("_err") or not smooth(p.interp_kind)) and jump_near(p, [rt] + ([rt - getattr(p, e), rt + getattr(p, e)] if k.endswith("_err") else [])):
            M.event("jump_skipped")       # rounding decides on which side of a step the radius lies
            continue
        scale = np.max(np.abs(p.flux_list))
        M.check((np.isnan(a) and np.isnan(b)) or abs(b / cf - a) <= 1e-8 * abs(a) + 1e-9 * scale, rel + "_flux",
                "%s not equivariant" % k, a=a, b=b, cr=cr, cf=cf, **wit)
    if exact:
        for k in PURE:
            M.close(getattr(q, k), getattr(p, k), rel + "_concentration", rtol=1e-8, atol=1e-8, msg=k, **wit)
    if fin:
        M.event("finite_pairs")


def build(rng):
    r, area, flux, style = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    s = gens.settings(rng)
    if len(r) < 5:
        s["interp_kind"] = "linear"
    return np.asarray(r, float), area, flux, ae, fe, s, style


def run_flux_curve(M, rng, case):
    r, A, F, ae, fe, s, style = build(rng)
    c, exact = factor(rng)
    p = pf.Petrosian(r, A, F, area_err=ae, flux_err=fe, **s)
    q = pf.Petrosian(r, A, F * c, area_err=ae, flux_err=None if fe is None else fe * c, **s)
    M.close(q.petrosian_list, p.petrosian_list, "flux_profile", rtol=1e-9, atol=1e-12, msg="profile changed with the flux unit", c=c)
    if p.petrosian_err is not None:
        ok = np.isfinite(p.petrosian_err)
        M.close(q.petrosian_err[ok], p.petrosian_err[ok], "flux_profile", rtol=1e-7, atol=1e-9 * np.nanmax(p.petrosian_err[ok], initial=0), msg="profile errors", c=c)
    compare(M, p, q, 1.0, c, exact, r, "flux", dict(style=style, s=s))
    M.nontrivial("flux", int(np.floor(np.log2(c))), style, ae is None, fe is None)
    M.sample(relation="flux", c=c, r_petrosian=p.r_petrosian)


def run_radius_curve(M, rng, case):
    r, A, F, ae, fe, s, style = build(rng)
    exact = rng.random() < .5
    c = float(2.0 ** rng.integers(-12, 13)) if exact else float(10 ** rng.uniform(-4, 4))
    p = pf.Petrosian(r, A, F, area_err=ae, flux_err=fe, **s)
    q = pf.Petrosian(r * c, A * c * c, F, area_err=None if ae is None else ae * c * c, flux_err=fe, **s)
    M.close(q.petrosian_list, p.petrosian_list, "radius_profile", rtol=1e-8, atol=1e-12, msg="profile changed with the radius unit", c=c)
    compare(M, p, q, c, 1.0, exact, r, "radius", dict(style=style, s=s))
    M.nontrivial("radius", round(np.log2(c)), style, ae is None, fe is None)


def scene(rng):
    img, src = gens.field(rng, shape=(int(rng.integers(30, 60)), int(rng.integers(30, 60))))
    err = np.abs(rng.normal(1, .3, img.shape)) if rng.random() < .7 else None
    mask = rng.random(img.shape) > .1 if rng.random() < .5 else None
    pos = (float(rng.uniform(8, img.shape[1] - 8)), float(rng.uniform(8, img.shape[0] - 8)))
    if rng.random() < .4:
        pos = (float(round(pos[0])), float(round(pos[1])))
    rl = np.sort(rng.uniform(.6, 18, int(rng.integers(2, 6))))
    return img, err, mask, pos, rl, float(rng.uniform(1, 3)), float(rng.uniform(-2, 4)), str(rng.choice(["exact", "exact", "center"]))


def run_flux_image(M, rng, case):
    img, err, mask, pos, rl, el, th, me = scene(rng)
    c, exact = factor(rng)
    f, a, e = pf.radial_photometry(img, pos, rl, error=err, mask=mask, elong=el, theta=th, method=me)
    f2, a2, e2 = pf.radial_photometry(img * c, pos, rl, error=None if err is None else err * c, mask=mask, elong=el, theta=th, method=me)
    sc = np.abs(img).sum()
    M.close(f2 / c, f, "flux_photometry", rtol=1e-10, atol=1e-14 * sc, msg="flux does not scale with the image", c=c)
    M.close(a2, a, "area_photometry", rtol=1e-12, msg="area changed with the image unit", c=c)
    M.close(e2 / c, e, "error_photometry", rtol=1e-10, msg="error does not scale with the image", c=c)
    M.event("photometry_pairs")
    M.nontrivial("image", int(np.floor(np.log2(c))), err is None, mask is None, me)


def run_symmetry(M, rng, case):
    img, err, mask, pos, rl, el, th, me = scene(rng)
    f, a, e = pf.radial_photometry(img, pos, rl, error=err, mask=mask, elong=el, theta=th, method=me)
    x, y = pos
    ny, nx = img.shape
    T = {"transpose": (lambda v: v.T, (y, x), np.pi / 2 - th),
         "mirrorx": (lambda v: v[:, ::-1], (nx - 1 - x, y), np.pi - th),
         "mirrory": (lambda v: v[::-1], (x, ny - 1 - y), -th),
         "half": (lambda v: v[::-1, ::-1], (nx - 1 - x, ny - 1 - y), th),
         "halfturn_angle": (lambda v: v, pos, th + np.pi)}
    k = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    # shift with the same surroundings: pad with masked (False) pixels
    m0 = np.ones(img.shape, bool) if mask is None else mask
    T["shift"] = (lambda v: np.pad(v, ((k[1], 3), (k[0], 2))), (x + k[0], y + k[1]), th)
    for name, (t, p2, th2) in T.items():
        mm = t(m0) if name == "shift" else (None if mask is None else t(mask))
        f2, a2, e2 = pf.radial_photometry(t(img), p2, rl, error=None if err is None else t(err), mask=mm, elong=el, theta=th2, method=me)
        if me == "center" and not np.allclose(a, a2, rtol=0, atol=1e-6):
            # a pixel centre exactly on the ellipse may fall either way
            near = [not np.array_equal(refs.ellipse_weights(img.shape, x, y, r * (1 + 1e-9), r * (1 + 1e-9) / el, th, "center"),
                                       refs.ellipse_weights(img.shape, x, y, r * (1 - 1e-9), r * (1 - 1e-9) / el, th, "center")) for r in rl]
            if any(near):
                M.event("edge_skipped")
                continue
        sc = np.abs(img).sum()
        M.close(f2, f, "symmetry", rtol=1e-9, atol=1e-11 * sc, msg="flux changed under " + name, pos=pos, r=rl, elong=el, theta=th)
        M.close(a2, a, "symmetry", rtol=1e-9, atol=3e-6, msg="area changed under " + name, pos=pos, r=rl, elong=el, theta=th)
        if err is not None:
            M.close(e2, e, "symmetry", rtol=1e-8, atol=1e-9, msg="error changed under " + name)
        M.event("symmetry_pairs")
        M.nontrivial(name, err is None, mask is None, me, len(rl))


def run_source(M, rng, case):
    """source_photometry: image x c, and embedding the field in a larger frame."""
    img, src = gens.field(rng, shape=(70, 76), nsrc=int(rng.integers(1, 4)), noise=.05, minsep=18)
    cat, segm, sd = pf.make_catalog(img, 1.0, deblend=True, npixels=8, plot=False)
    s = cat[int(rng.integers(len(cat)))]
    err = np.abs(rng.normal(1, .2, img.shape)) if rng.random() < .6 else None
    kw = dict(bg_sub=bool(rng.random() < .6), sigma=float(rng.uniform(1.5, 4)), sigma_type=str(rng.choice(["clip", "clip", "bound"])),
              mask_background=bool(rng.random() < .2), cutout_size=int(rng.integers(40, 60)) if rng.random() < .6 else None)
    if kw["sigma_type"] == "bound":
        kw["sigma"] *= .1
    rl = np.arange(1, 16, 2)
    c, exact = factor(rng)
    f, a, e = pf.source_photometry(s, img, sd, rl, error=err, **kw)
    kw2 = dict(kw, sigma=kw["sigma"] * c) if kw["sigma_type"] == "bound" else kw
    f2, a2, e2 = pf.source_photometry(s, img * c, sd, rl, error=None if err is None else err * c, **kw2)
    sc = np.abs(img).sum()
    M.close(f2 / c, f, "source_flux", rtol=1e-6, atol=1e-8 * sc, msg="source flux does not scale with the image", c=c, kw=kw)
    M.close(a2, a, "source_area", rtol=1e-9, msg="source area changed", c=c, kw=kw)
    M.close(e2 / c, e, "source_error", rtol=1e-9, msg="source error does not scale", c=c, kw=kw)
    p = pf.Petrosian(rl, a, f, flux_err=None if err is None else e)
    q = pf.Petrosian(rl, a2, f2, flux_err=None if err is None else e2)
    if not kw["bg_sub"]:
        compare(M, p, q, 1.0, c, exact, rl, "source", dict(kw=kw))
    M.event("source_pairs")
    M.nontrivial("source", int(np.floor(np.log2(c))), kw["bg_sub"], kw["sigma_type"], kw["mask_background"], err is None)

"""C12 source photometry: recomputed in full-image coordinates from the segmentation and exact overlaps."""
import numpy as np
import petrofit as pf
from astropy.stats import sigma_clip, sigma_clipped_stats
from astropy.nddata import CCDData
from .. import refs, gens

RULE = ("Fields with 1-5 sources (some near the border or bright), planes, noise and nan pixels; cutout sizes default/odd/even/large, "
        "bg_sub clip/bound, mask_background, error maps, plot; every observed source_photometry call is recomputed in full-image "
        "coordinates; metamorphic runs change other sources' pixels, add planes, vary the cutout. Non-trivial: distinct (bg mode, "
        "mask_background, cutout class, border class, error).")
PLAN = {"quick": {"field": 180, "others": 180, "plane": 180, "cutout": 120, "badtype": 10},
        "thorough": {"field": 900, "others": 900, "plane": 900, "cutout": 700, "badtype": 40}}
NEED = ["source_photometry", "radii_judged", "bg_judged", "bounded_pixels", "border_sources", "plane_pairs", "other_pairs", "cutout_pairs"]
ASSUME = ["astropy sigma_clip / sigma_clipped_stats are trusted; the plane itself is an own least-squares solution."]


def cut(pos, size, shape):
    """Rows/columns of the cutout inside the image."""
    s = int(size)
    s += s % 2
    y0, x0 = pos[1] - s // 2, pos[0] - s // 2
    return s, slice(max(y0, 0), min(y0 + s, shape[0])), slice(max(x0, 0), min(x0 + s, shape[1]))


BOUND = [False]                                        # did the last expectation lift pixels to -sigma


def expect(a, img, segm_data):
    s = a["source"]
    x, y = int(s.maxval_xindex), int(s.maxval_yindex)
    lab = int(s.label)
    size = np.ceil(max(a["r_list"]) * 3) if a["cutout_size"] is None else a["cutout_size"]
    size, sy, sx = cut((x, y), size, img.shape)
    left = (segm_data != lab) & ((segm_data != 0) | bool(a["mask_background"]))
    use = ~left & ~np.isnan(img)
    work = img.astype(float).copy()
    bg = None
    if a["bg_sub"]:
        free = (segm_data == 0) & ~np.isnan(img)
        box = np.zeros(img.shape, bool)
        box[sy, sx] = True
        sel = free & box
        if sel.sum() > 10:
            v = np.where(sel, img, np.nan)[sy, sx]
            if a["sigma_type"].lower() == "clip":
                keep = ~np.ma.getmaskarray(sigma_clip(np.ma.masked_invalid(v), a["sigma"]))
            else:
                mean = sigma_clipped_stats(v, sigma=3, mask=np.isnan(v))[0]
                with np.errstate(all="ignore"):
                    keep = (v <= mean + a["sigma"]) & (v >= mean - a["sigma"])
            keep &= ~np.isnan(v)
            full = np.zeros(img.shape, bool)
            full[sy, sx] = keep
            if keep.sum() < 3:
                return None
            j, i = np.where(full)
            if np.linalg.matrix_rank(np.stack([np.ones(i.size), i - i.mean(), j - j.mean()], 1)) < 3:
                return None
            c = refs.plane_lsq(img, full)
            jj, ii = np.mgrid[:img.shape[0], :img.shape[1]]
            bg = c[0] + c[1] * ii + c[2] * jj
            work = work - bg
            if a["sigma_type"].lower() == "bound":
                BOUND[0] = bool(np.any(work[use] < -a["sigma"]))
                work = np.maximum(work, -a["sigma"])
    return x, y, float(s.elongation.value), np.deg2rad(float(s.orientation.value)), work, use, size, bg


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        if a["sigma_type"].lower() not in ("clip", "bound"):
            return
        # legitimate: an aperture without any usable pixel position
        M.violate("raises", "source_photometry raised %r" % ev.exc, kw={k: a[k] for k in ("bg_sub", "sigma", "sigma_type", "cutout_size")})
        return
    img = a["image"]
    img = np.asarray(img.data if isinstance(img, CCDData) else img, float)
    BOUND[0] = False
    e = expect(a, img, np.asarray(a["segm_deblend"].data))
    if e is None:
        M.event("degenerate_bg")
        return
    x, y, el, th, work, use, size, bg = e
    F, A, E = ev.result
    rl = [float(r) for r in a["r_list"]]
    if not M.check(len(F) == len(A) == len(E) == len(rl), "length", "one result per radius"):
        return
    err = a["error"]
    top = np.nanmax(np.abs(work[use])) if use.any() else 0
    if bg is not None:
        M.event("bg_judged")
        if BOUND[0]:
            M.event("bounded_pixels")
    for k in np.unique(np.linspace(0, len(rl) - 1, 4).astype(int)):
        r = rl[k]
        if r > size / 2 - 1 or r > 80:
            continue
        W = refs.ellipse_weights(img.shape, x, y, r, r / el, th, "exact" if a["method"] == "exact" else "center")
        if a["method"] == "exact":
            if not refs.photutils_agrees(W, x, y, r, r / el, th):
                M.event("photutils_degenerate")
                continue
        else:
            lo = refs.ellipse_weights(img.shape, x, y, r * (1 - 1e-9), r / el * (1 - 1e-9), th, "center")
            hi = refs.ellipse_weights(img.shape, x, y, r * (1 + 1e-9), r / el * (1 + 1e-9), th, "center")
            if not np.array_equal(lo, hi):
                continue
        sel = use & (W > 0)
        v = work[sel] * W[sel]
        wit = dict(r=r, pos=(x, y), elong=el, theta=th, kw={q: a[q] for q in ("bg_sub", "sigma", "sigma_type", "cutout_size", "mask_background", "method")})
        M.check(abs(F[k] - v.sum()) <= 1e-6 * np.abs(v).sum() + 1e-7 * top, "flux", "flux is not that of the source alone on its centre minus the plane",
                got=F[k], want=v.sum(), **wit)
        M.check(abs(A[k] - W[sel].sum()) <= 2e-6 + 1e-8 * W[sel].sum(), "area", "area counts other pixels", got=A[k], want=W[sel].sum(), **wit)
        if err is None:
            M.check(np.isnan(E[k]), "error_nan", "error without error map")
        else:
            q = np.asarray(err, float)[sel] ** 2 * W[sel]
            if np.all(np.isfinite(q)):
                M.check(abs(E[k] ** 2 - q.sum()) <= 1e-6 * q.sum() + 1e-8 * np.max(np.asarray(err, float)[sel] ** 2, initial=0), "error", "error", got=E[k], want=np.sqrt(q.sum()), **wit)
        M.event("radii_judged")
        if x - r < 0 or y - r < 0 or x + r > img.shape[1] - 1 or y + r > img.shape[0] - 1:
            M.event("border_sources")


def hooks(M):
    return {"source_photometry": lambda ev: judge(M, ev)}


def scene(rng, plane=True, nsrc=None):
    shape = (int(rng.integers(44, 80)), int(rng.integers(44, 80)))
    img, src = gens.field(rng, shape, nsrc=int(rng.integers(1, 6)) if nsrc is None else nsrc, noise=float(rng.choice([.01, .1, .3])))
    cat, segm, sd = None, None, None
    thr = 1.5
    cat, segm, sd = pf.make_catalog(img, thr, deblend=bool(rng.random() < .6), npixels=7, plot=False)
    sd = segm if sd is None else sd
    if plane:
        jj, ii = np.mgrid[:shape[0], :shape[1]]
        img = img + rng.uniform(-3, 3) + rng.uniform(-.05, .05) * ii + rng.uniform(-.05, .05) * jj
    return img, cat, sd


def settings(rng):
    bound = rng.random() < .3
    return dict(bg_sub=bool(rng.random() < .6), sigma=float(rng.uniform(.5, 3)) if bound else float(rng.uniform(1.5, 4)),
                sigma_type="bound" if bound else "clip", mask_background=bool(rng.random() < .3),
                method="center" if rng.random() < .15 else "exact",
                cutout_size=None if rng.random() < .5 else (int(rng.integers(30, 90)) if rng.random() < .8 else float(rng.integers(30, 90))))


def pick(rng, cat):
    n = len(np.atleast_1d(cat.label))
    return cat[int(rng.integers(n))]


def run_field(M, rng, case):
    img, cat, sd = scene(rng, plane=bool(rng.random() < .7))
    for _ in range(2):
        s = pick(rng, cat)
        kw = settings(rng)
        rl = np.arange(1, int(rng.integers(6, 18)), int(rng.integers(1, 4)))
        if rng.random() < .3:
            rl = list(rng.uniform(.7, 15, 5))
        im = img.copy()
        if rng.random() < (.8 if kw["sigma_type"] == "bound" else .3):   # other flux units; a bound is in the units of the image
            im = im * 10.0 ** rng.uniform(-4, 4)
            if kw["sigma_type"] == "bound":
                kw["sigma"] = float(rng.uniform(.5, 4) * np.median(np.abs(np.diff(im, axis=1))))
        if rng.random() < .3:
            im[rng.random(im.shape) < .01] = np.nan
        err = np.abs(rng.normal(1, .3, img.shape)) if rng.random() < .6 else None
        image = CCDData(im, unit="adu") if rng.random() < .2 else im
        keep, lab = im.copy(), sd.data.copy()
        try:
            out = pf.source_photometry(s, image, sd, rl, error=err, **kw)
        except Exception as e:
            continue                                   # judged by the monitor
        M.check(np.array_equal(im, keep, equal_nan=True) and np.array_equal(sd.data, lab), "inputs_kept", "inputs modified")
        if rng.random() < .15:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                o2 = pf.source_photometry(s, image, sd, rl, error=err, plot=True, vmax=1, **kw)
            for p, q in zip(out, o2):
                M.close(q, p, "plot", rtol=1e-12, msg="plotting changed the photometry")
        M.nontrivial(kw["bg_sub"] and kw["sigma_type"], kw["mask_background"], kw["cutout_size"] is None, err is None, kw["method"], len(rl))
        M.sample(kw=kw, flux=out[0], area=out[1])


def run_others(M, rng, case):
    img, cat, sd = scene(rng, nsrc=int(rng.integers(2, 6)))
    s = pick(rng, cat)
    kw = settings(rng)
    rl = np.arange(1, 14, 3)
    f = pf.source_photometry(s, img, sd, rl, **kw)
    other = (sd.data != 0) & (sd.data != int(s.label))
    if kw["mask_background"] and not kw["bg_sub"]:
        other |= sd.data == 0
    im = img.copy()
    im[other] = rng.choice([1e7, -1e7, np.nan, 0]) if rng.random() < .6 else rng.normal(0, 1e4, other.sum())
    g = pf.source_photometry(s, im, sd, rl, **kw)
    for a, b, n in zip(f, g, ("flux", "area", "error")):
        M.close(b, a, "others", rtol=1e-9, atol=1e-9, msg="%s depends on pixels of other sources" % n, kw=kw)
    if other.any():
        M.event("other_pairs")
    M.nontrivial("others", kw["bg_sub"] and kw["sigma_type"], kw["mask_background"], int(other.any()))


def run_plane(M, rng, case):
    """Compact sources fully inside their labels on an empty sky: any plane must come off exactly."""
    shape = (int(rng.integers(44, 80)), int(rng.integers(44, 80)))
    img = np.zeros(shape)
    jj, ii = np.mgrid[:shape[0], :shape[1]]
    for _ in range(int(rng.integers(1, 4))):
        y, x = rng.uniform(6, shape[0] - 7), rng.uniform(6, shape[1] - 7)
        amp, w = rng.uniform(5, 1e4), rng.uniform(1.5, 4)
        g = amp * np.exp(-.5 * ((ii - x) ** 2 + ((jj - y) / .7) ** 2) / w ** 2)
        img += np.where(g > .02 * amp, g, 0)
    cat, segm, _ = pf.make_catalog(img, 1e-9, deblend=False, npixels=4, plot=False)
    s = pick(rng, cat)
    kw = settings(rng)
    kw.update(bg_sub=True, sigma_type="clip", sigma=float(rng.uniform(3, 6)))
    rl = np.arange(1, 14, 3)
    f0 = pf.source_photometry(s, img, segm, rl, **dict(kw, bg_sub=False))
    sc = 10.0 ** rng.integers(-3, 4)
    pl = rng.normal(0, 10) * sc + rng.normal(0, .2) * sc * ii + rng.normal(0, .2) * sc * jj
    f = pf.source_photometry(s, img + pl, segm, rl, **kw)
    M.close(f[0], f0[0], "plane", rtol=1e-6, atol=1e-7 * np.abs(pl).max() * 200 + 1e-6 * img.max(), msg="a plane leaks into the flux", kw=kw)
    M.close(f[1], f0[1], "plane", atol=1e-6, msg="a plane changes the area", kw=kw)
    f1 = pf.source_photometry(s, img + pl, segm, rl, **dict(kw, bg_sub=False))
    sel = (segm.data == int(s.label)) | ((segm.data == 0) & (not kw["mask_background"]))
    M.check(not np.allclose(f1[0], f0[0], rtol=1e-9) or abs(pl[sel]).max() < 1e-6 * img.max(), "no_sub", "background removed although bg_sub is off")
    M.event("plane_pairs")
    M.nontrivial("plane", kw["mask_background"], kw["cutout_size"] is None, int(np.log10(sc)))


def run_cutout(M, rng, case):
    img, cat, sd = scene(rng)
    s = pick(rng, cat)
    rl = list(rng.uniform(.7, 12, 4))
    err = np.abs(rng.normal(1, .3, img.shape))
    kw = dict(error=err, mask_background=bool(rng.random() < .3))
    base = pf.source_photometry(s, img, sd, rl, **kw)
    for size in (28, 29, 41, 60.0, 61, 150, 201):
        o = pf.source_photometry(s, img, sd, rl, cutout_size=size, **kw)
        for a, b, n in zip(base, o, ("flux", "area", "error")):
            M.close(b, a, "cutout", rtol=1e-9, atol=1e-9, msg="%s depends on the cutout size" % n, size=size)
        M.event("cutout_pairs")
    M.nontrivial("cutout", kw["mask_background"], int(s.label))


def run_badtype(M, rng, case):
    img, cat, sd = scene(rng, nsrc=1)
    M.rejects("reject", pf.source_photometry, cat[0], img, sd, [1, 3, 5], cutout_size=120, bg_sub=True, sigma_type=str(rng.choice(["", "clipp", "none"])), what="unknown sigma_type")
    pf.source_photometry(cat[0], img, sd, [1, 3, 5], cutout_size=120, bg_sub=True, sigma_type=str(rng.choice(["CLIP", "Bound"])))
    M.nontrivial("type", case["i"])

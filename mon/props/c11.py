"""C11 detection, deblending, catalogs: pixels recounted by own flood fill and loops."""
import numpy as np
import petrofit as pf
from astropy.wcs import WCS
from astropy.nddata import CCDData, Cutout2D
from photutils.segmentation import SourceCatalog
from .. import refs, gens

RULE = ("Source fields (isolated, touching, blended, noise only, negative, nan pixels), scalar and per-pixel thresholds, npixels 1-30, "
        "deblend on/off, plot on/off, arrays / CCDData / cutouts; every observed detection, deblending and catalog is recounted from "
        "pixels. Non-trivial: distinct (scene, threshold form, npixels, group count, split count).")
PLAN = {"quick": {"detect": 660, "catalog": 270, "empty": 120}, "thorough": {"detect": 5000, "catalog": 1500, "empty": 600}}
NEED = ["make_segments", "deblend_segments", "make_catalog", "splits", "none_found", "order_cat", "sky_judged", "per_pixel_threshold"]


def groups(img, thr, npix):
    with np.errstate(all="ignore"):
        lab = refs.components(np.asarray(img, float) > np.asarray(thr, float))
    n = np.bincount(lab.ravel(), minlength=lab.max() + 1)
    for k in range(1, len(n)):
        if n[k] < npix:
            lab[lab == k] = 0
    return lab


def same_partition(a, b):
    if not np.array_equal(a > 0, b > 0):
        return False
    sel = a > 0
    pairs = set(zip(a[sel].tolist(), b[sel].tolist()))
    return len(pairs) == len(set(a[sel].tolist())) == len(set(b[sel].tolist()))


def judge_segments(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.violate("raises", "make_segments raised %r" % ev.exc)
        return
    want = groups(a["image"], a["threshold"], a["npixels"])
    if np.ndim(a["threshold"]):
        M.event("per_pixel_threshold")
    if want.max() == 0:
        M.event("none_found")
        M.check(ev.result is None, "none", "something detected where nothing is above the threshold")
        return
    if not M.check(ev.result is not None, "some", "nothing detected", groups=int(want.max())):
        return
    M.check(same_partition(ev.result.data, want), "groups", "labels are not the connected groups above the threshold",
            npixels=a["npixels"], got=int(ev.result.nlabels), want=len(set(want.ravel())) - 1)


def judge_deblend(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.check(a["segm"] is None, "raises", "deblend_segments raised %r" % ev.exc)
        return
    if ev.result is None:
        return
    old, new = np.asarray(a["segm"].data), np.asarray(ev.result.data)
    M.check(np.array_equal(old > 0, new > 0), "same_pixels", "deblending changed the set of labelled pixels")
    sel = new > 0
    pairs = set(zip(new[sel].tolist(), old[sel].tolist()))
    n = len(set(new[sel].tolist()))
    M.check(len(pairs) == n, "no_merge", "a deblended label spans two groups")
    if n > len(set(old[sel].tolist())):
        M.event("splits")


def judge_catalog(M, ev):
    a = ev.args
    if ev.exc is not None:
        img = a["image"].data if hasattr(a["image"], "unit") or isinstance(a["image"], Cutout2D) else a["image"]
        M.check(groups(img, a["threshold"], a["npixels"]).max() == 0, "raises", "make_catalog raised %r" % ev.exc)
        return
    img = a["image"]
    img = np.asarray(img.data if isinstance(img, (CCDData, Cutout2D)) else img, float)
    cat, segm, sd = ev.result
    M.check((sd is not None) == bool(a["deblend"]), "deblend_flag", "deblended map presence")
    used = sd if a["deblend"] else segm
    check_cat(M, cat, used.data, img)
    sky = cat.sky_centroid
    if a["wcs"] is None:
        M.check(not hasattr(sky, "separation"), "no_sky", "sky positions without a wcs")
        return
    xy = np.atleast_2d(np.asarray(cat.centroid, float))
    ok = np.isfinite(xy).all(1)
    if ok.any() and M.check(hasattr(sky, "separation") and np.size(sky) == len(xy), "sky", "a catalog made with a wcs has no sky positions", deblend=bool(a["deblend"])):
        want = a["wcs"].pixel_to_world(*xy[ok].T)
        sep = np.atleast_1d(want.separation(sky[ok] if sky.shape else sky).arcsec)
        M.event("sky_judged", int(ok.sum()))
        M.check(sep.max() < 1e-4, "sky", "sky position is not that of the centroid", separation=sep.max())


def check_cat(M, cat, lab, img):
    labels = sorted(set(lab.ravel().tolist()) - {0})
    got = [int(v) for v in np.atleast_1d(cat.label)]
    if not M.check(sorted(got) == labels, "one_per_label", "catalog entries are not the labels of the map", got=got, want=labels):
        return
    for k in range(len(got)):
        s = cat[k]
        j, i = np.where(lab == int(s.label))
        v = img[j, i]
        M.check(abs(float(s.area.value) - np.isfinite(v).sum()) < .5, "area", "area", label=got[k], got=s.area.value, want=j.size)
        if not np.all(np.isfinite(v)):
            continue
        M.close(s.segment_flux, v.sum(), "flux", rtol=1e-9, atol=1e-9 * np.abs(v).sum(), msg="segment flux", label=got[k])
        mx, my = int(s.maxval_xindex), int(s.maxval_yindex)
        M.check(lab[my, mx] == got[k] and img[my, mx] == v.max(), "maximum", "maximum position is not the brightest pixel",
                label=got[k], pos=(mx, my), val=img[my, mx], want=v.max())
        bb = s.bbox
        M.check((bb.ixmin, bb.ixmax, bb.iymin, bb.iymax) == (i.min(), i.max() + 1, j.min(), j.max() + 1), "bbox", "bounding box")
        pos = pf.get_source_position(s)
        M.check((int(pos[0]), int(pos[1])) == (mx, my), "position", "get_source_position", got=pos, want=(mx, my))


def hooks(M):
    return {"make_segments": lambda ev: judge_segments(M, ev), "deblend_segments": lambda ev: judge_deblend(M, ev),
            "make_catalog": lambda ev: judge_catalog(M, ev)}


def scene(rng):
    style = str(rng.choice(["field", "blend", "noise", "touch", "checker", "nan"]))
    shape = (int(rng.integers(20, 60)), int(rng.integers(20, 60)))
    if style == "blend":
        img, src = gens.field(rng, shape, nsrc=1)
        x0, y0, a, e, t, amp = src[0]
        y, x = np.mgrid[:shape[0], :shape[1]]
        d = 2.2 * a
        img += amp * rng.uniform(.4, 1) * np.exp(-.5 * ((x - x0 - d) ** 2 + (y - y0 - rng.uniform(-2, 2)) ** 2) / (a * .6) ** 2)
    elif style == "noise":
        img = rng.normal(0, 1, shape)
    elif style == "touch":
        img = np.zeros(shape)
        for _ in range(6):
            y, x = rng.integers(1, shape[0] - 6), rng.integers(1, shape[1] - 6)
            img[y:y + rng.integers(1, 6), x:x + rng.integers(1, 6)] += rng.uniform(1, 5)
    elif style == "checker":
        img = (np.indices(shape).sum(0) % 2) * 2. - (rng.random(shape) < .5)
    else:
        img, _ = gens.field(rng, shape)
        if style == "nan":
            img[rng.random(shape) < .02] = np.nan
    return img, style


def threshold(rng, img):
    t = float(rng.choice([.5, 1, 2, 3])) * rng.uniform(.5, 1.5)
    if rng.random() < .4:
        return t * rng.uniform(.7, 1.3, img.shape), "map"
    return (t if rng.random() < .8 else int(np.ceil(t))), "scalar"


def run_detect(M, rng, case):
    img, style = scene(rng)
    thr, form = threshold(rng, img)
    npix = int(rng.choice([1, 2, 5, 9, 30]))
    keep = img.copy()
    segm = pf.make_segments(img, npixels=npix, threshold=thr)
    n = 0 if segm is None else segm.nlabels
    split = 0
    if segm is not None and style in ("field", "blend"):
        d0 = segm.data.copy()
        sd = pf.deblend_segments(img, segm, npixels=max(3, npix), nlevels=int(rng.choice([10, 30])), contrast=float(rng.choice([0, .001, .05, 1])))
        split = sd.nlabels - n
        M.check(np.array_equal(segm.data, d0), "segm_kept", "deblending modified the detection map")
    M.check(np.array_equal(img, keep, equal_nan=True), "image_kept", "image modified")
    M.nontrivial(style, form, npix, min(n, 9), min(split, 4))
    M.sample(style=style, npixels=npix, groups=n, split=split)


def run_catalog(M, rng, case):
    while True:
        img, style = scene(rng)
        if style in ("field", "blend"):
            break
    if rng.random() < .2:
        img = img * 10.0 ** rng.integers(-3, 4)
        thr, form = float(np.percentile(img, 90)), "scalar"
    else:
        thr, form = threshold(rng, img)
    npix, deblend = int(rng.choice([3, 8])), bool(rng.random() < .7)
    if groups(img, thr, npix).max() == 0:
        return
    if rng.random() < .2:                      # a pedestal: sources below zero, negative threshold
        ped = float(rng.choice([-20., 50., -thr.max() if np.ndim(thr) else -thr - .1]))
        img, thr = img + ped, thr + ped
        M.event("pedestal")
        if groups(img, thr, npix).max() == 0:
            return
    kw = dict(threshold=thr, npixels=npix, deblend=deblend)
    if rng.random() < .5:
        w = WCS(naxis=2)
        w.wcs.ctype, w.wcs.crpix, w.wcs.crval = ["RA---TAN", "DEC--TAN"], [10, 15], [rng.uniform(0, 360), rng.uniform(-70, 70)]
        sc, t = rng.uniform(1e-5, 1e-3), rng.uniform(0, 6)
        w.wcs.cd = sc * np.array([[-np.cos(t), np.sin(t)], [np.sin(t), np.cos(t)]])
        kw["wcs"] = w
    cat, segm, sd = pf.make_catalog(img, plot=False, **kw)
    forms = {"plot": lambda: pf.make_catalog(img, plot=True, **kw),
             "ccd": lambda: pf.make_catalog(CCDData(img, unit="adu"), plot=False, **kw),
             "cutout": lambda: pf.make_catalog(Cutout2D(img, (img.shape[1] // 2, img.shape[0] // 2), img.shape), plot=bool(rng.random() < .5), **kw)}
    for name, f in forms.items():
        c2, s2, d2 = f()
        M.check(np.array_equal(segm.data, s2.data) and (sd is None) == (d2 is None) and (sd is None or np.array_equal(sd.data, d2.data)),
                "same_maps", "maps differ with " + name)
        M.check(np.allclose(np.atleast_1d(cat.segment_flux), np.atleast_1d(c2.segment_flux), equal_nan=True), "same_catalog", "catalog differs with " + name)
    # ordering
    key = str(rng.choice(["area", "segment_flux", "max_value", "label", "xcentroid", "orientation", "min_value", "eccentricity", "orientation"]))
    rev = bool(rng.random() < .5)
    if not np.isscalar(cat.label) and len(np.atleast_1d(cat.label)) > 1:
        kws = {} if rng.random() < .2 else dict(key=key, reverse=rev)
        order = list(pf.order_cat(cat, **kws))
        key, rev = kws.get("key", "area"), kws.get("reverse", True)
        v = np.asarray(cat.to_table()[key], float)
        if np.isnan(v).any():
            return
        M.check(sorted(int(k) for k in order) == list(range(len(v))), "permutation", "order_cat is not a permutation", order=order)
        d = np.diff(v[[int(k) for k in order]])
        M.check(np.all(d <= 0) if rev else np.all(d >= 0), "sorted", "order_cat is not sorted by " + key, values=v, order=order, reverse=rev)
        M.event("order_cat")
    # rows and sources agree
    cols = ["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"]
    tab = cat.to_table(columns=cols)
    for k in range(len(np.atleast_1d(cat.label))):
        s, row = cat[k], tab[k]
        a, b = pf.get_source_position(s), pf.get_source_position(row)
        M.check(tuple(int(v) for v in a) == tuple(int(v) for v in b), "row_position", "position differs between source and row")
        deg = float(s.orientation.value)
        for name, f, want in (("elong", pf.get_source_elong, float(s.elongation.value)), ("ellip", pf.get_source_ellip, float(s.ellipticity.value)),
                              ("theta", pf.get_source_theta, np.deg2rad(deg))):
            for w, o in (("source", s), ("row", row)):
                g = f(o)
                if hasattr(g, "to_value"):
                    g = g.to_value("rad") if name == "theta" else g.value
                M.close(float(g), want, "geometry", rtol=1e-9, atol=1e-12, msg="%s of a %s" % (name, w))
        M.close(pf.get_source_elong(s), 1 / (1 - pf.get_source_ellip(s)), "geometry", rtol=1e-7, msg="elongation and ellipticity disagree")
    M.nontrivial("catalog", style, form, npix, deblend, len(np.atleast_1d(cat.label)))


def run_empty(M, rng, case):
    img = rng.normal(0, .1, (30, 34))
    M.check(pf.make_segments(img, npixels=5, threshold=50.0) is None, "none", "detected nothing expected")
    img[10, 10:13] = 99
    M.check(pf.make_segments(img, npixels=4, threshold=50.0) is None, "none", "group smaller than npixels detected")
    M.check(pf.make_segments(img, npixels=3, threshold=50.0) is not None, "some", "group of npixels pixels missed")
    img[5:8, 20:23] = 50.0                    # equal to the threshold is not above it
    M.check(pf.make_segments(img, npixels=4, threshold=50.0) is None, "none", "pixels equal to the threshold detected")
    M.nontrivial("empty", case["i"] % 4)

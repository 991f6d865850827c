"""C08 aperture sums: every observed radial_photometry call recomputed from exact pixel overlaps."""
import numpy as np
import petrofit as pf
from .. import refs, gens

RULE = ("Images (float64/32, ints, big-endian, with nan/inf junk under the mask), positions inside, fractional, near and beyond the "
        "border, elongations 1-8, all angles, unsorted radii, masks, error maps, exact/center; every observed call recomputed with "
        "overlaps from Green's theorem (own code). Non-trivial: distinct (method, mask, error, placement, dtype).")
PLAN = {"quick": {"direct": 660, "algebra": 240, "nan": 360, "source": 36},
        "thorough": {"direct": 5000, "algebra": 1800, "nan": 2500, "source": 200}}
NEED = ["radial_photometry", "radii_judged", "masked_junk", "nan_judged", "partial_apertures"]
ASSUME = ["Apertures for which photutils' own exact overlap differs from Green's theorem (pixel corners exactly on the ellipse) are "
          "not judged: that is the dependency's geometry, not petrofit's."]


def judge(M, ev):
    a = ev.args
    img = np.asarray(a["image"])
    if img.ndim != 2:
        return
    mask = a["mask"]
    used = np.ones(img.shape, bool) if mask is None else np.asarray(mask, bool)
    x, y = [float(v) for v in a["position"]]
    rl = [float(v) for v in a["r_list"]]
    nan = np.isnan(img) if img.dtype.kind == "f" else np.zeros(img.shape, bool)
    enan = np.zeros(img.shape, bool) if a["error"] is None else np.isnan(np.asarray(a["error"], float))
    if ev.exc is not None:
        # legitimate only if a nan is used by some aperture or an aperture misses the image
        ok = False
        for r in rl:
            W = refs.ellipse_weights(img.shape, x, y, r, r / a["elong"], a["theta"],
                                     "center" if a["method"] == "center" else "exact")
            if np.any((nan | enan) & used & (W > 0)) or W.sum() < 1e-6:
                ok = True
        M.check(ok, "raises", "raised %r without a nan in any aperture" % ev.exc, pos=(x, y), r=rl, elong=a["elong"], theta=a["theta"], shape=img.shape)
        M.event("nan_judged")
        return
    F, A, E = ev.result
    if not M.check(len(F) == len(A) == len(E) == len(rl), "length", "one result per radius"):
        return
    if a["method"] not in ("exact", "center"):
        return
    idx = range(len(rl))
    if sum(r * r for r in rl) > 4e4:            # large profiles: a sample of the radii
        pick = np.random.default_rng(len(rl)).choice(len(rl), min(3, len(rl)), replace=False)
        idx = [int(k) for k in pick if rl[int(k)] < 150]
    err = None if a["error"] is None else np.asarray(a["error"], float)
    fimg = img.astype(float)
    for k in idx:
        r = rl[k]
        ra, rb = r, r / a["elong"]
        W = refs.ellipse_weights(img.shape, x, y, ra, rb, a["theta"], a["method"])
        if a["method"] == "center":
            lo = refs.ellipse_weights(img.shape, x, y, ra * (1 - 1e-9), rb * (1 - 1e-9), a["theta"], "center")
            hi = refs.ellipse_weights(img.shape, x, y, ra * (1 + 1e-9), rb * (1 + 1e-9), a["theta"], "center")
            if not np.array_equal(lo, hi):
                M.event("edge_skipped")
                continue
        if a["method"] == "exact" and not refs.photutils_agrees(W, x, y, ra, rb, a["theta"]):
            M.event("photutils_degenerate")        # known to happen with pixel corners on the ellipse
            continue
        sel = used & (W > 0)
        if np.any(nan & used & (W > 1e-9)):
            M.check(np.isnan(F[k]), "nan_not_summed", "nan pixel silently summed", pos=(x, y), r=r)
            continue
        v = fimg[sel] * W[sel]
        scale = np.sum(np.abs(v)) if v.size else 0.0
        top = np.max(np.abs(fimg[sel])) if v.size else 0.0      # overlaps are good to ~1e-9
        wit = dict(pos=(x, y), r=r, elong=a["elong"], theta=a["theta"], method=a["method"], masked=int((~used).sum()), shape=img.shape)
        ok_in = np.all(np.isfinite(v))
        if ok_in:
            M.check(abs(F[k] - v.sum()) <= 2e-8 * scale + 1e-8 * top + 1e-300, "flux", "flux is not the weighted sum of unmasked pixels",
                    got=F[k], want=v.sum(), **wit)
        M.check(abs(A[k] - W[sel].sum()) <= 2e-6 + 3e-7 * W[sel].sum(), "area", "area is not the weighted number of unmasked pixels",
                got=A[k], want=W[sel].sum(), **wit)
        if err is None:
            M.check(np.isnan(E[k]), "error_nan", "error without error map", got=E[k])
        else:
            if np.any(enan & used & (W > 1e-6)):
                M.event("nan_errors")
                M.check(np.isnan(E[k]), "nan_not_summed", "nan error silently summed", got=E[k], **wit)
            q = err[sel] ** 2 * W[sel]
            if np.all(np.isfinite(q)):
                tope = np.max(err[sel] ** 2) if q.size else 0.0
                M.check(abs(E[k] ** 2 - q.sum()) <= 1e-7 * q.sum() + 1e-8 * tope, "error", "error is not the quadrature sum",
                        got=E[k], want=np.sqrt(q.sum()), **wit)
        M.event("radii_judged")
        if (x - r < -.5) or (y - r < -.5) or (x + r > img.shape[1] - .5) or (y + r > img.shape[0] - .5):
            M.event("partial_apertures")


def hooks(M):
    return {"radial_photometry": lambda ev: judge(M, ev)}


def setup(rng):
    ny, nx = int(rng.integers(12, 46)), int(rng.integers(12, 46))
    img = rng.normal(0, 1, (ny, nx)) * 10.0 ** rng.integers(-3, 4) + rng.uniform(-5, 20)
    place = str(rng.choice(["in", "int", "half", "border", "out"]))
    if place == "border":
        pos = (float(rng.choice([-.5, 0, nx - 1, nx - .5])), float(rng.uniform(0, ny)))
    elif place == "out":
        pos = (float(-rng.uniform(.5, 2)), float(ny + rng.uniform(-3, 1)))
    else:
        pos = (float(rng.uniform(3, nx - 3)), float(rng.uniform(3, ny - 3)))
        if place == "int":
            pos = (float(round(pos[0])), float(round(pos[1])))
        if place == "half":
            pos = (round(pos[0]) + .5, round(pos[1]) + .5)
    r = rng.uniform(.4, 16, int(rng.integers(1, 6)))
    if place == "out":
        r = r + 5
    if rng.random() < .5:
        r = np.sort(r)
    if rng.random() < .2:
        r = np.unique(np.maximum(1, r.astype(int)))
    mask = None
    if rng.random() < .6:
        mask = rng.random(img.shape) > rng.uniform(0, .6)
        if rng.random() < .1:
            mask[:] = False
    err = np.abs(rng.normal(1, .5, img.shape)) if rng.random() < .6 else None
    el = 1.0 if rng.random() < .3 else float(rng.uniform(1, 8))
    th = float(rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, rng.uniform(-7, 7)]))
    return img, pos, r, mask, err, el, th, place


def run_direct(M, rng, case):
    img, pos, r, mask, err, el, th, place = setup(rng)
    dt = "f8"
    u = rng.random()
    if u < .15:
        img = img.astype(np.float32); dt = "f4"
    elif u < .3:
        img = img.astype(">f8"); dt = "be"
    elif u < .4:
        img = np.round(img).astype(np.int32); dt = "i4"
    elif u < .45:
        img = np.clip(np.round(img), 0, 200).astype(np.uint8); dt = "u1"
    elif u < .5:
        img = np.asfortranarray(img); dt = "F"
    if mask is not None and img.dtype.kind == "f":
        img[~mask] = rng.choice([np.nan, np.inf, 1e30, 0])
        M.event("masked_junk")
        if err is not None and rng.random() < .6:
            err[~mask] = rng.choice([np.nan, 1e30])
    me = str(rng.choice(["exact", "exact", "exact", "center"]))
    kw = dict(error=err, mask=mask, elong=el, theta=th)
    if me != "exact" or rng.random() < .3:
        kw["method"] = me
    try:
        out = pf.radial_photometry(img, pos, list(r) if rng.random() < .3 else r, **kw)
    except Exception:
        M.event("refused")            # judged by the monitor
        return
    M.nontrivial(me, mask is None, err is None, place, dt)
    M.sample(pos=pos, r=r, elong=el, theta=th, flux=out[0], area=out[1], error=out[2])


def run_algebra(M, rng, case):
    img, pos, r, mask, err, el, th, place = setup(rng)
    if place == "out":
        return
    other = rng.normal(0, 3, img.shape)
    kw = dict(elong=el, theta=th)
    f1, a1, _ = pf.radial_photometry(img, pos, r, mask=mask, **kw)
    f2, a2, _ = pf.radial_photometry(other, pos, r, mask=mask, **kw)
    f3, a3, _ = pf.radial_photometry(img + other, pos, r, mask=mask, **kw)
    sc = np.abs(img).sum() + np.abs(other).sum()
    M.close(f3, f1 + f2, "additive", rtol=1e-9, atol=1e-12 * sc, msg="flux not additive in the image")
    M.close(a3, a1, "area_of_image", atol=1e-9, msg="area depends on the image")
    m = rng.random(img.shape) < .5
    base = np.ones(img.shape, bool) if mask is None else mask
    e0 = err if err is not None else np.ones(img.shape)
    g1 = pf.radial_photometry(img, pos, r, mask=base & m, error=e0, **kw)
    g2 = pf.radial_photometry(img, pos, r, mask=base & ~m, error=e0, **kw)
    g3 = pf.radial_photometry(img, pos, r, mask=base, error=e0, **kw)
    M.close(g1[0] + g2[0], g3[0], "masks_add", rtol=1e-9, atol=1e-12 * sc, msg="disjoint masks do not add up (flux)")
    M.close(g1[1] + g2[1], g3[1], "masks_add", atol=4e-6, msg="disjoint masks do not add up (area)")
    M.close(g1[2] ** 2 + g2[2] ** 2, g3[2] ** 2, "masks_add", rtol=1e-8, atol=1e-12, msg="disjoint masks do not add up (error)")
    perm = rng.permutation(len(r))
    h = pf.radial_photometry(img, pos, np.asarray(r)[perm], mask=base, error=e0, **kw)
    for a, b in zip(h, g3):
        M.close(a, b[perm], "order", rtol=1e-12, msg="results do not follow the given order of radii")
    M.nontrivial("algebra", mask is None, place, len(r))


def run_nan(M, rng, case):
    img, pos, r, mask, err, el, th, place = setup(rng)
    if place == "out":
        return
    where = img
    if err is not None and rng.random() < .6:
        where = err
    for _ in range(int(rng.integers(1, 4))):
        j, i = int(pos[1] + rng.normal(0, 4)), int(pos[0] + rng.normal(0, 4))
        where[np.clip(j, 0, img.shape[0] - 1), np.clip(i, 0, img.shape[1] - 1)] = np.nan
    try:
        pf.radial_photometry(img, pos, r, mask=mask, error=err, elong=el, theta=th)
    except Exception:
        pass
    M.nontrivial("nan", mask is None, place, len(r))
    M.event("nan_judged")


def run_source(M, rng, case):
    img, src = gens.field(rng, shape=(64, 58), nsrc=2, minsep=20)
    cat, segm, sd = pf.make_catalog(img, 1.0, deblend=False, npixels=8, plot=False)
    for s in cat:
        pf.source_photometry(s, img, segm, np.arange(1, 15, 3), error=np.ones(img.shape), bg_sub=True)
    M.nontrivial("source", len(cat))

"""C29 how numbers are stored (number type, byte order, memory layout, container) does not change an answer."""
import os, tempfile
import numpy as np
import petrofit as pf
from astropy.nddata import CCDData
from astropy.table import Table
from astropy.modeling import models as am
from photutils.segmentation import SegmentationImage, SourceCatalog
from .. import core
from . import c23

RULE = ("Every operation of the C23 pool on one set of values stored in two ways: double arrays against big-endian (as read from FITS), Fortran-ordered, strided, "
        "reversed, memory-mapped, read-only, single-precision and integer arrays, lists, tuples and arrays of numpy or Python scalars. Values are exactly "
        "representable in both. Results must agree to rounding of the type. Non-trivial: distinct (operation, options, storage).")
PLAN = {"quick": {"store": 200, "images": 150, "profiles": 100}, "thorough": {"store": 4000, "images": 4000, "profiles": 3000}}
NEED = ["pairs_judged", "storages"]
ASSUME = ["Single-precision inputs may cost single-precision rounding; decisions that hang on it (deblending) are not compared."]

ARRAYS = ["img", "err", "small", "nan_small", "weights", "bg", "gauss", "psf", "target", "ra", "rx", "pos_array", "r", "area", "flux", "ae", "fe", "prof", "perr", "elongs"]
EXACT = ["big", "fortran", "strided", "reversed", "memmap", "readonly", "list", "tuple", "scalars"]
CONTAINERS = ["list", "tuple", "scalars"]
SEQUENCES = ["photometry", "source_phot", "petro_new", "petro_read", "petro_copy", "profile", "petro_r", "fraction", "concentration", "interpolate"]   # take any sequence
SINGLE = ["f4", "big4"]
INTS = ["i2", "big_i2", "i4", "i8", "u2"]


def canonical(W, counts, turn=0.):
    """The pool with values a float32 (or int16) holds exactly."""
    for k in ARRAYS:
        W[k] = np.asarray(W[k], "f4").astype("f8")
    if counts:
        W["img"] = np.round(np.clip(W["img"], 0, None) * 20)
        W["gauss"], W["small"] = np.round(W["gauss"] * 50), np.round(np.clip(W["small"], 0, None) * 50)
        W["target"] = np.round(W["target"] * 5)
        W["psf"] = np.round(W["psf"] * 500)
        W["r"] = np.round(W["r"])
    W["rl"] = [float(v) for v in W["rl"]]
    return derive(W, turn=turn)


def derive(W, data=None, turn=0.):
    """Objects built from the arrays as they are stored now."""
    W["ccd"] = CCDData(W["img"], unit="adu", copy=False) if isinstance(W["img"], np.ndarray) else W["ccd"]
    if data is None:
        s = pf.make_segments(np.asarray(W["img"], float), npixels=5, threshold=float(np.percentile(W["img"], 85)))
        W["segm"] = s
        W["cat"] = SourceCatalog(np.asarray(W["img"], float), s)
        W["labels"] = [int(v) for v in s.labels[:2]]
        W["label_array"] = np.array(s.labels[::-1][:3])
    W["petro"] = pf.Petrosian(W["r"], W["area"], W["flux"], flux_err=W["fe"])
    W["wrap"] = pf.PSFConvolvedModel2D(am.Sersic2D(4, 4.5, 1., 12, 12, .25, .5), psf=W["psf"], oversample=2)
    W["wrap"].psf_pa = turn
    return W


def store(a, how, tmp):
    a = np.asarray(a)
    if how in ("list", "tuple", "scalars"):
        if a.ndim != 1:
            return a
        v = list(a) if how == "scalars" else a.tolist()
        return tuple(v) if how == "tuple" else v
    if how == "big":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(tuple(2 * n for n in a.shape), 77, a.dtype)
        b[tuple(slice(1, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(1, None, 2) for _ in a.shape)]
    if how == "reversed":
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return a[s].copy()[s]
    if how == "memmap":
        fd, p = tempfile.mkstemp(dir=tmp)
        os.close(fd)
        m = np.memmap(p, dtype=a.dtype, mode="w+", shape=a.shape)
        m[...] = a
        m.flush()
        return np.memmap(p, dtype=a.dtype, mode="r", shape=a.shape)
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    t = {"f4": "f4", "big4": ">f4", "i2": "i2", "big_i2": ">i2", "i4": "i4", "i8": "i8", "u2": "u2"}[how]
    ok = a.dtype.kind in "f" and (how in SINGLE or (np.isfinite(a).all() and np.array_equal(a, np.round(a)) and np.abs(a).max() < 3e4 and (how != "u2" or a.min() >= 0)))
    return a.astype(t) if ok else a


def restore(rng, W, how, tmp, turn=0.):
    part = rng.random() < .5                    # all arrays, or a random half of them
    for k in ARRAYS:
        if not part or rng.random() < .5:
            W[k] = store(W[k], how, tmp)
    if how in ("big", "strided", "fortran", "reversed", "readonly", "memmap"):
        W["segm"] = SegmentationImage(store(W["segm"].data, how, tmp))
        W["mask"] = store(W["mask"], how, tmp)
    if how in ("list", "tuple", "scalars", "f4", "big", "i4"):
        W["rl"] = tuple(W["rl"]) if how == "tuple" else [np.float64(v) for v in W["rl"]] if how == "scalars" else np.array(W["rl"], {"f4": "f4", "big": ">f8"}.get(how, "f8"))
        W["labels"] = [{"i4": np.int32, "f4": np.uint8, "big": np.int16}.get(how, np.int64)(v) for v in W["labels"]]
        W["pos"] = tuple(W["pos"]) if how == "tuple" else np.array(W["pos"]) if how != "f4" else W["pos"]
    return derive(W, W, turn)


def same(a, b, rtol, scale=None):
    if isinstance(a, np.ndarray) and isinstance(b, (list, tuple)):      # handed back as given
        b = np.asarray(b)
    if isinstance(b, np.ndarray) and isinstance(a, (list, tuple)):
        a = np.asarray(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(u, v, rtol) for u, v in zip(a, b))
    if isinstance(a, (np.ndarray, float, np.floating, int, np.integer)) and isinstance(b, (np.ndarray, float, np.floating, int, np.integer)) and not isinstance(a, bool):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "iub" and b.dtype.kind in "iub":
            return np.array_equal(a, b)
        if a.dtype.kind not in "iubf" or b.dtype.kind not in "iubf":
            return np.array_equal(a, b)
        a, b = a.astype(float), b.astype(float)
        f = np.abs(a[np.isfinite(a)])
        return np.allclose(b, a, rtol=rtol, atol=1e-12 + rtol * (f.max() if f.size and a.size > 1 else 0), equal_nan=True)
    return type(a) is type(b) and bool(np.all(a == b))


def loose(name, how):
    if how in SINGLE:
        return {"fit": 5e-2, "gaussian": 2e-2, "background": 2e-3, "petro_r": 2e-3, "petro_read": 2e-3, "petro_new": 2e-3, "petro_copy": 2e-3, "fraction": 2e-3,
                "concentration": 2e-3}.get(name, 5e-5)
    return 1e-4 if name in ("fit", "gaussian", "background") else 1e-9


def run_store(M, rng, case):
    how = (EXACT + SINGLE + INTS)[case["i"] % (len(EXACT) + len(SINGLE) + len(INTS))]
    counts = how in INTS or bool(rng.random() < .3)
    seed, sub = int(rng.integers(1 << 30)), int(rng.integers(1 << 30))
    names = sorted(set(c23.OPS) - {"generate", "plots"})
    turn = float([0., 30., -90., 200.][int(rng.integers(4))])
    tmp = tempfile.mkdtemp(prefix="c29_")
    try:
        A = canonical(c23.pool(seed), counts, turn)
        B = restore(np.random.default_rng(sub), canonical(c23.pool(seed), counts, turn), how, tmp, turn)
        M.event("storages")
        for _ in range(14):
            name, k = str(rng.choice(names)), int(rng.integers(16))
            if how in SINGLE and (name in ("deblend", "catalog") or (name == "fit" and k % 3 == 0)):
                continue                     # (the wrapped fit has a nearly free psf_pa)
            if how in CONTAINERS and name not in SEQUENCES:
                continue
            a, b = c23.call(A, name, k), c23.call(B, name, k)
            M.event("pairs_judged")
            M.check(same(a, b, loose(name, how)), "storage", "%s(%d) answers differently for values stored as %s" % (name, k, how), want=a, got=b, counts=counts)
            M.nontrivial(name, k, how)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    M.sample(how=how, counts=counts)


# ---- integer-valued images and profiles in every integer type, against the same values as doubles

def int_types(*arrays):
    lo, hi = min(float(np.min(a)) for a in arrays), max(float(np.max(a)) for a in arrays)
    out = [t for t in ("i1", "u1", "i2", ">i2", "u2", ">u2", "i4", ">i4", "u4", "i8", "u8", "f4", ">f4", ">f8") if t[-2] == "f" or (np.iinfo(t).min <= lo and hi <= np.iinfo(t).max)]
    return out


def image_op(rng, img, segm, cat, x0, y0):
    """(name, call(image), rtol): one thing to do with an image; everything else is drawn now."""
    r = sorted(set(int(v) for v in rng.integers(1, 15, 5)))
    pos, el, th = (x0 + rng.uniform(-.5, .5), y0 + rng.uniform(-.5, .5)), float(rng.uniform(1, 2)), float(rng.uniform(0, 3))
    method = str(rng.choice(["exact", "center", "subpixel"]))
    keep = rng.random(img.shape) < .9
    s = cat[int(rng.integers(len(cat)))]
    small = rng.integers(-400, 400, (int(rng.integers(2, 9)), int(rng.integers(2, 9))))
    cx, cy = int(rng.integers(5, img.shape[1] - 5)), int(rng.integers(5, img.shape[0] - 5))
    k = int(rng.integers(12))
    p0 = float(img.max())
    model = am.Sersic2D(p0, 4, 1., x0, y0, .1, .1, bounds=pf.get_default_sersic_bounds())
    float_of = lambda s: np.asarray(getattr(s, "data", s), float)
    if k == 0:
        return "photometry", lambda i: pf.radial_photometry(i, pos, r, mask=keep, elong=el, theta=th, method=method), 1e-9
    if k == 1:
        return "errors", lambda i: pf.radial_photometry(img, pos, r, error=np.abs(i) if i.dtype.kind != "u" else i, elong=el, theta=th, method=method), 1e-9
    if k == 2:
        kw = dict(bg_sub=bool(rng.random() < .7), sigma_type=str(rng.choice(["clip", "bound"])), mask_background=bool(rng.random() < .5), cutout_size=int(rng.integers(12, 40)))
        return "source", lambda i: pf.source_photometry(s, i, segm, r, **kw)[:3], 1e-5
    if k == 3:
        n, t = int(rng.integers(1, 6)), float(np.percentile(img, rng.uniform(60, 95)))
        return "segments", lambda i: [float_of(v) for v in [pf.make_segments(i, npixels=n, threshold=t)] if v is not None], 0
    if k == 4:
        n = int(rng.integers(1, 6))
        return "deblend", lambda i: float_of(pf.deblend_segments(i, segm, npixels=n)), 0
    if k == 5:
        return "background", lambda i: [pf.fit_background(i)[0].parameters, float_of(pf.fit_background(i)[1])] if 0 else pf.fit_background(i)[0].parameters, 1e-4
    if k == 6:
        return "gaussian", lambda i: pf.fit_gaussian2d(i).parameters, 2e-2
    if k == 7:
        return "model", lambda i: pf.fit_model(i, model, maxiter=60)[0].parameters, 5e-2
    if k == 8:
        return "amplitude", lambda i: pf.get_amplitude_at_r(3 + pos[0] % 1, i, x0, y0, .1, th), 1e-6
    if k == 9:
        st = str(rng.choice(int_types(small) + ["f8"]))
        return "cutout", lambda i: float_of(pf.cutout_subtract(i, small.astype(st), cx, cy)), 1e-6
    if k == 10:
        return "target", lambda i: float_of(pf.cutout_subtract(img, i[cy - 4:cy + 4, cx - 3:cx + 3], cx, cy)), 1e-6
    fill = [None, .5, -3, 70000, 0, 1, 255, -200, 1e9, np.float32(.25), np.inf][int(rng.integers(11))]
    mb = bool(rng.random() < .5)
    if rng.random() < .3:
        return "mask_ccd", lambda i: float_of(pf.masked_segm_image(s, CCDData(i, unit="adu"), segm, fill=fill, mask_background=mb)), 1e-6
    return "mask", lambda i: float_of(pf.masked_segm_image(s, i, segm, fill=fill, mask_background=mb)), 1e-6


def run_images(M, rng, case):
    n, m = int(rng.integers(41, 58)), int(rng.integers(41, 58))
    y, x = np.mgrid[:n, :m].astype(float)
    x0, y0 = m // 2 + int(rng.integers(-4, 5)), n // 2 + int(rng.integers(-4, 5))
    top = float(rng.choice([100, 230, 20000, 60000, 1e6]))
    img = top * np.exp(-np.hypot(x - x0, (y - y0) / .9) / rng.uniform(3, 6)) + .5 * top * np.exp(-np.hypot(x - x0 - 12, y - y0 + 9) / 2)
    img = img + rng.normal(0, top * .01, img.shape) + top * .05
    if top == 100 and rng.random() < .5:
        img -= 10
    img = np.round(np.clip(img, -128 if img.min() < 0 else 0, {100: 127, 230: 255, 20000: 32767, 60000: 65535}.get(top, 2e9)))
    segm = pf.make_segments(img, npixels=5, threshold=float(np.percentile(img, 85)))
    cat = SourceCatalog(img, segm)
    for _ in range(8):
        state = rng.bit_generator.state
        name, f, rtol = image_op(rng, img, segm, cat, x0, y0)
        want = None
        try:
            want = f(img.copy())
        except Exception as e:
            M.event("refused")
            continue
        for t in rng.choice(int_types(img), 3, replace=False):
            t = str(t)
            if t[-2] == "f" and name in ("deblend",):
                continue
            i = img.astype(t)
            try:
                got = f(i)
            except Exception as e:
                M.violate("integers", "%s raised %r for an image stored as %s" % (name, e, t), state=state)
                continue
            M.event("pairs_judged")
            # (fits: the minimiser may stop a step apart)
            M.check(same(want, got, max(rtol, 5e-5) if t in ("f4", ">f4") and rtol else rtol), "integers", "%s answers differently for an image stored as %s" % (name, t), want=want, got=got, peak=float(img.max()))
            M.check(i.dtype == np.dtype(t) and np.array_equal(i, img.astype(t)), "kept", "%s changed the image stored as %s" % (name, t))
            M.nontrivial("image", name, t)


def profile_op(rng, r, area, flux, fe, ae, pr):
    k = int(rng.integers(9))
    frac, rp = float(rng.uniform(.1, .9)), float(rng.uniform(10, 30))
    q = dict(r=r, area=area, flux=flux, fe=fe, ae=ae)
    read = lambda p: [p.r_petrosian, p.r_petrosian_err, p.r_half_light, p.r_half_light_err, p.total_flux, p.r_total_flux, p.c2080, p.fraction_flux_to_r(frac)]
    if k == 0:
        return "profile", lambda q: pf.calculate_petrosian(q["area"], q["flux"], q["ae"], q["fe"]), 1e-6
    if k == 1:
        return "fraction", lambda q: pf.fraction_to_r(frac, q["r"], q["flux"], rp, q["fe"], 1.), 1e-6
    if k == 2:
        return "concentration", lambda q: pf.calculate_concentration_index(.2, .8, q["r"], q["flux"], rp, q["fe"], 1.), 1e-6
    if k == 3:
        return "petrosian", lambda q: read(pf.Petrosian(q["r"], q["area"], q["flux"], q["ae"], q["fe"])), 1e-6
    if k == 4 and rng.random() < .3:          # a profile of whole numbers
        steps = np.repeat(np.arange(9, -1, -1), len(r) // 10 + 1)[:len(r)].astype(float)
        eta, kind = float(rng.uniform(.2, 7)), str(rng.choice(["cubic", "linear"]))
        return "whole_profile", lambda q: pf.calculate_petrosian_r(q["r"], (steps + 0 if q["r"].dtype == np.float64 else steps.astype(q["r"].dtype)).tolist() if q["flux"].dtype.kind == "f" else steps.astype(q["flux"].dtype), eta=eta, interp_kind=kind), 1e-6
    if k == 4:
        return "petrosian_r", lambda q: pf.calculate_petrosian_r(q["r"], pr[0], pr[1]), 1e-6
    if k == 5:
        e = [1, 2, 3, 1.5][int(rng.integers(4))]
        return "areas", lambda q: [np.asarray(v) for v in pf.elliptical_area_to_r(q["area"], e)] + [pf.circle_area_to_r(q["area"])], 1e-6
    if k == 6:
        kind = str(rng.choice(["cubic", "linear"]))
        return "interpolate", lambda q: pf.get_interpolated_values(q["r"], q["flux"], num=300, kind=kind), 1e-6
    if k == 7:
        v = int(rng.integers(1, 200))
        return "closest", lambda q: [-1 if j is None else int(j) for j in (pf.closest_value_index(v, q["area"], growing=True), pf.closest_value_index(v, q["area"][::-1]))], 0
    A, re, n = float(rng.integers(1, 9)), float(rng.uniform(2, 9)), float(rng.uniform(.5, 4))
    return "analytic", lambda q: [pf.sersic_enclosed(q["r"], A, re, n), pf.petrosian_profile(q["r"], re, n), pf.sersic_enclosed_inv(q["r"], A, re, n)], 1e-5


def run_profiles(M, rng, case):
    r = np.arange(1., int(rng.integers(45, 61)))
    top = float(rng.choice([200, 30000, 60000, 1e6]))
    s = rng.uniform(4, 8)
    area = np.round(np.pi * r ** 2)
    flux = np.round(top * (1 - np.exp(-r / s) * (1 + r / s)))
    if rng.random() < .5:
        flux[-10:] -= np.arange(10) * int(rng.integers(1, 4))
    fe, ae = np.round(np.sqrt(flux)) + 1, np.round(np.sqrt(area) / 3) + 1
    pr = pf.calculate_petrosian(area, flux, ae, fe)
    base = dict(r=r, area=area, flux=flux, fe=fe, ae=ae)
    for _ in range(8):
        name, f, rtol = profile_op(rng, r, area, flux, fe, ae, pr)
        want = f({k: v.copy() for k, v in base.items()})
        for _ in range(3):
            types = {k: (str(rng.choice(int_types(v))) if rng.random() < .6 else "f8") for k, v in base.items()}
            q = {k: v.astype(types[k]) for k, v in base.items()}
            try:
                got = f(q)
            except Exception as e:
                M.violate("integers", "%s raised %r for profiles stored as %s" % (name, e, types))
                continue
            M.event("pairs_judged")
            M.check(same(want, got, max(rtol, 2e-4) if rtol and any("f4" in t for t in types.values()) else rtol), "integers", "%s answers differently for profiles stored as %s" % (name, types), want=want, got=got)
            M.nontrivial("profile", name, types["flux"], types["area"])

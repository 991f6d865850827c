"""C10 segmentation masks: every observed segm_mask / masked_segm_image call recomputed pixel by pixel."""
import numpy as np
import petrofit as pf
from astropy.nddata import CCDData
from photutils.segmentation import SegmentationImage, SourceCatalog
from .. import gens

RULE = ("Label maps with consecutive, gappy and large labels and adjacent sources; requests as int, numpy integers, catalog source, "
        "lists of these (shared between calls), the background label 0; arrays and CCDData, several fills; every observed call "
        "recomputed per pixel. Non-trivial: distinct (request form, number requested, mask_background, fill, container).")
PLAN = {"quick": {"masks": 1200, "history": 450, "pipeline": 36},
        "thorough": {"masks": 12000, "history": 4000, "pipeline": 150}}
NEED = ["segm_mask", "masked_segm_image", "lists", "catalog_sources", "shared_calls"]


def valid(source):
    return isinstance(source, (int, np.integer, list)) or (isinstance(source, SourceCatalog) and source.isscalar)


def labels_of(source):
    def one(s):
        return int(s.label) if isinstance(s, SourceCatalog) else int(s)
    return {one(s) for s in source} if isinstance(source, list) else {one(source)}


def expected(source, data, bg):
    want = labels_of(source) | (set() if bg else {0})
    out = np.zeros(data.shape, bool)
    for lab in want:
        out |= data == lab
    return out


def judge_mask(M, ev):
    a = ev.args
    if not valid(a["source"]):
        return
    if ev.exc is not None:
        M.violate("raises", "segm_mask raised %r" % ev.exc, source=a["source"])
        return
    data = np.asarray(a["segm"].data)
    m = expected(a["source"], data, a["mask_background"])
    got = np.asarray(ev.result)
    M.check(got.shape == m.shape and got.dtype == bool and np.array_equal(got, m), "mask", "mask selects other pixels",
            source=a["source"], mask_background=a["mask_background"], extra=int((got & ~m).sum()) if got.shape == m.shape else None,
            missing=int((m & ~got).sum()) if got.shape == m.shape else None)
    if isinstance(a["source"], list):
        M.event("lists")
    if isinstance(a["source"], SourceCatalog):
        M.event("catalog_sources")


def judge_image(M, ev):
    a = ev.args
    if not valid(a["source"]):
        return
    if ev.exc is not None:
        M.violate("raises", "masked_segm_image raised %r" % ev.exc, source=a["source"])
        return
    m = expected(a["source"], np.asarray(a["segm"].data), a["mask_background"])
    src = a["image"]
    before = np.asarray(src.data if isinstance(src, CCDData) else src)
    got = ev.result
    M.check(type(got) is type(src), "container", "container changed", got=type(got).__name__)
    g = np.asarray(got.data if isinstance(got, CCDData) else got)
    fill = np.nan if a["fill"] is None else a["fill"]
    M.check(g.shape == before.shape and np.array_equal(g[m], before[m], equal_nan=True), "kept", "requested pixels changed")
    M.check(np.array_equal(g[~m], np.full((~m).sum(), fill, dtype=np.result_type(g.dtype, "f4")), equal_nan=True), "filled", "other pixels are not the fill value",
            fill=fill, image=str(before.dtype), result=str(g.dtype))
    if isinstance(src, CCDData):
        M.check(got is not src, "copy", "not a copy")
        M.check(got.unit == src.unit, "unit", "unit lost")


def hooks(M):
    return {"segm_mask": lambda ev: judge_mask(M, ev), "masked_segm_image": lambda ev: judge_image(M, ev)}


def labelmap(rng):
    ny, nx = int(rng.integers(8, 40)), int(rng.integers(8, 40))
    d = np.zeros((ny, nx), rng.choice([np.int32, np.int64]))
    style = rng.integers(3)
    k = int(rng.integers(1, 7))
    labs = (np.arange(1, k + 1) if style == 0 else np.sort(rng.choice(np.arange(1, 60), k, replace=False)) if style == 1
            else rng.integers(1000, 100000, k))
    labs = np.unique(labs)
    if style == 2 and rng.random() < .5:                 # labels that agree in their low bits
        labs = np.unique(rng.integers(1, 4) + rng.choice([1 << 8, 1 << 16, 1000], k) * rng.integers(0, 3, k))
    for lab in labs:
        y, x = rng.integers(0, ny - 3), rng.integers(0, nx - 3)
        d[y:y + rng.integers(2, 9), x:x + rng.integers(2, 9)] = lab
    return SegmentationImage(d), [int(v) for v in np.unique(d) if v]


def request(rng, labs, cat):
    def one():
        u = rng.integers(4)
        lab = labs[rng.integers(len(labs))]
        if u == 0:
            return lab
        if u == 1:
            return np.int64(lab)
        if u == 2:
            return np.int32(lab)
        return cat[int(rng.integers(len(cat)))] if cat is not None else lab
    form = rng.integers(5)
    if form < 3:
        return one(), "one"
    if form == 3:
        return [one() for _ in range(int(rng.integers(1, 4)))], "list"
    return (0, "background") if rng.random() < .5 else ([one(), 0], "list0")


def run_masks(M, rng, case):
    segm, labs = labelmap(rng)
    img = rng.normal(0, 1, segm.shape)
    cat = SourceCatalog(img, segm)
    src, form = request(rng, labs, cat)
    bg = bool(rng.random() < .5)
    fill = [None, 0.0, -99.0, np.nan, 1e9, .25, 7][rng.integers(7)]
    kind = "f8"
    if rng.random() < .3:                   # counts, single precision, FITS byte order
        kind = str(rng.choice(["i2", ">i2", "i4", "u2", "i8", "f4", ">f4"]))
        img = np.round(img * 100 + 500).astype(kind)
    image = img if rng.random() < .6 else CCDData(img.copy(), unit="adu")
    keep, d0 = img.copy(), segm.data.copy()
    n0 = len(src) if isinstance(src, list) else None
    r = pf.masked_segm_image(src, image, segm, fill=fill, mask_background=bg)
    M.check(np.array_equal(np.asarray(image.data if isinstance(image, CCDData) else image), keep), "image_kept", "input image modified")
    M.check(np.array_equal(segm.data, d0), "segm_kept", "segmentation modified")
    if n0 is not None:
        M.check(len(src) == n0, "list_kept", "caller's list modified", source=src)
    rd = r.data if isinstance(r, CCDData) else r
    rd[:] = 7                               # result is independent of the input
    M.check(np.array_equal(np.asarray(image.data if isinstance(image, CCDData) else image), keep), "independent", "result shares memory with the input")
    pf.segm_mask(src, segm, bg)
    M.nontrivial(form, len(labels_of(src)), bg, repr(fill), type(image).__name__, kind)
    M.sample(labels=labs, source=src, mask_background=bg, fill=fill)


def run_history(M, rng, case):
    """Interleaved calls sharing lists, images and maps."""
    segm, labs = labelmap(rng)
    img = rng.normal(0, 1, segm.shape)
    cat = SourceCatalog(img, segm)
    pool = [[labs[0]], [labs[-1], np.int64(labs[0])], [cat[0]], labs[0], cat[-1]]
    keep = [list(p) if isinstance(p, list) else p for p in pool]
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(len(pool)))
        bg = bool(rng.random() < .5)
        if rng.random() < .5:
            pf.segm_mask(pool[k], segm, mask_background=bg)
        else:
            pf.masked_segm_image(pool[k], img, segm, mask_background=bg)
        M.event("shared_calls")
        for p, q in zip(pool, keep):
            if isinstance(p, list):
                M.check(len(p) == len(q), "list_kept", "caller's list modified", source=p)
        # judged against the request as the caller wrote it
        got = pf.segm_mask(pool[k], segm, mask_background=bg)
        M.check(np.array_equal(got, expected(keep[k], segm.data, bg)), "history", "mask depends on earlier calls")
        M.nontrivial("history", k, bg)


def run_pipeline(M, rng, case):
    img, _ = gens.field(rng, shape=(60, 64), nsrc=3, minsep=15)
    cat, segm, sd = pf.make_catalog(img, 1.0, deblend=True, npixels=6, plot=False)
    pf.source_photometry(cat[0], img, sd, [2, 5, 9], bg_sub=True, mask_background=bool(rng.random() < .5))
    M.nontrivial("pipeline", len(cat))

"""C18 background fits: which pixels enter, and the plane that comes out."""
import numpy as np
import petrofit as pf
from astropy.modeling import models, fitting
from astropy.stats import sigma_clip
from .. import refs, gens

RULE = ("Planes of any slope and scale on rectangular images with noise, bright/dark compact sources, nan and masked pixels; sigma "
        "1.5-6 or None; LinearLSQ, TRF, LevMar, LMLSQ; plane, constant and quadratic models; calls interleaved so that a modified "
        "default model would show. Every observed fit_background call is compared with lstsq through an own sigma clipping. Non-trivial: "
        "distinct (fitter, model, sigma class, contamination, nan/mask).")
PLAN = {"quick": {"plane": 750, "sources": 360, "fitters": 180}, "thorough": {"plane": 6000, "sources": 3000, "fitters": 1500}}
NEED = ["fit_background", "judged", "clipped_pixels", "fitter_pairs", "default_model_checked"]
ASSUME = ["Clipping repeats median +- sigma*std at most five times, the documented default of astropy's sigma_clip; the final limits decide which pixels survive."]
FITTERS = [fitting.LinearLSQFitter, fitting.TRFLSQFitter, fitting.LevMarLSQFitter, fitting.LMLSQFitter]


def survivors(image, sigma):
    """Own clipping -> boolean map; None when rounding decides about a pixel."""
    m = np.ma.getmaskarray(image) if isinstance(image, np.ma.MaskedArray) else np.zeros(np.shape(image), bool)
    d = np.asarray(np.ma.getdata(image), float)
    keep = ~m & np.isfinite(d) if sigma is not None else ~m & ~np.isnan(d)
    if sigma is None:
        return keep
    valid = keep
    for _ in range(5):
        v = d[keep]
        c, s = np.median(v), np.std(v)
        tol = 1e-9 * max(np.abs(v).max(), 1e-300)
        dev = np.abs(d - c)
        near = valid & (np.abs(dev - sigma * s) <= tol)
        if near.any():
            return None
        new = keep & (dev <= sigma * s)
        if new.sum() == keep.sum():
            break
        keep = new
    last = valid & (dev <= sigma * s)
    return last


def design(model, i, j):
    if isinstance(model, models.Planar2D):
        return np.stack([i, j, np.ones(i.size)], 1)
    if isinstance(model, models.Const2D):
        return np.ones((i.size, 1))
    if isinstance(model, models.Polynomial2D):
        return np.stack([i ** int(n[1:].split("_")[0]) * j ** int(n[1:].split("_")[1]) for n in model.param_names], 1)
    return None


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        return
    img = a["image"]
    ok = survivors(img, a["sigma"])
    if ok is None:
        M.event("ambiguous")
        return
    d = np.asarray(np.ma.getdata(img), float)
    j, i = np.where(ok)
    A = design(a["model"], i.astype(float), j.astype(float))
    if A is None or A.shape[0] <= A.shape[1] or np.linalg.matrix_rank(A / np.maximum(np.abs(A).max(0), 1e-300)) < A.shape[1]:
        return
    sc = np.maximum(np.abs(A).max(0), 1e-300)
    sol = np.linalg.lstsq(A / sc, d[ok], rcond=None)[0]
    jj, ii = np.mgrid[:d.shape[0], :d.shape[1]].astype(float)
    want = (design(a["model"], ii.ravel(), jj.ravel()) / sc @ sol).reshape(d.shape)
    got = np.broadcast_to(ev.result[0](ii, jj), d.shape)
    # iterative fitters stop at a relative tolerance
    lin = a["fitter"] is fitting.LinearLSQFitter
    top = np.abs(want[ok]).max() + np.std(d[ok])
    M.event("judged")
    M.event("clipped_pixels", int((~ok).sum()))
    M.check(np.allclose(got[ok], want[ok], rtol=0, atol=1e-8 * top if lin else 3e-5 * top + 1e-8 * sum(d.shape)), "plane", "not the least-squares background through the surviving pixels",
            sigma=a["sigma"], fitter=a["fitter"].__name__, model=type(a["model"]).__name__, shape=d.shape, worst=float(np.abs(got - want)[ok].max()), scale=float(top), survivors=int(ok.sum()))


def hooks(M):
    return {"fit_background": lambda ev: judge(M, ev)}


def scene(rng):
    ny, nx = int(rng.integers(6, 50)), int(rng.integers(6, 50))
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    sc = 10.0 ** rng.integers(-4, 5)
    c = rng.normal(size=3) * np.array([.1, .1, 5]) * sc * rng.choice([0, 1, 1, 1], 3)
    return ny, nx, ii, jj, sc, c


DEFAULT = models.Planar2D().parameters.copy()


def run_plane(M, rng, case):
    ny, nx, ii, jj, sc, c = scene(rng)
    plane = c[0] * ii + c[1] * jj + c[2]
    noisy = rng.random() < .7
    img = plane + (rng.normal(0, rng.uniform(.01, 1) * sc, plane.shape) if noisy else 0)
    kind = str(rng.choice(["clean", "nan", "masked", "float32", "int"]))
    if noisy and rng.random() < .5:
        k = int(rng.integers(1, 4))
        img[rng.integers(0, ny, k), rng.integers(0, nx, k)] += rng.choice([-1, 1]) * 10 ** rng.uniform(1, 3.5) * sc
    give = img.copy()
    if kind == "nan":
        give[rng.random(img.shape) < .15] = np.nan
    elif kind == "masked":
        m = rng.random(img.shape) < .2
        give = np.ma.array(np.where(m, 1e8 * sc, img), mask=m)
    elif kind == "float32":
        give = img.astype(np.float32).astype(float)
    elif kind == "int":
        give = np.round(img / sc * 20).astype(int)
    sigma = None if rng.random() < .25 else float(rng.uniform(1.5, 6) if rng.random() < .7 else rng.uniform(5, 12))
    fitter = FITTERS[0] if rng.random() < .5 else FITTERS[int(rng.integers(4))]
    kw = {}
    if rng.random() < .5:
        kw["model"] = [models.Planar2D(), models.Polynomial2D(2), models.Const2D()][int(rng.integers(2 if fitter is FITTERS[0] else 3))]
    if rng.random() < .8 or fitter is not FITTERS[0]:       # (astropy's linear fitter can not fit Const2D)
        kw["fitter"] = fitter
    if sigma != 3.0:
        kw["sigma"] = sigma
    if rng.random() < .3:
        kw.pop("sigma", None)
        sigma = 3.0
    keep = give.copy()
    before = kw["model"].parameters.copy() if "model" in kw else None
    try:
        bg, inst = pf.fit_background(give, **kw)
    except Exception as e:
        ok = survivors(give, sigma)
        if ok is not None and ok.sum() <= 6:
            return
        raise
    M.check(np.array_equal(np.ma.getdata(give), np.ma.getdata(keep), equal_nan=kind != "int"), "inputs", "image modified")
    M.check(isinstance(inst, kw.get("fitter", fitting.LinearLSQFitter)), "fitter", "fitter returned is not the one that ran")
    if before is not None:
        M.check(np.array_equal(kw["model"].parameters, before), "inputs", "model modified")
    if not noisy and kind in ("clean", "nan") and sigma is None and type(kw.get("model", models.Planar2D())) is not models.Const2D:
        t = np.abs(plane).max()
        M.close(bg(ii, jj), plane, "exact_plane", rtol=0, atol=(1e-9 if kw.get("fitter", FITTERS[0]) is FITTERS[0] else 1e-5) * t + 1e-8 * (nx + ny) * (kw.get("fitter", FITTERS[0]) is not FITTERS[0]) + 1e-300, msg="exact plane not reproduced")
    # a later call with the default model starts from the same defaults
    if rng.random() < .3:
        z = np.zeros((5, 6)) + 2.5
        b2, _ = pf.fit_background(z, sigma=None)
        M.close(b2.parameters, [0, 0, 2.5], "default_model", rtol=0, atol=1e-9, msg="default model remembers an earlier image")
        import inspect
        f = getattr(pf.fit_background, "__verif_original__", pf.fit_background)
        d = inspect.signature(f).parameters["model"].default
        if d is not None:
            M.check(np.array_equal(d.parameters, DEFAULT), "default_model", "default model modified", got=d.parameters)
        M.event("default_model_checked")
    M.nontrivial(kw.get("fitter", FITTERS[0]).__name__, type(kw.get("model")).__name__, sigma is None, kind, noisy)
    M.sample(kw={k: repr(v)[:60] for k, v in kw.items()}, params=bg.parameters)


def run_sources(M, rng, case):
    """Sources far above the noise leave no trace: any values there give the same plane."""
    ny, nx = int(rng.integers(24, 60)), int(rng.integers(24, 60))
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    noise = rng.normal(0, 1, (ny, nx))
    plane = rng.normal() * 100 + rng.normal() * .005 * ii + rng.normal() * .005 * jj
    img = plane + noise
    bad = np.zeros(img.shape, bool)
    for _ in range(int(rng.integers(1, 4))):
        y, x, r = int(rng.integers(ny)), int(rng.integers(nx)), int(rng.integers(1, 4))
        bad |= (ii - x) ** 2 + (jj - y) ** 2 <= r * r
    if bad.mean() > .12:
        return
    sign = rng.choice([1, -1])
    sigma = float(rng.uniform(3, 4) if rng.random() < .6 else rng.uniform(4, 9))
    a, b, n = img.copy(), img.copy(), img.copy()
    a[bad] += sign * rng.uniform(100, 120, bad.sum())
    b[bad] += sign * rng.uniform(100, 120, bad.sum())
    n[bad] = np.nan
    ka, kn = survivors(a, sigma), survivors(n, sigma)
    kb = survivors(b, sigma)
    if ka is None or kn is None or kb is None or not (np.array_equal(ka, kn) and np.array_equal(kb, kn)):
        return
    p = [pf.fit_background(v, sigma=sigma)[0](ii, jj) for v in (a, b, n)]
    M.close(p[1], p[0], "sources", rtol=0, atol=1e-7, msg="values of clipped pixels influence the background")
    M.close(p[2], p[0], "sources_nan", rtol=0, atol=1e-7, msg="clipped sources and nan pixels give different backgrounds")
    M.check(np.abs(p[0] - plane).max() < 1.5, "near_truth", "background far from the true plane", worst=np.abs(p[0] - plane).max())
    M.nontrivial("sources", int(bad.sum() // 10), int(sign))


def run_fitters(M, rng, case):
    ny, nx, ii, jj, sc, c = scene(rng)
    img = c[0] * ii + c[1] * jj + c[2] + rng.normal(0, .3 * sc, ii.shape)
    sigma = None if rng.random() < .3 else float(rng.uniform(2, 4))
    img[ny // 2, nx // 3] += 1e3 * sc
    res = [pf.fit_background(img, sigma=sigma, fitter=f)[0](ii, jj) for f in FITTERS]
    t = np.abs(res[0]).max() + (1e3 * sc if sigma is None else sc)
    for f, r in zip(FITTERS[1:], res[1:]):
        M.close(r, res[0], "fitters_agree", rtol=0, atol=3e-5 * t + 1e-8 * (nx + ny), msg="%s gives another background than the linear fitter" % f.__name__, sigma=sigma)
        M.event("fitter_pairs")
    M.nontrivial("fitters", sigma is None, ny > nx)

"""C17 fitting: pixels, weights, constraints and recovery, with an own least-squares solver as referee."""
import copy
import numpy as np
import petrofit as pf
from scipy.optimize import least_squares
from astropy.modeling import models, fitting
from .. import refs, gens
from . import c14

RULE = ("Noiseless and noisy rectangular images of Gaussian, Sersic, compound, PSF-wrapped, Moffat and linear models with nan/masked/"
        "zero-weight pixels, weights, fixed/bounded/tied parameters and every usable fitter. Linear fits are compared with weighted "
        "lstsq, non-linear ones with an own least_squares run on the same pixels from the same start; hidden pixel values are changed "
        "in paired runs. Each observed fit_model call is monitored for constraints and chi-square. Non-trivial: distinct (model, fitter, "
        "pixel selection, weights, constraint).")
PLAN = {"quick": {"linear": 375, "recover": 150, "pixels": 150, "constraints": 175, "effort": 120, "real": 1},
        "thorough": {"linear": 4000, "recover": 1200, "pixels": 1200, "constraints": 1500, "effort": 1000, "real": 2}}
NEED = ["fit_model", "linear_judged", "recoveries", "hidden_pairs", "fixed_judged", "bounds_judged", "tied_judged", "uncertainties", "effort_judged"]
ASSUME = ["Recovery is demanded where the astropy fitter handed the valid pixels, columns as x, recovers the truth from the same start."]
NL = [fitting.TRFLSQFitter, fitting.LevMarLSQFitter, fitting.LMLSQFitter]
BOUNDED = [fitting.TRFLSQFitter, fitting.LevMarLSQFitter]      # MINPACK's lm ignores bounds


def valid_pixels(image):
    m = np.ma.getmaskarray(image) if isinstance(image, np.ma.MaskedArray) else np.zeros(np.shape(image), bool)
    d = np.asarray(np.ma.getdata(image), float)
    return ~m & ~np.isnan(d), d


def chi2(model, image, weights):
    ok, d = valid_pixels(image)
    j, i = np.where(ok)
    w = 1.0 if weights is None else np.asarray(weights, float)[ok]
    with np.errstate(all="ignore"):
        return float(np.sum((w * (model(i.astype(float), j.astype(float)) - d[ok])) ** 2))


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        return
    r = ev.result
    if not M.check(isinstance(r, tuple) and len(r) == 2, "returns", "fit_model does not return (model, fitter)"):
        return
    fit, inst = r
    start = a["model"]
    M.check(isinstance(inst, a["fitter"]) and bool(getattr(inst, "fit_info", None)), "fitter", "returned fitter is not the instance that ran", got=repr(inst)[:80])
    M.check(fit is not start and tuple(fit.param_names) == tuple(start.param_names), "new_model", "no new model of the same parameters")
    anyb = any(b != (None, None) for b in start.bounds.values())
    lm = a["fitter"] is fitting.LMLSQFitter and anyb         # astropy leaves that combination inconsistent
    for n in start.param_names:
        v, v0 = float(getattr(fit, n).value), float(getattr(start, n).value)
        lo, hi = start.bounds[n]
        if start.fixed[n]:
            M.event("fixed_judged")
            M.check(v == v0, "fixed", "fixed %s changed" % n, got=v, want=v0)
        elif start.tied[n] and not lm:
            M.event("tied_judged")
            t = float(np.ravel(start.tied[n](fit))[0])
            M.check(abs(v - t) <= 1e-9 * max(abs(t), 1), "tied", "%s does not satisfy its tie" % n, got=v, want=t, fitter=a["fitter"].__name__, bounds=dict(start.bounds), fit=fit.parameters)
        elif (lo is not None or hi is not None) and a["fitter"] in BOUNDED:
            M.event("bounds_judged")
            M.check((lo is None or v >= lo - 1e-12 * abs(lo)) and (hi is None or v <= hi + 1e-12 * abs(hi)), "bounds", "%s left its bounds" % n, got=v, bounds=(lo, hi), fitter=a["fitter"].__name__)
    inb = all((b[0] is None or getattr(start, n).value >= b[0]) and (b[1] is None or getattr(start, n).value <= b[1]) for n, b in start.bounds.items())
    if inb and not lm and not any(start.tied.values()):
        c0, c1 = chi2(start, a["image"], a["weights"]), chi2(fit, a["image"], a["weights"])
        if np.isfinite(c0):
            M.check(c1 <= c0 * (1 + 1e-6) + 1e-20, "chi2", "the fit is worse than its start on the valid pixels", start=c0, end=c1, fitter=a["fitter"].__name__)


def hooks(M):
    return {"fit_model": lambda ev: judge(M, ev)}


def hide(rng, img, how):
    """-> image variant, weights with hidden pixels, mask of hidden"""
    bad = rng.random(img.shape) < rng.choice([.03, .2, .5])
    if how == "block":
        bad = np.zeros(img.shape, bool)
        bad[:img.shape[0] // 3, img.shape[1] // 2:] = True
    return bad


def run_linear(M, rng, case):
    ny, nx = int(rng.integers(4, 40)), int(rng.integers(4, 40))
    deg = int(rng.integers(0, 4))
    if deg == 0:
        m = models.Planar2D(*rng.normal(size=3))
        cols = lambda i, j: np.stack([i, j, np.ones(i.size)], 1)
    else:
        m = models.Polynomial2D(deg)
        cols = lambda i, j: np.stack([i ** a * j ** b for n in m.param_names for a, b in [tuple(int(v) for v in n[1:].split("_"))]], 1)
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    truth = m.copy()
    truth.parameters = rng.normal(size=len(m.parameters)) * 10.0 ** rng.integers(-3, 4)
    img = truth(ii, jj)
    noisy = rng.random() < .6
    if noisy:
        img = img + rng.normal(0, .1 * np.std(img) + 1e-3, img.shape)
    bad = hide(rng, img, "rand")
    if (~bad).sum() < 2 * len(m.parameters) + 3:
        bad[:] = False
    w = rng.uniform(.1, 5, img.shape) if rng.random() < .6 else None
    how = str(rng.choice(["nan", "masked", "none", "int"]))
    give = img.copy()
    if how == "nan":
        give[bad] = np.nan
    elif how == "masked":
        give = np.ma.array(img.copy(), mask=bad)
        give.data[bad] = rng.choice([1e9, -1e9, np.nan])
    elif how == "int":
        give = np.round(img * 10).astype(int)
        img = give.astype(float)
    if how in ("none", "int"):
        bad[:] = False
    keep = give.copy()
    wk = None if w is None else w.copy()
    p0 = m.parameters.copy()
    cu = bool(rng.random() < .3)
    fit, inst = pf.fit_model(give, m, weights=w, fitter=fitting.LinearLSQFitter, calc_uncertainties=cu)
    ok = ~bad
    j, i = np.where(ok)
    A = cols(i.astype(float), j.astype(float))
    ww = np.ones(i.size) if w is None else w[ok]
    if np.linalg.matrix_rank(A) < A.shape[1]:
        return
    sol = np.linalg.lstsq(A / np.abs(A).max(0) * ww[:, None], img[ok] * ww, rcond=None)[0] / np.abs(A).max(0)
    pred, want = A @ fit.parameters, A @ sol
    M.event("linear_judged")
    M.close(pred, want, "linear", rtol=1e-7, atol=1e-8 * np.abs(want).max() + 1e-12, msg="not the weighted least-squares solution over the valid pixels",
            how=how, weights=w is not None, shape=(ny, nx), params=fit.parameters, sol=sol)
    if not noisy and how != "int":
        M.close(fit(ii, jj), truth(ii, jj), "linear_truth", rtol=1e-6, atol=1e-6 * np.abs(truth(ii, jj)).max(), msg="noiseless linear model not recovered")
    M.check(np.array_equal(np.ma.getdata(give), np.ma.getdata(keep), equal_nan=how != "int") and np.array_equal(np.ma.getmaskarray(give), np.ma.getmaskarray(keep))
            and (w is None or np.array_equal(w, wk)) and np.array_equal(m.parameters, p0), "inputs", "inputs modified")
    if cu:
        M.event("uncertainties")
        M.check(getattr(fit, "stds", None) is not None and getattr(fit, "cov_matrix", None) is not None, "uncertainties", "no uncertainties although asked for")
    M.nontrivial("linear", deg, how, w is None, noisy, ny > nx)


def nl_model(rng, nx, ny, kind=None):
    k = kind or str(rng.choice(["gauss", "sersic", "compound", "psf", "moffat"]))
    c = lambda: dict(x_0=nx / 2 + rng.uniform(-.2, .2) * nx, y_0=ny / 2 + rng.uniform(-.2, .2) * ny)
    ser = lambda: models.Sersic2D(amplitude=rng.uniform(1, 20), r_eff=rng.uniform(2.5, 5), n=rng.uniform(.7, 2.5), ellip=rng.uniform(.2, .6), theta=rng.uniform(.2, 1.3),
                                  bounds=pf.get_default_sersic_bounds(), **c())
    if k == "gauss":
        p = c()
        return k, models.Gaussian2D(rng.uniform(1, 20), p["x_0"], p["y_0"], rng.uniform(1.5, 2.2), rng.uniform(2.8, 4), theta=rng.uniform(.2, 1.2))
    if k == "sersic":
        return k, ser()
    if k == "compound":
        p = c()
        return k, models.Gaussian2D(rng.uniform(2, 9), p["x_0"], p["y_0"], 1.5, 2.5, theta=.4) + models.Planar2D(rng.normal() * .05, rng.normal() * .05, rng.normal())
    if k == "moffat":
        p = c()
        return k, models.Moffat2D(rng.uniform(1, 9), p["x_0"], p["y_0"], rng.uniform(2, 4), rng.uniform(1.5, 3))
    m = pf.PSFConvolvedModel2D(ser(), psf=gens.psf(rng, n=5, style=1), oversample=[None, 2, ("x_0", "y_0", 6, 3)][int(rng.integers(3))])
    m.fixed["psf_pa"] = True
    return k, m


def nudge(rng, m, amount=.06):
    s = m.copy()
    for n in s.param_names:
        v = float(getattr(m, n).value)
        if s.fixed[n] or s.tied[n]:
            continue
        if n.startswith(("x_", "y_")) and not n.startswith(("x_stddev", "y_stddev")):
            v += rng.uniform(-.4, .4)
        elif n == "theta":
            v += rng.uniform(-.1, .1)
        else:
            v = v * (1 + rng.uniform(-amount, amount)) + (.01 if v == 0 else 0)
        setattr(s, n, v)
    return s


def own_fit(start, img, w, ok):
    """Free-parameter least squares on the chosen pixels."""
    j, i = np.where(ok)
    i, j = i.astype(float), j.astype(float)
    free = [n for n in start.param_names if not start.fixed[n] and not start.tied[n]]
    m = start.copy()
    ww = np.ones(i.size) if w is None else w[ok]

    def res(p):
        for n, v in zip(free, p):
            setattr(m, n, v)
        r = ww * (np.asarray(m(i, j)).ravel() - img[ok])
        return np.where(np.isfinite(r), r, 1e10)
    p0 = [float(getattr(start, n).value) for n in free]
    lo = [-np.inf if start.bounds[n][0] is None else start.bounds[n][0] for n in free]
    hi = [np.inf if start.bounds[n][1] is None else start.bounds[n][1] for n in free]
    try:
        s = least_squares(res, p0, bounds=(lo, hi), x_scale=np.maximum(np.abs(p0), .1), max_nfev=400, xtol=1e-12, ftol=1e-12, gtol=1e-12)
    except Exception:
        return None
    return dict(zip(free, s.x)), float(np.sum(res(s.x) ** 2))


def direct(image, start, weights=None, fitter=fitting.TRFLSQFitter, calc_uncertainties=False, estimate_jacobian=False):
    """astropy's fitter itself on the valid pixels, x along columns."""
    ok, d = valid_pixels(image)
    j, i = np.where(ok)
    return fitter(calc_uncertainties=calc_uncertainties)(
        start, i, j, d[ok], weights=None if weights is None else weights[ok], maxiter=5000,
        epsilon=fitting.DEFAULT_EPS, acc=fitting.DEFAULT_ACC, estimate_jacobian=estimate_jacobian)


def attempt(M, image, start, weights=None, fitter=fitting.TRFLSQFitter, **kw):
    """
    The fit, or None when the optimiser itself runs into non-finite values: then astropy's fitter on
    the same valid pixels must fail too.
    """
    try:
        return pf.fit_model(image, start, weights=weights, fitter=fitter, **kw)
    except (fitting.NonFiniteValueError, ValueError) as e:
        try:
            direct(image, start, weights, fitter, **kw)
        except (fitting.NonFiniteValueError, ValueError):
            M.event("optimiser_diverged")
            return None
        raise


def run_recover(M, rng, case):
    nx, ny = int(rng.integers(18, 28)), int(rng.integers(14, 24))
    if rng.random() < .5:
        nx, ny = ny, nx
    kind, truth = nl_model(rng, nx, ny)
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    img = np.asarray(truth(ii, jj))
    start = nudge(rng, truth)
    bad = hide(rng, img, "block" if rng.random() < .3 else "rand") if rng.random() < .6 else np.zeros(img.shape, bool)
    w = rng.uniform(.5, 2, img.shape) if rng.random() < .5 else None
    give = img.copy()
    give[bad] = np.nan
    fitter = NL[int(rng.integers(3))] if rng.random() < .6 else None
    kw = {} if fitter is None else {"fitter": fitter}
    if rng.random() < .25:
        kw["estimate_jacobian"] = True
    keep, p0, c0 = give.copy(), start.parameters.copy(), (dict(start.fixed), dict(start.bounds), dict(start.tied))
    cu = bool(rng.random() < .3)
    got = attempt(M, give, start, weights=w, calc_uncertainties=cu, **kw)
    if got is None:
        return
    fit, inst = got
    M.check(np.array_equal(give, keep, equal_nan=True) and np.array_equal(start.parameters, p0) and (dict(start.fixed), dict(start.bounds), dict(start.tied)) == c0,
            "inputs", "image or input model modified by the fit")
    res = np.abs(np.asarray(fit(ii, jj)) - img)[~bad].max() / np.abs(img).max()
    M.event("recoveries")
    if res > 1e-4:
        try:
            d = direct(give, start, w, **kw)
            good = np.abs(np.asarray(d(ii, jj)) - img)[~bad].max() < 1e-5 * np.abs(img).max()
        except ValueError:
            good = False
        M.check(not good, "recover", "the truth is not recovered from a nearby start (the fitter given the valid pixels does)", residual=res, model=kind, fitter=str(kw), truth=truth.parameters, got=fit.parameters)
        if not good:
            M.event("hard_starts")
    else:
        M.check(True, "recover")
        if kind in ("gauss", "sersic", "moffat", "psf"):
            for n in truth.param_names:
                if n in ("theta", "psf_pa"):
                    continue
                t, g = float(getattr(truth, n).value), abs(float(getattr(fit, n).value)) if n == "x_stddev" or n == "y_stddev" or n == "gamma" else float(getattr(fit, n).value)
                M.check(abs(t - g) < .03 * max(abs(t), 1), "recover_params", "%s not recovered" % n, got=g, want=t, model=kind, residual=res)
    if cu:
        M.event("uncertainties")
        M.check(getattr(fit, "stds", None) is not None, "uncertainties", "no uncertainties although asked for", fitter=str(kw))
    M.nontrivial(kind, fitter and fitter.__name__, bad.any(), w is None, nx > ny)
    M.sample(kind=kind, truth=truth.parameters, fit=fit.parameters)


def run_pixels(M, rng, case):
    """Hidden pixels (nan, masked, weight zero) have no influence; noisy optimum equals an own one."""
    nx, ny = int(rng.integers(16, 24)), int(rng.integers(13, 20))
    kind, truth = nl_model(rng, nx, ny, str(rng.choice(["gauss", "sersic", "compound", "moffat"])))
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    img = np.asarray(truth(ii, jj)) + rng.normal(0, .02, (ny, nx))
    start = nudge(rng, truth, .03)
    bad = hide(rng, img, "block" if rng.random() < .4 else "rand")
    wb = rng.uniform(.5, 2, img.shape) if rng.random() < .5 else np.ones(img.shape)
    fitter = NL[int(rng.integers(3))]
    hostile = rng.normal(0, 1e3, bad.sum())
    a = img.copy(); a[bad] = np.nan
    got = attempt(M, a, start, weights=wb, fitter=fitter)
    if got is None:
        return
    ref, out = got[0], {}
    x = img.copy(); x[bad] = hostile
    out["masked"] = pf.fit_model(np.ma.array(x, mask=bad), start, weights=wb, fitter=fitter)[0]
    x2 = img.copy(); x2[bad] = -hostile * 3
    out["masked2"] = pf.fit_model(np.ma.array(x2, mask=bad), start, weights=wb, fitter=fitter)[0]
    wz = wb.copy(); wz[bad] = 0
    z1 = attempt(M, x, start, weights=wz, fitter=fitter)
    z2 = attempt(M, x2, start, weights=wz, fitter=fitter)
    if z1 is None or z2 is None:
        return
    z1, z2 = z1[0], z2[0]
    for n in ("masked", "masked2"):
        M.close(out[n].parameters, ref.parameters, "hidden", rtol=1e-9, msg="pixels under a mask influence the fit", how=n, fitter=fitter.__name__, model=kind)
    M.close(z1.parameters, z2.parameters, "hidden_weight", rtol=1e-9, msg="pixels of weight zero influence the fit", fitter=fitter.__name__)
    M.event("hidden_pairs", 3)
    c = [chi2(q, a, wb) for q in (ref, z1)]
    bounded = any(b != (None, None) for b in start.bounds.values())
    if fitter is fitting.TRFLSQFitter or not bounded:
        for q, cq, rule in ((ref, c[0], "optimum"), (z1, c[1], "optimum_zero")):
            o = own_fit(q, img, wb, ~bad)
            if o is not None:
                M.event("optima_judged")
                M.check(cq <= o[1] * (1 + 2e-3), rule, "not a weighted least-squares optimum over the valid pixels", got=cq, want=o[1], fitter=fitter.__name__, model=kind)
    # scaling all weights changes nothing
    s = attempt(M, a, start, weights=wb * 3, fitter=fitter)
    if s is not None and (fitter is fitting.TRFLSQFitter or not bounded):
        M.check(chi2(s[0], a, wb) <= c[0] * (1 + 2e-3), "weight_scale", "result depends on the scale of the weights")
    M.nontrivial("pixels", kind, fitter.__name__, float(np.round(bad.mean(), 1)))


def tie_xy(m):
    return m.y_0.value + 1.5 if hasattr(m, "y_0") else m.y_mean.value + 1.5


def run_constraints(M, rng, case):
    nx, ny = int(rng.integers(16, 24)), int(rng.integers(13, 20))
    kind, truth = nl_model(rng, nx, ny, str(rng.choice(["gauss", "sersic", "moffat", "psf"])))
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    img = np.asarray(truth(ii, jj)) + rng.normal(0, .01, (ny, nx))
    start = nudge(rng, truth)
    fitter = NL[int(rng.integers(3))]
    names = [n for n in start.param_names if n != "psf_pa"]
    what = str(rng.choice(["fixed", "bounds", "tied", "mixed"]))
    xn = "x_0" if "x_0" in names else "x_mean"
    if what in ("fixed", "mixed"):
        for n in rng.choice(names, 2, replace=False):
            start.fixed[str(n)] = True
    if what in ("bounds", "mixed"):
        for n in rng.choice(names, 2, replace=False):
            n = str(n)
            v, t = float(getattr(start, n).value), float(getattr(truth, n).value)
            d = max(abs(v) * .02, .02)
            start.bounds[n] = (v - d, v + d) if rng.random() < .6 else ((v - d, None) if t < v else (None, v + d))
    if what in ("tied", "mixed") and not start.fixed[xn]:
        start.tied[xn] = tie_xy
        start.bounds[xn] = (None, None)
    st = (start.parameters.copy(), dict(start.fixed), dict(start.bounds), dict(start.tied))
    got = attempt(M, img, start, fitter=fitter, weights=rng.uniform(.5, 2, img.shape) if rng.random() < .3 else None)
    if got is None:
        return
    fit = got[0]
    M.check(np.array_equal(start.parameters, st[0]) and (dict(start.fixed), dict(start.bounds), dict(start.tied)) == st[1:], "inputs", "input model modified")
    M.check((dict(fit.fixed), dict(fit.bounds)) == st[1:3], "carried", "fitted model lost its constraints")
    M.nontrivial("constraints", kind, fitter.__name__, what)


class Counted(models.Gaussian2D):
    """A model that records how often it is evaluated."""
    count = 0
    derivs = 0

    @staticmethod
    def evaluate(*a):
        Counted.count += 1
        return models.Gaussian2D.evaluate(*a)

    @staticmethod
    def fit_deriv(*a):
        Counted.derivs += 1
        return models.Gaussian2D.fit_deriv(*a)


def run_effort(M, rng, case):
    """maxiter, acc, epsilon and estimate_jacobian reach the fitter: same effort and same outcome as the fitter alone."""
    nx, ny = int(rng.integers(16, 24)), int(rng.integers(13, 20))
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    truth = models.Gaussian2D(rng.uniform(3, 9), nx * rng.uniform(.4, .6), ny * rng.uniform(.4, .6), rng.uniform(1.5, 2.5), rng.uniform(3, 4), theta=rng.uniform(.2, 1.2))
    img = truth(ii, jj) + rng.normal(0, .02, ii.shape)
    img[rng.random(img.shape) < .04] = np.nan
    p = truth.parameters * rng.uniform(.8, 1.25, 6)
    fitter = NL[int(rng.integers(3))]
    what = str(rng.choice(["maxiter", "maxiter", "acc", "epsilon", "none"]))
    opt = {"maxiter": dict(maxiter=int(rng.integers(1, 120))), "acc": dict(acc=float(10 ** rng.uniform(-4, -1))),
           "epsilon": dict(epsilon=float(10 ** rng.uniform(-4, -1))), "none": {}}[what]
    if what == "epsilon" or rng.random() < .5:
        opt["estimate_jacobian"] = True
    w = rng.uniform(.5, 2, img.shape) if rng.random() < .5 else None
    ok = ~np.isnan(img)
    j, i = np.where(ok)
    full = dict(dict(maxiter=5000, acc=fitting.DEFAULT_ACC, epsilon=fitting.DEFAULT_EPS, estimate_jacobian=False), **opt)
    Counted.count = Counted.derivs = 0
    try:
        ref = fitter()(Counted(*p), i, j, img[ok], weights=None if w is None else w[ok], **full)
    except ValueError:
        return
    n0, d0 = Counted.count, Counted.derivs
    Counted.count = Counted.derivs = 0
    fit, inst = pf.fit_model(img, Counted(*p), weights=w, fitter=fitter, **opt)
    n1, d1 = Counted.count, Counted.derivs
    M.event("effort_judged")
    c0, c1, cs = chi2(ref, img, w), chi2(fit, img, w), chi2(Counted(*p), img, w)
    wit = dict(options=opt, fitter=fitter.__name__, evaluations=(n0, n1), chi2=(c0, c1, cs))
    M.check((d1 > 0) == (d0 > 0), "jacobian", "estimate_jacobian does not reach the fitter: the derivative %s taken from the model" % ("is" if d1 else "is not"), derivatives=(d0, d1), **wit)
    M.check(n1 <= 1.5 * n0 + 4, "effort", "more work than the options allow the fitter", **wit)
    M.check(c1 <= c0 + .02 * (cs - c0) + 1e-6 * c0 + 1e-12, "effort_outcome", "worse than the fitter with the same options", **wit)
    M.nontrivial("effort", what, fitter.__name__, w is None, "estimate_jacobian" in opt, n0 // 10)


def run_real(M, rng, case):
    """The documented workflow on shipped data: example_sersic.fits (a Sersic galaxy)."""
    import os
    from astropy.io import fits
    from .. import core
    path = os.path.join(core.REPO, "docs", "data", "example_sersic.fits.gz")
    if not os.path.exists(path):
        M.event("real_missing")
        return
    d = fits.getdata(path)
    d = np.asarray(d, float)
    c = d[d.shape[0] // 2 - 40: d.shape[0] // 2 + 40, d.shape[1] // 2 - 40: d.shape[1] // 2 + 40]
    m = models.Sersic2D(amplitude=float(np.nanmean(c)), r_eff=20, n=1.5, x_0=40, y_0=40, ellip=.1, theta=.1, bounds=pf.get_default_sersic_bounds())
    m.x_0.bounds = (30, 50)
    m.y_0.bounds = (30, 50)
    fit, _ = pf.fit_model(c, m, maxiter=200)
    o = own_fit(fit, c, None, ~np.isnan(c))
    M.event("real_fits")
    if o is not None:
        M.check(chi2(fit, c, None) <= o[1] * 1.02 + 1e-9, "real_optimum", "fit of the shipped galaxy can be improved", got=chi2(fit, c, None), want=o[1])
    M.nontrivial("real", case["i"])

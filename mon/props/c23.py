"""C23 inputs stay as they were, and the same call gives the same answer whatever happened before."""
import io, os, copy, contextlib, tempfile, shutil, glob
import numpy as np
import petrofit as pf
from astropy.io import fits
from astropy.modeling import models as am
from astropy.nddata import CCDData, Cutout2D
from astropy.table import Table
from astropy.wcs import WCS
from .. import refs, gens, api, core
from . import c20

RULE = ("Histories of 25-40 randomly chosen public calls (photometry, masking, detection, fitting, rendering, Petrosian, correction, conversion, plotting) that share one "
        "pool of arrays, lists, images, segmentation maps, catalogs, models and tables. Every argument of every public function, also of calls made inside petrofit, is "
        "fingerprinted before and after; the whole pool after every step; and every step is repeated alone and in another order on an equal fresh pool and compared. "
        "Also whole pipelines on the repository's example images, each run twice around unrelated calls. Non-trivial: distinct ordered pairs of consecutive calls.")
PLAN = {"quick": {"history": 60, "pipeline": 4}, "thorough": {"history": 1000, "pipeline": 12}}
NEED = ["steps", "replayed", "pool_checks", "world_checks", "read_only"]
ASSUME = ["What belongs to matplotlib (axes passed to plots) may change.", "Repeated results agree exactly or to 1e-9 relative."]


def hooks(M):
    def star(ev):
        M.event("calls_fingerprinted")
        ax = [n for n in ev.mutated if n not in ("ax", "axs")]
        M.check(not ax, "mutation", "%s changed its argument(s) %s" % (ev.name, ax), depth=ev.depth, function=ev.name, exc=ev.exc)
    return {"*": star}


# ------------------------------------------------------------------ pool
def pool(seed):
    rng = np.random.default_rng(seed)
    W = {}
    img, src = gens.field(rng, shape=(60, 72), nsrc=3, minsep=14)
    W["img"], W["int_img"] = img, np.round(img * 10).astype(int)
    W["ccd"] = CCDData(img.copy(), unit="adu")
    W["err"] = np.abs(rng.normal(.05, .01, img.shape))
    W["mask"] = rng.random(img.shape) > .05
    W["segm"] = pf.make_segments.__wrapped__(img, npixels=5, threshold=1.) if hasattr(pf.make_segments, "__wrapped__") else pf.make_segments(img, npixels=5, threshold=1.)
    from photutils.segmentation import SourceCatalog
    W["cat"] = SourceCatalog(img, W["segm"])
    W["rl"] = [float(v) for v in np.arange(1., 15, 1.5)]
    W["ra"] = np.arange(1., 15, 1.)
    W["labels"] = [int(v) for v in W["segm"].labels[:2]]
    W["pos"] = [src[0][0], src[0][1]]
    W["rx"] = rng.permutation(np.arange(1.5, 12, 2.5))          # in no order
    W["ri"] = rng.permutation(np.arange(2, 12, 3))
    W["label_array"] = np.array(W["segm"].labels[::-1][:3])
    W["pos_array"] = np.array(W["pos"])
    r, area, flux, _ = gens.curve(rng, np.arange(1., 40))
    W["r"], W["area"], W["flux"] = r, area, flux
    W["ae"], W["fe"] = area * .01, np.abs(flux) * .02 + 1e-6
    W["prof"], W["perr"] = refs.profile(area, flux, W["ae"], W["fe"])
    W["petro"] = pf.Petrosian(r, area, flux, flux_err=W["fe"])
    W["sp"] = c20.profile(1.5, 8.)
    W["grid"] = c20.grid_of([(n, s) for n in (.8, 1.5, 2.4) for s in (5., 8., 12.)])
    W["pc"] = pf.PetrosianCorrection(W["grid"], enforce_range=False)
    y, x = np.mgrid[:25, :25]
    W["small"] = refs.sersic2d(x, y, 5, 4, 1.2, 12.2, 11.8, .3, .6) + rng.normal(0, .02, x.shape)
    W["nan_small"] = W["small"].copy()
    W["nan_small"][3:5, 4] = np.nan
    W["weights"] = np.full(W["small"].shape, 20.)
    W["bg"] = .3 + .01 * x - .02 * y + rng.normal(0, .01, x.shape)
    W["bg"][10:14, 9:13] += 40
    W["gauss"] = 9 * np.exp(-.5 * (((x - 12.3) / 2.6) ** 2 + ((y - 11.6) / 3.4) ** 2))
    W["model"] = am.Sersic2D(4, 4.5, 1., 12, 12, .25, .5, bounds=pf.get_default_sersic_bounds({"x_0": (8, 16), "y_0": (8, 16)}), fixed={"n": True})
    W["psf"] = gens.psf(rng, 5, 1)
    W["wrap"] = pf.PSFConvolvedModel2D(am.Sersic2D(4, 4.5, 1., 12, 12, .25, .5), psf=W["psf"], oversample=2)
    W["bgm"] = am.Polynomial2D(1)
    W["over"] = {"n": (.4, 5)}
    W["header"] = {"PHOTFLAM": 3e-20, "PHOTZPT": -21.1, "PHOTPLAM": 10552.}
    W["fluxes"] = [1., 20, 0, -3, 5e4]
    W["coords"] = [rng.uniform(0, 360, 6), rng.uniform(-60, 60, 6), rng.uniform(0, 360, 9), rng.uniform(-60, 60, 9)]
    w = WCS(naxis=2)
    w.wcs.crpix, w.wcs.crval, w.wcs.ctype = [30, 30], [150., 2.], ["RA---TAN", "DEC--TAN"]
    w.wcs.cdelt, w.wcs.cunit = [-.06 / 3600, .06 / 3600], ["deg", "deg"]
    W["wcs"] = w
    W["names"] = ["img10.fits", "img2.fits", "IMG1.fits", "b"]
    W["target"] = rng.normal(0, 1, (5, 4))
    W["apers"] = [pf.radial_elliptical_aperture((20., 20.), 5., 1.5, .3)]
    W["size"] = [25, 23]
    W["elongs"] = rng.uniform(1, 4, 5)
    W["cutout"] = Cutout2D(img, (30, 30), 31)
    return W


def norm(o, depth=0):
    """The numbers of a result."""
    from astropy.modeling import Model
    from photutils.segmentation import SegmentationImage, SourceCatalog
    from matplotlib.artist import Artist
    if depth > 5 or o is None:
        return None
    if isinstance(o, pf.Petrosian):
        return [norm(getattr(o, k)) for k in ("r_list", "area_list", "flux_list", "petrosian_list", "epsilon", "eta", "r_petrosian", "r_petrosian_err", "r_half_light", "r_total_flux", "total_flux", "c2080")]
    if isinstance(o, Model):
        return [type(o).__name__, list(o.param_names), np.array(o.parameters), repr(dict(o.fixed)), repr(dict(o.bounds))]
    if isinstance(o, SegmentationImage):
        return o.data.copy()
    if isinstance(o, SourceCatalog):
        return [np.atleast_1d(o.label), np.atleast_1d(o.segment_flux), np.atleast_1d(o.area.value)]
    if isinstance(o, Table):
        return [np.asarray(o[c]) for c in o.colnames]
    if isinstance(o, Artist) or hasattr(o, "fit_info") or hasattr(o, "ax"):
        return None
    if isinstance(o, (CCDData, Cutout2D)):
        return np.array(o.data)
    if hasattr(o, "bbox") and hasattr(o, "do_photometry"):
        return [np.array(o.positions), getattr(o, "a", None), getattr(o, "b", None), float(np.asarray(getattr(o.theta, "value", o.theta)))]
    if isinstance(o, np.ma.MaskedArray):
        return [np.ma.getmaskarray(o), np.ma.filled(o, 0)]
    if hasattr(o, "unit") and hasattr(o, "value"):
        return np.asarray(o.value)
    if isinstance(o, np.ndarray):
        return [norm(v, depth + 1) for v in o.ravel()] if o.dtype == object else o.copy()
    if isinstance(o, (list, tuple)):
        return [norm(v, depth + 1) for v in o]
    if isinstance(o, dict):
        return [(k, norm(v, depth + 1)) for k, v in o.items()]
    if isinstance(o, (str, int, float, bool, np.generic)):
        return o
    if hasattr(o, "colnames"):
        return [np.asarray(o[c]) for c in o.colnames]
    return type(o).__name__


def alike(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(u, v) for u, v in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return np.allclose(a, b, rtol=1e-9, atol=1e-12 * (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 0), equal_nan=True)
        return np.array_equal(a, b)
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        try:
            return bool(np.isclose(a, b, rtol=1e-9, atol=0, equal_nan=True))
        except TypeError:
            return False
    return a == b


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


# each op: (W, k) -> result ; k is a small random integer selecting options
@op
def photometry(W, k):
    return pf.radial_photometry(W["ccd"].data if k % 2 else W["img"], W["pos"] if k < 9 else W["pos_array"], W[["ra", "rl", "rx", "ri", "rl"][k % 5]], error=W["err"] if k & 4 else None, mask=W["mask"] if k & 8 else None,
                                elong=1 + k / 10, theta=k / 5, method=["exact", "center"][k % 5 == 0])


@op
def source_phot(W, k):
    s = W["cat"][k % len(W["cat"])]
    return pf.source_photometry(s, W["img"], W["segm"], W[["rl", "rx"][k % 5 == 1]], error=W["err"] if k & 1 else None, bg_sub=bool(k & 2), sigma_type="clip" if k & 4 else "bound",
                                sigma=3. if k & 4 else .5, mask_background=bool(k & 8), cutout_size=[None, 41, 50][k % 3])


@op
def mask(W, k):
    return pf.segm_mask([W["labels"], W["labels"][0], W["cat"][0], [W["cat"][0], int(W["labels"][-1])], W["label_array"]][k % 5], W["segm"], mask_background=bool(k & 4))


@op
def masked_image(W, k):
    return pf.masked_segm_image(W["labels"] if k & 1 else W["cat"][0], W["ccd"] if k & 2 else W["img"], W["segm"], fill=[None, 0., -9.][k % 3], mask_background=bool(k & 4))


@op
def detect(W, k):
    return pf.make_segments(W["ccd"] if k & 1 else W["img"], npixels=4 + k % 3, threshold=1. if k & 2 else W["err"] * 30)


@op
def deblend(W, k):
    return pf.deblend_segments(W["img"], W["segm"], npixels=5, nlevels=8 + k % 4, contrast=.01)


@op
def catalog(W, k):
    return pf.make_catalog(W["ccd"] if k & 1 else W["img"], 1., wcs=W["wcs"] if k & 8 else None, deblend=bool(k & 2), npixels=5, nlevels=8, plot=bool(k & 4))


@op
def order(W, k):
    return [int(s.label) for s in np.atleast_1d(np.array(pf.order_cat(W["cat"], key=["area", "segment_flux", "max_value"][k % 3], reverse=bool(k & 1)), dtype=object))] \
        if False else [int(v) for v in pf.order_cat(W["cat"], key=["area", "segment_flux", "max_value"][k % 3], reverse=bool(k & 1))]


@op
def geometry(W, k):
    s = W["cat"][k % len(W["cat"])]
    return [pf.get_source_position(s), pf.get_source_elong(s), pf.get_source_ellip(s), pf.get_source_theta(s)]


@op
def isophote(W, k):
    return pf.get_amplitude_at_r(4 + k % 3, [W["small"], CCDData(W["small"], unit="adu")][k % 2], 12.2, 11.8, .3, .6)


@op
def plots(W, k):
    j = k % 9
    if j == 0:
        return pf.plot_segments(W["segm"], image=W["img"])
    if j == 1:
        return pf.plot_segment_residual(W["segm"], W["img"])
    if j == 2:
        return pf.plot_target(W["img"], W["pos"], size=20)
    if j == 3:
        return pf.plot_apertures(W["img"], W["apers"])
    if j == 4:
        return norm(pf.plot_fit(W["model"], W["small"])[2:])
    if j == 5:
        W["petro"].plot()
        W["petro"].plot_cog()
        return W["petro"].imshow()
    if j == 6:
        return W["pc"].plot_correction(W["sp"]) and None
    if j == 7:
        return pf.mpl_tick_frame()
    return pf.plot_apertures(image=W["img"])


@op
def fit(W, k):
    from astropy.modeling import fitting
    m = W["model"] if k % 3 else W["wrap"]
    f = [None, fitting.LevMarLSQFitter, fitting.TRFLSQFitter][k % 3]
    kw = {} if f is None else dict(fitter=f)
    return pf.fit_model(W["small"] if k & 1 else W["nan_small"], m, maxiter=60, weights=W["weights"] if k & 4 else None, **kw)[0]


@op
def background(W, k):
    return pf.fit_background(W["bg"], *([W["bgm"]] if k & 1 else []), sigma=[3.0, 2.0, None][k % 3])[0]


@op
def gaussian(W, k):
    with contextlib.redirect_stdout(io.StringIO()):
        return pf.fit_gaussian2d(W["gauss"]) if k & 1 else pf.measure_fwhm(W["gauss"], plot=bool(k & 2), printout=bool(k & 4))


@op
def printing(W, k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pf.print_model_params(W["model"])
    return out.getvalue()


@op
def render(W, k):
    return pf.model_to_image(W["wrap"] if k & 1 else W["model"], W["size"] if k & 2 else 25, mode="center" if k & 4 else "oversample", factor=1 if k & 1 else 3, center=(12, 12) if k & 8 else None)


@op
def wrap(W, k):
    w = pf.PSFConvolvedModel2D(W["model"], psf=W["psf"] if k & 1 else None, oversample=[None, 2, (12, 12, 8, 4)][k % 3])
    x, y = pf.make_grid(14 + k % 3, origin=(5, 6))
    r = w(x, y)
    return [r, w.model, w, w.copy()(x, y)]


@op
def wrapped_eval(W, k):
    x, y = np.meshgrid(np.arange(12. + k % 5), np.arange(12. + k % 5))
    return W["wrap"](x + k % 3, y)


@op
def bounds(W, k):
    b = (pf.get_default_sersic_bounds if k & 1 else pf.get_default_gen_sersic_bounds)(*([W["over"]] if k & 2 else []))
    out = norm(b)
    b["n"] = (-1, 1)          # what a caller may do with a result
    return out


@op
def theory(W, k):
    r = W["ra"]
    return [pf.sersic_enclosed(r, 5., 4., 1 + k % 4, .2), pf.sersic_enclosed_inv(np.array([.1, .5]), 5., 4., 1 + k % 4), pf.petrosian_profile(r, 4., 1 + k % 4), pf.Ie_to_I0(3., 2.) if hasattr(pf, "Ie_to_I0") else 0,
            pf.PetroApprox.c2080_to_n(r / 4), pf.PetroApprox.p0502_to_epsilon(r / 4), pf.GenSersic2D(4, 3, 1 + k % 4, c_0=.3)(r, r)]


@op
def petro_new(W, k):
    s = [{}, dict(eta=.3), dict(epsilon=1.5, interp_kind="linear"), dict(total_flux_fraction=.8, epsilon_fraction=.9)][k % 4]
    return pf.Petrosian(W["r"], W["area"], W["flux"], area_err=W["ae"] if k & 4 else None, flux_err=W["fe"] if k & 8 else None, **s)


@op
def petro_read(W, k):
    p = W["petro"]
    return [p.r_petrosian, p.r_half_light, p.r_total_flux_err, p.total_flux_err, p.c2080, p.c5090, p.fraction_flux_to_r(.3), p.half_flux, p.r_half_light_arcsec(W["wcs"]), p.concentration_index(.1, .6)]


@op
def petro_copy(W, k):
    p = copy.copy(W["petro"])
    p.eta, p.epsilon = .25 + (k % 3) / 10, 1. + k % 3
    return p


@op
def profile(W, k):
    return pf.calculate_petrosian(W["area"], W["flux"], area_err=W["ae"] if k & 1 else None, flux_err=W["fe"] if k & 2 else None)


@op
def petro_r(W, k):
    return pf.calculate_petrosian_r(W["r"], W["prof"], W["perr"] if k & 1 else None, eta=[.2, .5][k % 2], interp_kind=["cubic", "linear", None][k % 3])


@op
def fraction(W, k):
    return pf.fraction_to_r([.5, .2, .9][k % 3], W["r"], W["flux"], 12., flux_err=W["fe"] if k & 1 else None, r_petrosian_err=.5 if k & 2 else None)


@op
def concentration(W, k):
    return pf.calculate_concentration_index(.2, .8, W["r"], W["flux"], 12.)


@op
def correction(W, k):
    c = W["pc"].correct(W["sp"])
    return [W["pc"].estimate_n(W["sp"]), W["pc"].estimate_epsilon(W["sp"]), c.r_total_flux, W["pc"].filter_grid("n", .8), W["pc"].unique_grid_values("n")]


@op
def generate(W, k):
    if k % 6:
        return None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return pf.generate_petrosian_sersic_correction(None, psf=W["psf"] if k & 8 else None, r_eff_list=W["rl"][3:4], n_list=[.8])


@op
def interpolate(W, k):
    return pf.get_interpolated_values(W["r"], W["flux"], num=50, kind=["cubic", "linear", None][k % 3])


@op
def closest(W, k):
    return pf.closest_value_index([.2, .5][k & 1], W["prof"], growing=bool(k & 2))


@op
def conversions(W, k):
    from astropy import units as u
    return [pf.natural_sort(W["names"]), pf.make_radius_list(50, 9, log=bool(k & 1)), pf.hst_flux_to_abmag(W["fluxes"], W["header"]), pf.match_catalogs(*W["coords"])[0],
            pf.angular_to_pixel(3 * u.arcsec, W["wcs"]), pf.pixel_to_angular(W["ra"], W["wcs"]), pf.elliptical_area_to_r(W["area"], 1.5), pf.circle_area_to_r(W["area"]),
            pf.elong_to_ellip(W["elongs"]), pf.ellip_to_elong(1 - 1 / W["elongs"])]


@op
def subtract(W, k):
    return pf.cutout_subtract(W["img"], W["target"], 10 + k, 3)


@op
def annuli(W, k):
    return [pf.radial_elliptical_aperture(W["pos"], 4. + k, 1.3, .2), pf.radial_elliptical_annulus(W["pos"], 4. + k, 2., 1.3, .2)]


def lock(W):
    for v in list(W.values()):
        for a in [v, *(v if isinstance(v, list) else []), getattr(v, "data", None) if hasattr(v, "data") and not isinstance(v, np.ndarray) else None]:
            if isinstance(a, np.ndarray):
                a.flags.writeable = False


def call(W, name, k):
    from matplotlib import pyplot as plt
    try:
        out = norm(OPS[name](W, k))
    except (core.OracleError, core.CaseTimeout):
        raise
    except Exception as e:
        out = "raised %s" % type(e).__name__
    plt.close("all")
    return out


_warm = set()


def world():
    """Process-wide state that no analysis call may leave changed."""
    import hashlib, warnings, locale
    from matplotlib import pyplot as plt
    rs = np.random.get_state()
    return {"numpy random state": (hashlib.blake2b(rs[1].tobytes()).hexdigest(), rs[2]), "numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)), "matplotlib settings": hash(repr(sorted(plt.rcParams.items(), key=lambda t: t[0]))),
            "working directory": os.getcwd(), "environment": hash(tuple(sorted(os.environ.items()))), "warning filters": repr(warnings.filters),
            "locale": locale.setlocale(locale.LC_ALL)}


SETTINGS = ("numpy print options", "numpy error handling", "matplotlib settings", "working directory")


def settings():
    from matplotlib import pyplot as plt
    return np.get_printoptions(), np.geterr(), dict(plt.rcParams), os.getcwd()


def restore(s):
    from matplotlib import pyplot as plt
    import warnings
    np.set_printoptions(**{k: v for k, v in s[0].items() if k != "override_repr"})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, v in s[2].items():
            if k != "backend" and repr(plt.rcParams[k]) != repr(v):
                plt.rcParams[k] = v
    os.chdir(s[3])


def run_history(M, rng, case):
    seed = int(rng.integers(1 << 30))
    W = pool(seed)
    clean = {k: api.fingerprint(v) for k, v in W.items()}
    names = sorted(OPS)
    n = int(rng.integers(25, 41))
    picks = [(str(rng.choice(names)), int(rng.integers(16))) for _ in range(n)]
    results = []
    raised = 0
    for j, (name, k) in enumerate(picks):
        with np.errstate(**{q: str(rng.choice(["ignore", "warn"])) for q in ("divide", "over", "under", "invalid")}):
            before, keep = world(), settings()
            results.append(call(W, name, k))
            after = world()
        bad = [q for q in before if before[q] != after[q]]
        if "numpy random state" in bad:      # colours of a plot may be drawn at random, but the generator is not reset
            bad.remove("numpy random state")
            np.random.seed(int(rng.integers(1 << 31)))
            call(pool(seed), name, k)
            M.event("draws_random")
            M.check(world()["numpy random state"] != after["numpy random state"], "reseed", "%s(%d) resets numpy's random generator" % (name, k))
        if name in _warm:                    # the first call may import modules that set something up
            M.event("world_checks")
            M.check(not bad, "world", "%s(%d) left process-wide state changed: %s" % (name, k, bad))
        elif not bad:
            _warm.add(name)
        else:
            M.event("first_call_changes")
            restore(keep)                    # an import happens once; a call that sets something sets it again
            again = world()
            call(pool(seed), name, k)
            now = world()
            bad = [q for q in SETTINGS if again[q] != now[q]]
            M.check(not bad, "world", "%s(%d) left process-wide state changed: %s" % (name, k, bad))
            _warm.add(name)
        raised += isinstance(results[-1], str)
        M.event("steps")
        if j:
            M.nontrivial(picks[j - 1][0], name)
        bad = [q for q, v in W.items() if api.fingerprint(v) != clean[q]]
        M.event("pool_checks")
        if not M.check(not bad, "pool", "%s(%d) changed %s" % (name, k, bad), history=picks[:j + 1]):
            break
    done = list(enumerate(picks[:len(results)]))
    # the same calls in another order on an equal pool, then each alone on the used one
    W2 = pool(seed)
    for i in rng.permutation(len(done)):
        j, (name, k) = done[int(i)]
        got = call(W2, name, k)
        M.event("replayed")
        M.check(alike(got, results[j]), "repeat", "%s(%d) answers differently in another order" % (name, k), got=got, want=results[j])
    for j, (name, k) in done[-6:]:
        M.event("replayed")
        M.check(alike(call(W, name, k), results[j]), "repeat", "%s(%d) answers differently when repeated" % (name, k))
    # images memory-mapped from a file are read-only: same answers
    W3 = pool(seed)
    lock(W3)
    for i in rng.permutation(len(done))[:12]:
        j, (name, k) = done[int(i)]
        got = call(W3, name, k)
        M.event("read_only")
        M.check(alike(got, results[j]), "read_only", "%s(%d) answers differently for read-only arrays" % (name, k), got=got, want=results[j])
    M.event("raised_steps", raised)
    M.sample(history=["%s:%d" % p for p in picks[:12]], raised=raised)


# ------------------------------------------------------------------ the documented pipelines on real images
def docs_images():
    d = os.path.join(core.REPO, "docs", "data")
    return [f for f in sorted(glob.glob(os.path.join(d, "*f105w.fits.gz"))) + [os.path.join(d, "example_sersic.fits.gz")] if os.path.exists(f)]


def load(path):
    with fits.open(path) as h:
        hdu = next(q for q in h if q.data is not None and np.ndim(q.data) == 2)
        return np.array(hdu.data, float)


def pipeline(image, psf):
    """Detection -> photometry -> Petrosian -> model, as in the documentation."""
    out = []
    std = np.nanstd(image[np.abs(image - np.nanmedian(image)) < 3 * np.nanstd(image)])
    cat, segm, deb = pf.make_catalog(image, 3 * std, deblend=True, npixels=16, nlevels=8, plot=False)
    out.append([norm(cat), norm(segm), norm(deb)])
    for s in pf.order_cat(cat, key="area", reverse=True)[:2]:
        s = cat[int(s)] if not hasattr(s, "label") else s
        rl = pf.make_radius_list(min(image.shape) // 4, 25)
        f, a, e = pf.source_photometry(s, image, deb, rl, error=np.full(image.shape, std), bg_sub=True, sigma=3, sigma_type="clip", cutout_size=2 * int(max(rl)) + 4)
        p = pf.Petrosian(rl, a, f, flux_err=e)
        out.append([f, a, e, norm(p)])
        x, y = pf.get_source_position(s)
        amp = pf.get_amplitude_at_r(p.r_half_light if np.isfinite(p.r_half_light) else 4., image, x, y, pf.get_source_ellip(s), pf.get_source_theta(s))
        out.append(amp)
        c = Cutout2D(pf.masked_segm_image(s, image, deb).data, (x, y), 41, mode="partial", fill_value=np.nan)
        m = pf.PSFConvolvedModel2D(am.Sersic2D(amp if np.isfinite(amp) else 1., 5., 1.5, 20, 20, .3, .3, bounds=pf.get_default_sersic_bounds()), psf=psf)
        fm, _ = pf.fit_model(c.data, m, maxiter=15)
        out.append([norm(fm), pf.model_to_image(fm, (41, 41))])
    return out


def run_pipeline(M, rng, case):
    files = docs_images()
    if not files:
        M.event("no_docs_images")
        return
    path = files[case["i"] % len(files)]
    image = load(path)
    h, w = image.shape
    n = min(150, h, w)
    image = image[(h - n) // 2:(h + n) // 2, (w - n) // 2:(w + n) // 2].copy()
    psf = load(os.path.join(core.REPO, "docs", "data", "f105w_psf.fits.gz"))
    psf = psf / psf.sum()
    keep, kp = image.copy(), psf.copy()
    a = pipeline(image, psf)
    W = pool(7)
    for _ in range(6):
        call(W, str(rng.choice(sorted(OPS))), int(rng.integers(16)))
    b = pipeline(image, psf)
    M.event("pipelines")
    M.check(np.array_equal(image, keep, equal_nan=True) and np.array_equal(psf, kp), "pipeline_inputs", "the pipeline changed its image or PSF", file=os.path.basename(path))
    M.check(alike(a, b), "pipeline_repeat", "the same pipeline gives other results after unrelated calls", file=os.path.basename(path))
    M.nontrivial("pipeline", os.path.basename(path))
    M.nontrivial("pipeline2", os.path.basename(path))

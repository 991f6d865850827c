"""C31 options left out, given by name, or given by position."""
import io, contextlib, os, tempfile, shutil
import numpy as np
import petrofit as pf
from astropy.modeling import models, fitting
from astropy.nddata import CCDData
from astropy.table import Table
from petrofit.modeling import models as pm
from .. import refs, gens

RULE = ("Every public function, class and method with options, on random inputs: called with a random subset of its options left out, with their documented defaults spelled "
        "out, and with all of them given by position in the documented order; results (numbers, models, tables, printed text, drawn figures) must be identical. A third call with "
        "another value shows which options matter on that input. Non-trivial: distinct (function, option) whose other value changed the result.")
PLAN = {"quick": {"curve": 900, "field": 640, "fit": 180, "theory": 600, "image": 360, "draw": 180, "grid": 16},
        "thorough": {"curve": 9000, "field": 2500, "fit": 1500, "theory": 6000, "image": 3000, "draw": 1200, "grid": 80}}
NEED = ["defaults_judged", "positions_judged", "sensitive"]
ASSUME = ["Documented defaults are those of the signatures and docstrings of the released package, written down in the check.",
          "Purely cosmetic options (colours, font and figure sizes) are not judged."]
EPS = np.sqrt(np.finfo(float).eps)


def hooks(M):
    return {}


# ------------------------------------------------------------------ results
def flat(o):
    """A comparable, exact picture of a result."""
    if o is None or isinstance(o, (str, bool, int)):
        return o
    if isinstance(o, (float, np.generic)):
        return ("n", float(o) if not np.isnan(o) else "nan")
    if isinstance(o, pf.Petrosian):
        return ("petro",) + measured(o)
    if hasattr(o, "unit") and hasattr(o, "to_value"):
        return ("q", str(o.unit), flat(np.asarray(o.value)))
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", flat(o.filled(np.nan) if o.dtype.kind == "f" else o.filled()), flat(np.ma.getmaskarray(o)))
    if isinstance(o, CCDData):
        return ("ccd", flat(o.data))
    if isinstance(o, np.ndarray):
        return ("a", o.shape, o.tolist() if o.dtype.kind in "OUS" else np.where(np.isnan(o), 0, o).tobytes() + np.isnan(o).tobytes() if o.dtype.kind == "f" else o.tobytes())
    if isinstance(o, Table):
        return ("t", tuple(o.colnames)) + tuple(flat(np.asarray(o[c])) for c in o.colnames)
    if hasattr(o, "param_names"):
        return ("m", tuple(o.param_names), flat(np.array(o.parameters)), repr(dict(o.bounds)), repr(dict(o.fixed)), flat(getattr(o, "stds", None) and list(o.stds.stds)),
                flat(getattr(o, "psf", None)), repr(getattr(o, "oversample", None)), repr(getattr(o, "psf_oversample", None)))
    if isinstance(o, (list, tuple)):
        return tuple(flat(v) for v in o)
    if isinstance(o, dict):
        return tuple((repr(k), repr(v)) for k, v in sorted(o.items(), key=repr))
    if hasattr(o, "label") and hasattr(o, "centroid"):
        return ("cat", flat(np.atleast_1d(o.label)), flat(np.atleast_2d(np.asarray(o.centroid))))
    if hasattr(o, "data") and hasattr(o, "labels"):
        return ("segm", flat(np.asarray(o.data)))
    if type(o).__module__.startswith("photutils"):
        return ("ap", repr(o))
    if isinstance(o, fitting.Fitter) or "Fitter" in type(o).__name__:
        return ("fitter", type(o).__name__)
    return ("other", type(o).__name__)


def measured(p):
    out = [p.r_petrosian, p.r_petrosian_err, p.r_total_flux, p.r_total_flux_err, p.r_half_light, p.r_half_light_err, p.c2080, p.c5090, p.total_flux]
    return tuple(flat(v) for v in out) + (flat(np.asarray(p.petrosian_list)), flat(np.asarray(p.petrosian_err)))


def outcome(fn, a, k):
    out = io.StringIO()
    np.random.seed(5)
    try:
        with contextlib.redirect_stdout(out):
            r = fn(*a, **k)
    except Exception as e:
        return ("raised", type(e).__name__), out.getvalue()
    return flat(r), out.getvalue()


# ------------------------------------------------------------------ the judge
def judge(M, rng, name, fn, req, opts, order=None):
    """opts: {option: (documented default, [other values])} in documented order; without other values: (value to give always, None)."""
    names = list(opts)
    free = [n for n in names if opts[n][1] is not None]
    left = [n for n in free if rng.random() < .4] or [free[int(rng.integers(len(free)))]]
    given = {n: opts[n][1][int(rng.integers(len(opts[n][1])))] if opts[n][1] and rng.random() < .6 else opts[n][0] for n in names if n not in left}
    short = outcome(fn, req, given)
    spelled = outcome(fn, req, dict(given, **{n: opts[n][0] for n in left}))
    M.event("defaults_judged")
    wit = dict(function=name, left_out=left, given={k: repr(v)[:80] for k, v in given.items()})
    M.check(short == spelled, "default", "%s: leaving %s out is not the same as the documented default" % (name, ", ".join(left)), without=repr(short)[:300], documented=repr(spelled)[:300], **wit)
    if order is not False:
        full = dict({n: opts[n][0] for n in left}, **given)
        k = int(rng.integers(1, len(names) + 1))
        pos = outcome(fn, list(req) + [full[n] for n in names[:k]], {n: full[n] for n in names[k:]})
        M.event("positions_judged")
        M.check(pos == spelled, "position", "%s: options given by position (%s) are taken differently" % (name, ", ".join(names[:k])), by_position=repr(pos)[:300], by_name=repr(spelled)[:300], **wit)
    for o in left:
        if not opts[o][1]:
            continue
        other = outcome(fn, req, dict(given, **{o: opts[o][1][int(rng.integers(len(opts[o][1])))]}))
        if other != short:
            M.event("sensitive")
            M.nontrivial(name, o)


KIND = ("cubic", ["linear", "nearest", "quadratic"])
NUM = (5000, [50, 501, 1000])


def run_curve(M, rng, case):
    r, area, flux, _ = gens.curve(rng)
    r, flux = np.asarray(r, float), np.asarray(flux, float)
    fe, ae = np.abs(flux) * rng.uniform(.01, .1, flux.size), area * rng.uniform(.001, .01, area.size)
    err = dict(area_err=(None, [ae]), flux_err=(None, [fe]))
    prof = dict(eta=(.2, [.3, .5, .1]), epsilon=(2., [1., 1.5, 2.5]), epsilon_fraction=(.99, [.8, .5]), total_flux_fraction=(.99, [.9, .5]))
    eps = dict(epsilon=(2., [1., 1.5, .7]), epsilon_fraction=(.99, [.8, .5]), interp_kind=KIND, interp_num=NUM)
    k = case["i"] % 9
    if k == 0:
        judge(M, rng, "Petrosian", pf.Petrosian, (r, area, flux), dict(err, **prof, verbose=(False, [True]), interp_kind=KIND, interp_num=NUM))
    elif k == 1:
        judge(M, rng, "calculate_petrosian", pf.calculate_petrosian, (area, flux), err)
    elif k == 2:
        e, s = pf.calculate_petrosian(area, flux, None, fe)
        judge(M, rng, "calculate_petrosian_r", pf.calculate_petrosian_r, (r, e), dict(petrosian_err=(None, [s]), eta=(.2, [.3, .5]), interp_kind=KIND, interp_num=NUM))
    elif k in (3, 4):
        rp = float(rng.uniform(.1, .45) * r[-1])
        o = dict(flux_err=(None, [fe]), r_petrosian_err=(None, [.03 * rp]), **eps)
        if k == 3:
            judge(M, rng, "fraction_to_r", pf.fraction_to_r, (float(rng.uniform(.1, .9)), r, flux, rp), o)
        else:
            judge(M, rng, "calculate_concentration_index", pf.calculate_concentration_index, (.2, float(rng.uniform(.5, .9)), r, flux, rp), o)
    elif k == 5:
        p = pf.Petrosian(r, area, flux, None, fe)
        which = int(rng.integers(3))
        if which == 0:
            judge(M, rng, "concentration_index", p.concentration_index, (), dict(fraction_1=(.2, [.3, .5]), fraction_2=(.8, [.9, .7])))
        else:
            judge(M, rng, ["fraction_flux_to_r", "fraction_flux_to_r_err"][which - 1], [p.fraction_flux_to_r, p.fraction_flux_to_r_err][which - 1], (), dict(fraction=(.5, [.2, .8])))
    elif k == 6:
        judge(M, rng, "get_interpolated_values", pf.get_interpolated_values, (r, flux), dict(num=NUM, kind=KIND))
    elif k == 7:
        judge(M, rng, "closest_value_index", pf.closest_value_index, (float(rng.uniform(flux.min(), flux.max())), flux), dict(growing=(False, [True])))
    else:
        judge(M, rng, "make_radius_list", pf.make_radius_list, (float(rng.uniform(5, 90)), int(rng.integers(2, 40))), dict(log=(False, [True])))


def run_field(M, rng, case):
    k = [0, 1, 2, 3, 4, 5, 6, 7, 7, 7][case["i"] % 10]
    img, src = gens.field(rng, nsrc=int(rng.integers(5, 9)) if k in (0, 2) else int(rng.integers(2, 5)), minsep=5 if k in (0, 2) else 9)
    thr = float(rng.uniform(.6, 3))
    segopt = dict(npixels=(int(rng.integers(4, 9)), None), nlevels=(30, [1, 2, 3]), contrast=(.001, [1e-5, 1e-4, .3, .7, 1.]))
    if k == 0:
        cat = dict(wcs=(None, []), deblend=(True, [False]), **segopt)
        judge(M, rng, "make_catalog", lambda *a, **q: pf.make_catalog(*a, **dict(dict(plot=False), **q)), (img, thr), cat)
        return
    if k == 1:
        judge(M, rng, "make_segments", pf.make_segments, (img,), dict(npixels=(7, None), threshold=(3., [1., 8.])))
        return
    cat, segm, deb = pf.make_catalog(img, 1., npixels=7, plot=False)
    deb = segm if deb is None else deb
    n = len(np.atleast_1d(cat.label))
    s = cat[int(rng.integers(n))]
    if k == 2:
        judge(M, rng, "deblend_segments", pf.deblend_segments, (img, segm), segopt)
    elif k == 3:
        judge(M, rng, "segm_mask", pf.segm_mask, ([s, int(s.label), [s]][int(rng.integers(3))], deb), dict(mask_background=(False, [True])))
    elif k == 4:
        judge(M, rng, "masked_segm_image", pf.masked_segm_image, (s, img, deb), dict(fill=(None, [0., -3., np.nan]), mask_background=(False, [True])))
    elif k == 5:
        judge(M, rng, "order_cat", pf.order_cat, (cat,), dict(key=("area", ["kron_flux", "max_value"]), reverse=(True, [False])))
    elif k == 6:
        err = np.abs(rng.normal(1, .2, img.shape))
        msk = rng.random(img.shape) < .9
        x0, y0 = src[0][:2]
        judge(M, rng, "radial_photometry", pf.radial_photometry, (img, (x0, y0), np.arange(1., 9)), dict(error=(None, [err]), mask=(None, [msk]), elong=(1., [1.7]), theta=(0., [.7]),
              plot=(False, []), vmin=(0, []), vmax=(None, []), method=("exact", ["center"])))
    else:
        err = np.abs(rng.normal(1, .2, img.shape))
        pl = img * float(rng.choice([1, 30])) + .03 * np.arange(img.shape[1]) + 2
        judge(M, rng, "source_photometry", pf.source_photometry, (s, pl, deb, np.arange(1., 9)), dict(error=(None, [err]), cutout_size=(None, [25, 60]), bg_sub=(False, [True]),
              sigma=(3., [1., 2.]), sigma_type=("clip", ["bound"]), method=("exact", ["center"]), mask_background=(False, [True])))


def with_effort(*a, **k):
    """fit_model and the options its fitter was run with (bound to the fitter's own signature)."""
    import inspect
    seen, orig = [], {}
    for c in (fitting.TRFLSQFitter, fitting.LMLSQFitter, fitting.DogBoxLSQFitter):
        for b in c.__mro__:
            if "__call__" in b.__dict__ and b is not object:
                orig.setdefault(b, b.__dict__["__call__"])

    def tap(f):
        def call(self, *x, **y):
            q = inspect.signature(f).bind(self, *x, **y)
            q.apply_defaults()
            if not seen:
                seen.append(tuple(repr(q.arguments.get(n)) for n in ("maxiter", "acc", "epsilon", "estimate_jacobian")))
            return f(self, *x, **y)
        return call
    try:
        for b, f in orig.items():
            setattr(b, "__call__", tap(f))
        r = pf.fit_model(*a, **k)
    finally:
        for b, f in orig.items():
            setattr(b, "__call__", f)
    return r, repr(seen)


def run_fit(M, rng, case):
    ny, nx = int(rng.integers(14, 22)), int(rng.integers(14, 22))
    y, x = np.mgrid[:ny, :nx].astype(float)
    k = case["i"] % 3
    if k == 0:
        img = 3 + .1 * x - .05 * y + rng.normal(0, .1, x.shape)
        img[rng.random(img.shape) < .05] += 5
        judge(M, rng, "fit_background", pf.fit_background, (img,), dict(model=(models.Planar2D(1., 1., 0.), [models.Polynomial2D(2)]), sigma=(3., [1.2, 2., None]),
              fitter=(fitting.LinearLSQFitter, [fitting.TRFLSQFitter]), calc_uncertainties=(False, [True])))
    elif k == 1:
        t = models.Gaussian2D(5, nx / 2, ny / 2, 2.2, 3, theta=.5)
        img = t(x, y) + rng.normal(0, .1, x.shape)
        m = models.Gaussian2D(4, nx / 2 + .5, ny / 2 - .4, 2.5, 2.6, theta=.3)
        judge(M, rng, "fit_model", with_effort, (img, m), dict(weights=(None, [rng.uniform(.5, 2, img.shape)]), fitter=(fitting.TRFLSQFitter, [fitting.LMLSQFitter, fitting.DogBoxLSQFitter]),
              maxiter=(5000, [4, 8]), calc_uncertainties=(False, [True]), epsilon=(EPS, [.03]), acc=(1e-7, [.05, .3]), estimate_jacobian=(False, [True])))
    else:
        f, v, q = [(pf.get_default_sersic_bounds, "sersic", {"n": (1, 2)}), (pf.get_default_gen_sersic_bounds, "gen_sersic", {"c_0": (0, 1)})][int(rng.integers(2))]
        judge(M, rng, "get_default_%s_bounds" % v, f, (), dict(override=({}, [q])))


def run_theory(M, rng, case):
    k = case["i"] % 8
    r = rng.uniform(.1, 20, 6)
    amp, re, n = float(rng.uniform(.5, 9)), float(rng.uniform(2, 9)), float(rng.uniform(.5, 6))
    if k == 0:
        judge(M, rng, "sersic_enclosed", pm.sersic_enclosed, (r, amp, re, n), dict(ellip=(0, [.4])))
    elif k == 1:
        L = refs.sersic_L(np.inf, amp, re, n)
        judge(M, rng, "sersic_enclosed_inv", pm.sersic_enclosed_inv, (L * rng.uniform(.05, .5, 5), amp, re, n), dict(ellip=(0, [.3])))
    elif k == 2:
        ra, de = rng.uniform(0, 2, 9), rng.uniform(-1, 1, 9)
        j = rng.permutation(9)
        judge(M, rng, "match_catalogs", pf.match_catalogs, (ra, de, ra[j] + 1e-4, de[j]), dict(unit=("deg", ["rad", "arcmin"])))
    elif k == 3:
        pos = (float(rng.uniform(5, 20)), float(rng.uniform(5, 20)))
        el = dict(elong=(1., [2.]), theta=(0., [.6]))
        if rng.random() < .5:
            judge(M, rng, "radial_elliptical_aperture", pf.radial_elliptical_aperture, (pos, float(rng.uniform(2, 9))), el)
        else:
            judge(M, rng, "radial_elliptical_annulus", pf.radial_elliptical_annulus, (pos, float(rng.uniform(4, 9)), float(rng.uniform(.5, 2))), el)
    else:
        x, y = rng.uniform(-9, 9, 8), rng.uniform(-9, 9, 8)
        what = int(rng.integers(5))
        if what == 4:
            judge(M, rng, "sersic_enclosed_model", lambda **q: pm.sersic_enclosed_model(**q)(np.abs(x) * 9 + .1), (), dict(amplitude=(1000, [2.]), r_eff=(30, [3.]), n=(2, [4.]), ellip=(0, [.4])), order=False)
        elif what == 0:
            o = dict(amplitude=(1, [2.]), r_eff=(1, [3.]), n=(4, [1.]), x_0=(0, [2.]), y_0=(0, [1.]), ellip=(0, [.4]), theta=(0, [.5]), c_0=(0, [.7]))
            judge(M, rng, "GenSersic2D", lambda **q: pm.GenSersic2D(**q)(x, y), (), o, order=False)
        elif what == 1:
            o = dict(amplitude=(1, [2.]), r_break=(1, [3.]), x_0=(0, [2.]), y_0=(0, [1.]), alpha=(2, [1.]), betta=(4, [3.]), gamma=(0, [.5]))
            judge(M, rng, "Nuker2D", lambda **q: pm.Nuker2D(**q)(x, y), (), o, order=False)
        elif what == 2:
            judge(M, rng, "petrosian_model", lambda **q: pm.petrosian_model(**q)(np.abs(x) + .1), (), dict(r_eff=(1, [3.]), n=(4, [1.])), order=False)
        else:
            v = rng.uniform(.5, 3)
            judge(M, rng, "make_grid", pf.make_grid, (int(rng.integers(2, 9)),), dict(origin=((0, 0), [(2, 1), (-1.5, .5)]), factor=(1, [2, 3])))


def run_image(M, rng, case):
    size = [int(rng.integers(9, 24)), (int(rng.integers(9, 24)), int(rng.integers(9, 24)))][int(rng.integers(2))]
    s = models.Sersic2D(float(rng.uniform(1, 9)), float(rng.uniform(2, 6)), float(rng.uniform(.6, 4)), 8.3, 7.6, .3, .5)
    if case["i"] % 2:
        judge(M, rng, "model_to_image", pf.model_to_image, (s, size), dict(mode=("center", ["oversample"] if rng.random() < .5 else ["linear_interp"]), factor=(1, [2, 3]), center=(None, [(8., 9.), (3., 4.)])))
        return
    psf = gens.psf(rng, n=5)

    def build(*a, **k):
        m = pf.PSFConvolvedModel2D(*a, **k)
        return m, pf.model_to_image(m, 18)
    judge(M, rng, "PSFConvolvedModel2D", build, (s,), dict(psf=(None, [psf]), oversample=(None, [4, ("x_0", "y_0", 8, 4)]), psf_oversample=(None, [2]), name=(None, ["g"])))


def figures(fn):
    """Call with a fresh figure; result is what it drew."""
    from matplotlib import pyplot as plt

    def call(*a, **k):
        plt.close("all")
        r = fn(*a, **k)
        out = []
        for n in plt.get_fignums():
            f = plt.figure(n)
            f.set_dpi(30)
            f.canvas.draw()
            out.append(np.asarray(f.canvas.buffer_rgba()).copy())
        plt.close("all")
        return (r if isinstance(r, (np.ndarray, tuple)) else None), out
    return call


def run_draw(M, rng, case):
    k = case["i"] % 6
    y, x = np.mgrid[:24, :27]
    img = 9 * np.exp(-.5 * (((x - 13.3) / 2.6) ** 2 + ((y - 11.7) / 3.1) ** 2))
    if k < 3:
        r, area, flux, _ = gens.curve(rng, np.arange(1., 40))
        p = pf.Petrosian(r, area, flux, None, np.abs(flux) * .03)
        if k == 0:
            judge(M, rng, "Petrosian.plot", figures(lambda *a, **q: p.plot(*a, **q) and None), (), dict(plot_r=(True, [False]), title=("Petrosian Profile", ["T"]), radius_unit=("pix", ["arcsec", ""])))
        elif k == 1:
            judge(M, rng, "Petrosian.plot_cog", figures(lambda *a, **q: p.plot_cog(*a, **q) and None), (), dict(plot_r=(True, [False]), title=("Curve of Growth", ["T"]), radius_unit=("pix", ["arcsec"]), flux_unit=("", ["Jy"])))
        else:
            judge(M, rng, "Petrosian.imshow", figures(lambda *a, **q: p.imshow(*a, **q) and None), (), dict(position=((0, 0), [(9., 4.)]), elong=(1., [1.8]), theta=(0., [.6])))
    elif k == 3:
        judge(M, rng, "measure_fwhm", figures(pf.measure_fwhm), (img,), dict(plot=(True, [False]), printout=(True, [False])))
    elif k == 4:
        m = models.Gaussian2D(8, 13, 12, 2.6, 3)
        judge(M, rng, "plot_fit", figures(lambda *a, **q: pf.plot_fit(*a, **q)[2:] and None), (m, img), dict(mode=("center", ["linear_interp"]), center=(None, [(12., 11.)])))
    else:
        judge(M, rng, "plot_target", figures(pf.plot_target), (img, (float(rng.uniform(5, 20)), float(rng.uniform(5, 20)))), dict(size=(None, [7., 12])))


def run_grid(M, rng, case):
    kw = dict(r_eff_list=[float(rng.uniform(5, 7))], n_list=[float(rng.uniform(.8, 1.2))])
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        if case["i"] % 2:
            def gen(**q):
                f = os.path.join(d, "g.ecsv")
                with open(f, "w") as fh:
                    fh.write("mine")
                t = pf.generate_petrosian_sersic_correction(f, **dict(kw, oversample=2, **q))
                return t, open(f).read() == "mine"
            judge(M, rng, "generate_petrosian_sersic_correction", gen, (), dict(out_format=(None, ["ascii.csv"]), overwrite=(False, [True]), n_cpu=(None, [1]), plot=(False, [])), order=False)
        else:
            def gen(**q):
                return pf.generate_petrosian_sersic_correction(None, **dict(kw, **q))
            judge(M, rng, "generate_petrosian_sersic_correction", gen, (), dict(psf=(None, [gens.psf(rng, n=5)]), oversample=(("x_0", "y_0", 10, 50), [1, 2]), psf_oversample=(None, [])), order=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)

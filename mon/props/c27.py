"""C27 isophote amplitudes and Gaussian widths."""
import io, contextlib, re, warnings
import numpy as np
import petrofit as pf
from astropy.nddata import CCDData, Cutout2D
from .. import refs
from . import c24

RULE = ("Noiseless elliptical Sersic and Gaussian galaxies of random centre, flattening, orientation (array, CCDData, Cutout2D, float32; shifted units) at random isophote "
        "radii, hopeless inputs (blank, nan, tiny, outside, degenerate); axis-aligned and rotated Gaussians in rectangular cutouts of either parity with and without "
        "plot and printout, whose drawn and printed numbers are parsed. Non-trivial: distinct (input type, flattening bin, orientation quadrant) / (shape order, parity, options).")
PLAN = {"quick": {"iso": 330, "hopeless": 150, "gauss": 390, "report": 72}, "thorough": {"iso": 2000, "hopeless": 600, "gauss": 4000, "report": 300}}
NEED = ["isophotes_judged", "hopeless_judged", "gaussians_judged", "reports_judged", "holed_judged"]
ASSUME = ["Isophote amplitudes agree to 5% (photutils' own accuracy on these images is 2%), radii at least 3 px on the minor axis.",
          "Gaussians have sigma of at least 1.4 px, at most a sixth of the cutout, and centres within 1.2 px of the middle."]


def galaxy(rng, gauss=None):
    nx, ny = (int(v) for v in rng.integers(50, 90, 2))
    n, re = (.5 if (gauss if gauss is not None else rng.random() < .3) else float(rng.uniform(.6, 3))), float(rng.uniform(5, 12))
    e, th = float(rng.uniform(0, .7)), float(rng.uniform(0, np.pi))
    x0, y0 = nx / 2 + float(rng.uniform(-4, 4)), ny / 2 + float(rng.uniform(-4, 4))
    amp = float(10 ** rng.uniform(-3, 4))
    y, x = np.mgrid[:ny, :nx]
    return refs.sersic2d(x, y, amp, re, n, x0, y0, e, th), dict(amp=amp, re=re, n=n, x0=x0, y0=y0, e=e, th=th)


def run_iso(M, rng, case):
    img, g = galaxy(rng)
    r = float(rng.uniform(3.2, 2 * g["re"])) if g["e"] < .1 else max(3 / (1 - g["e"]), float(rng.uniform(3.2, 2 * g["re"])))
    kind = ["array", "ccd", "cutout", "f4"][case["i"] % 4]
    x0, y0 = g["x0"], g["y0"]
    if kind == "ccd":
        arg = CCDData(img, unit="adu")
    elif kind == "cutout":
        big = np.zeros((img.shape[0] + 31, img.shape[1] + 22))
        big[17:17 + img.shape[0], 9:9 + img.shape[1]] = img
        arg = Cutout2D(big, (9 + (img.shape[1] - 1) / 2, 17 + (img.shape[0] - 1) / 2), img.shape)
        if not np.array_equal(arg.data, img):
            raise ValueError("harness: cutout misaligned")
    elif kind == "f4":
        arg = img.astype("f4")
    else:
        arg = img
    keep = img.copy()
    if rng.random() < .3:
        r = int(np.ceil(r))
    got = pf.get_amplitude_at_r(r, arg, x0, y0, g["e"], g["th"])
    want = float(refs.sersic(r, g["amp"], g["re"], g["n"]))
    M.event("isophotes_judged")
    M.check(np.ndim(got) == 0 and np.isfinite(got) and abs(got / want - 1) < .05, "isophote", "not the brightness on the isophote", got=got, want=want, r=r, kind=kind, **g)
    M.check(np.array_equal(keep, np.asarray(getattr(arg, "data", arg)).astype(float) if kind != "f4" else keep), "input", "image changed")
    # flux units scale it
    k = float(10 ** rng.uniform(-3, 3))
    s = pf.get_amplitude_at_r(r, img * k, x0, y0, g["e"], g["th"])
    M.check(abs(s / (k * want) - 1) < .05, "scale", "amplitude in other flux units", got=s, want=k * want)
    # at r_eff it is the model's amplitude parameter
    if g["re"] * (1 - g["e"]) > 3:
        a = pf.get_amplitude_at_r(g["re"], arg, x0, y0, g["e"], g["th"])
        M.check(abs(a / g["amp"] - 1) < .05, "amplitude", "amplitude at r_eff", got=a, **g)
    M.nontrivial(kind, int(g["e"] * 4), int(g["th"] // (np.pi / 4)))
    M.sample(kind=kind, r=r, got=got, want=want, **g)


def run_hopeless(M, rng, case):
    """Nothing to fit: nan or a number, but never an exception."""
    k = case["i"] % 8
    img, g = galaxy(rng, True)
    r, x0, y0, e, th = 8., g["x0"], g["y0"], g["e"], g["th"]
    want_nan = False
    if k == 0:
        img = np.zeros_like(img)
    elif k == 1:
        img, want_nan = np.full_like(img, np.nan), True
    elif k == 2:
        x0 = -500.
    elif k == 3:
        r = float(rng.choice([1e4, 500.]))
    elif k == 4:
        img, want_nan = img[0], True
    elif k == 5:
        img, want_nan = None, True
    elif k == 6:
        img = img[:2, :2]
    else:
        r = float("nan")
        want_nan = True
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = pf.get_amplitude_at_r(r, img, x0, y0, e, th)
    M.event("hopeless_judged")
    M.check(np.ndim(got) == 0 and isinstance(float(got), float), "hopeless", "no number for an unfittable isophote", got=got, k=k)
    if want_nan:
        M.check(np.isnan(got), "hopeless_nan", "a number for an unfittable isophote", got=got, k=k)
        M.check(len(w) > 0, "warned", "nan without a warning", k=k)
    M.nontrivial("hopeless", k)


def gaussian(rng):
    nx, ny = (int(v) for v in rng.integers(15, 46, 2))
    sx, sy = float(rng.uniform(1.4, nx / 6)), float(rng.uniform(1.4, ny / 6))
    x0, y0 = nx // 2 + float(rng.uniform(-1.2, 1.2)), ny // 2 + float(rng.uniform(-1.2, 1.2))
    amp = float(10 ** rng.uniform(-2, 4))
    y, x = np.mgrid[:ny, :nx]
    return amp * np.exp(-.5 * (((x - x0) / sx) ** 2 + ((y - y0) / sy) ** 2)), (amp, x0, y0, sx, sy)


def holed(M, rng, img):
    """The image as it is, with nan holes, or masked over wild values."""
    k = str(rng.choice(["plain", "plain", "nan", "masked"]))
    if k == "plain":
        return k, img
    bad = rng.random(img.shape) < rng.uniform(.002, .1)
    bad[int(rng.integers(img.shape[0])), int(rng.integers(img.shape[1]))] = True
    M.event("holed_judged")
    if k == "nan":
        return k, np.where(bad, np.nan, img)
    return k, np.ma.array(np.where(bad, img.max() * float(rng.choice([-50, 50])), img), mask=bad)


def run_gauss(M, rng, case):
    whole, t = gaussian(rng)
    hk, img = holed(M, rng, whole)
    keep = img.copy()
    m = pf.fit_gaussian2d(img)
    M.event("gaussians_judged")
    amp, x0, y0, sx, sy = t
    y, x = np.mgrid[:img.shape[0], :img.shape[1]]
    M.check(np.abs(m(x, y) - whole).max() < 1e-3 * amp, "gauss_model", "fitted Gaussian is not the image", true=t, got=m.parameters)
    M.close(m.amplitude.value, amp, "gauss_amp", rtol=2e-3, true=t)
    M.close([m.x_mean.value, m.y_mean.value], [x0, y0], "gauss_centre", rtol=0, atol=5e-3, true=t)
    f = pf.measure_fwhm(img, plot=False, printout=False)
    K = 2 * np.sqrt(2 * np.log(2))
    M.check(np.shape(f) == (2,), "fwhm_shape", "not two widths", got=np.shape(f))
    M.close(f, [K * sx, K * sy], "fwhm", rtol=3e-3, atol=1e-3, msg="x and y full widths", true=t, shape=img.shape)
    M.check(np.array_equal(np.ma.getdata(keep), np.ma.getdata(img), equal_nan=True) and np.array_equal(np.ma.getmaskarray(keep), np.ma.getmaskarray(img)), "input", "image changed")
    M.check(np.array_equal(f, pf.measure_fwhm(img, plot=False, printout=False)), "repeat", "second call differs")
    M.nontrivial(np.sign(img.shape[0] - img.shape[1]), img.shape[0] % 2, img.shape[1] % 2, sx > sy, hk)
    # rotated: the widths along the two axes, the one nearer to x first
    th = float(rng.uniform(-.6, .6))
    c, s = np.cos(th), np.sin(th)
    if abs(sx / sy - 1) > .15 and max(sx, sy) < min(img.shape) / 6:
        u, v = (x - x0) * c + (y - y0) * s, -(x - x0) * s + (y - y0) * c
        f = pf.measure_fwhm(amp * np.exp(-.5 * ((u / sx) ** 2 + (v / sy) ** 2)), plot=False, printout=False)
        M.close(f, [K * sx, K * sy], "fwhm_rotated", rtol=3e-3, atol=1e-3, msg="widths of a slightly turned Gaussian", true=t, theta=th)


def run_report(M, rng, case):
    """Plotting and printing change nothing and show the measured numbers."""
    from matplotlib import pyplot as plt
    img, t = gaussian(rng)
    hk, img = holed(M, rng, img)
    amp, x0, y0, sx, sy = t
    plain = pf.measure_fwhm(img, plot=False, printout=False)
    plot, prn = bool(case["i"] % 2), bool(case["i"] // 2 % 2)
    plt.close("all")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f = pf.measure_fwhm(img, plot=plot, printout=prn) if case["i"] % 3 else pf.measure_fwhm(img, plot, prn)
    M.event("reports_judged")
    M.check(np.array_equal(f, plain), "options", "plot/printout changes the widths", got=f, want=plain)
    nums = [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", out.getvalue())]
    if prn:
        def shown(v):
            return any(abs(q - v) <= 2e-3 * max(abs(v), 1) for q in nums)
        M.check(all(shown(v) for v in (amp, x0, y0, sx, sy, *f)), "printed", "printed numbers are not the measured ones", text=out.getvalue(), true=t, fwhm=f)
        for a, b in re.findall(r"x ?= ?([-+.\deE]+), y ?= ?([-+.\deE]+)", out.getvalue()):       # a labelled pair is one of the three
            try:
                a, b = float(a), float(b)
            except ValueError:
                continue
            M.check(any(abs(a - p) <= 2e-3 * max(abs(p), 1) and abs(b - q) <= 2e-3 * max(abs(q), 1) for p, q in ((x0, y0), (sx, sy), tuple(f))),
                    "printed", "x and y printed the wrong way round", text=out.getvalue(), true=t, fwhm=f)
            M.event("pairs_read")
    else:
        M.check(out.getvalue() == "", "silent", "prints without printout", text=out.getvalue())
    figs = [plt.figure(n) for n in plt.get_fignums()]
    M.check(bool(figs) == plot, "drawn", "figures: %d, plot=%s" % (len(figs), plot))
    if plot:
        axs = [ax for fg in figs for ax in fg.axes]

        def marked(ax, vs, hs=()):
            v, h = c24.verts(ax)
            return all(any(abs(q - w) < .01 for q in v) for w in vs) and all(any(abs(q - w) < .01 * max(1, abs(w)) for q in h) for w in hs)

        def drawn(ax, y):
            y = np.ma.filled(np.ma.asarray(y, float), np.nan)
            return any(b.shape == y.shape and np.array_equal(np.ma.filled(np.ma.asarray(b, float), np.nan), y, equal_nan=True) for b in (np.ma.asarray(l.get_ydata()) for l in ax.lines))
        hx, hy, half = f[0] / 2, f[1] / 2, amp / 2
        row, col = int(np.round(y0)), int(np.round(x0))
        sure = min(abs(y0 % 1 - .5), abs(x0 % 1 - .5)) > .02          # which row and column is nearest
        M.check(any(ax.images and marked(ax, [x0 - hx, x0 + hx], [y0 - hy, y0 + hy]) for ax in axs), "marks", "half widths not marked on the image", true=t, fwhm=f)
        for c, h, cut, n in ((x0, hx, img[row], "x"), (y0, hy, img[:, col], "y")):
            M.check(any((not sure or drawn(ax, cut)) and marked(ax, [c, c - h, c + h]) and any(abs(q / half - 1) < .01 for q in c24.verts(ax)[1]) for ax in axs if not ax.images),
                    "marks", "cut along %s with centre, half widths and half maximum not drawn" % n, true=t, fwhm=f)
        M.event("marks_read")
    M.nontrivial("report", plot, prn, hk)
    plt.close("all")
    txt = io.StringIO()
    m = pf.fit_gaussian2d(img)
    with contextlib.redirect_stdout(txt):
        pf.print_model_params(m)
    rows = [l.split("\t") for l in txt.getvalue().strip().splitlines()]
    M.check([r[1] for r in rows] == list(m.param_names) and np.allclose([float(r[0]) for r in rows], m.parameters, rtol=0, atol=1e-4), "params", "printed parameters", text=txt.getvalue())

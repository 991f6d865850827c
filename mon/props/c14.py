"""C14 PSF-convolved image formation: images and every observed evaluation against the definition."""
import numpy as np
import petrofit as pf
from petrofit.modeling.models import GenSersic2D
from astropy.modeling import models
from .. import refs, gens

RULE = ("Sub-models (Sersic, generalised Sersic, Gaussian, compound) x PSFs (asymmetric, odd/even, non-square, elongated, delta) x "
        "oversample None/int/window (named or numeric centre, anywhere incl. partly or wholly outside) x psf_oversample x psf_pa x image "
        "shapes and origins (negative, fractional); images, permuted and partial pixel lists and evaluations made by fitters are "
        "recomputed by direct sampling, direct convolution and binning. Non-trivial: distinct (model, oversampling class, "
        "psf class, psf factor, rotated, shape class, origin class).")
PLAN = {"quick": {"image": 1200, "relations": 360, "rotate": 180, "fit": 36},
        "thorough": {"image": 9000, "relations": 2500, "rotate": 1200, "fit": 120}}
NEED = ["PSFConvolvedModel2D.evaluate", "evaluations_judged", "windows", "windows_clipped", "psf_binned", "rotations",
        "subset_pairs", "fit_evaluations_judged"]
ASSUME = ["Pixels outside the square spanned by the larger image side count as zero in the convolution (pixels on that square are modelled).",
          "Windows whose centre lies exactly between two pixels are not judged (rounding tie).",
          "For rotations other than multiples of 90 degrees the reference PSF is scipy.ndimage.rotate; an analytic elongated Gaussian checks its direction."]
TOL = 1e-9


def scalars(p):
    return [float(np.ravel(np.asarray(getattr(v, "value", v)))[0]) for v in p]


def reference(m, x, y, params, sub=None):
    """Expected values of a PSFConvolvedModel2D at (x, y); None when ambiguous."""
    sub = m.model if sub is None else sub
    p = scalars(params)
    sub = sub.copy()
    ov = m.oversample
    named = False
    if isinstance(ov, tuple):
        c = [p[list(m.param_names).index(v)] if isinstance(v, str) else float(v) for v in ov[:2]]
        ov = (c[0], c[1], ov[2], ov[3])
    sub.parameters = p[:-1]
    if isinstance(sub, models.Sersic2D) and not isinstance(sub, GenSersic2D):
        fn = lambda a, b: refs.sersic2d(a, b, *p[:-1])
    else:
        fn = lambda a, b: sub(a, b)
    return refs.form_pixels(fn, x, y, psf=m.psf, oversample=ov, psf_oversample=m.psf_oversample, psf_pa=p[-1])


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        return
    M.seen = getattr(M, "seen", 0) + 1
    fit = M.case["kind"] == "fit"
    if fit and M.seen % 11:
        return
    m, x, y, params = a["self"], np.asarray(a["x"], float), np.asarray(a["y"], float), a["params"]
    want = reference(m, x, y, params)
    if want is None:
        M.event("ties")
        return
    got = np.asarray(ev.result, float)
    M.event("fit_evaluations_judged" if fit else "evaluations_judged")
    top = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 0
    M.check(got.shape == x.shape and np.allclose(got, want, rtol=1e-8, atol=TOL * top + 1e-300, equal_nan=True), "image",
            "image differs from sampling + convolution + binning", oversample=m.oversample, psf_oversample=m.psf_oversample,
            psf_shape=np.shape(m.psf), n=x.size, x_range=(x.min(), x.max()), y_range=(y.min(), y.max()), params=scalars(params),
            worst=None if got.shape != want.shape else float(np.nanmax(np.abs(got - want)) / (top or 1)))


def hooks(M):
    return {"PSFConvolvedModel2D.evaluate": lambda ev: judge(M, ev)}


def sub_model(rng, nx, ny, ox, oy, kind=None):
    k = int(rng.integers(5)) if kind is None else kind
    pos = lambda: dict(x_0=ox + rng.uniform(-2, nx + 1), y_0=oy + rng.uniform(-2, ny + 1))
    ser = lambda: dict(amplitude=rng.uniform(.1, 50), r_eff=rng.uniform(1.5, 9), n=rng.uniform(.5, 4.5), ellip=rng.uniform(0, .8), theta=gens.angle(rng), **pos())
    if k == 0:
        return "sersic", models.Sersic2D(**ser())
    if k == 1:
        return "gen", GenSersic2D(c_0=rng.uniform(-.5, 1.5), **ser())
    if k == 2:
        p = pos()
        return "gauss", models.Gaussian2D(rng.uniform(1, 9), p["x_0"], p["y_0"], rng.uniform(.8, 5), rng.uniform(.8, 5), theta=gens.angle(rng))
    if k == 3:
        return "compound", models.Sersic2D(**ser()) + models.Sersic2D(**ser()) + models.Const2D(rng.normal())
    return "sersic", models.Sersic2D(**ser())


def some_psf(rng):
    k = int(rng.integers(7))
    if k == 0:
        return "none", None
    if k == 6:                                   # counts, not normalised
        return "counts", np.round(gens.psf(rng) * 300).astype(str(rng.choice(["i2", "i8", ">i4", "u1", ">f8"])))
    if k == 1:
        n = int(rng.integers(1, 6)) * 2 + 1
        d = np.zeros((n, n))
        d[n // 2, n // 2] = 1
        return "delta", d
    if k == 2:
        d = rng.random((int(rng.integers(2, 8)), int(rng.integers(2, 8))))
        return "oblong", d / d.sum()
    return "psf", gens.psf(rng)


def some_oversample(rng, names, nx, ny, ox, oy, step):
    k = int(rng.integers(5))
    if k == 0 and step == 1:
        return "none", None
    if k <= 2:
        return "int", step * int(rng.integers(1, 5))
    c = [ox + rng.uniform(-6, nx + 6), oy + rng.uniform(-6, ny + 6)]
    if rng.random() < .4:
        c = [ox + int(rng.integers(-4, nx + 4)), oy + int(rng.integers(-4, ny + 4))]
    xs = [n for n in names if n.startswith(("x_", "x_mean"))]
    if xs and rng.random() < .5:
        x = str(rng.choice(xs))
        c = [x, x.replace("x_", "y_", 1)]
        if rng.random() < .2:
            c[1] = oy + ny / 2 + .3
    return "window", (c[0], c[1], int(rng.integers(1, 18)), step * int(rng.integers(1, 5)))


def build(rng, nx, ny, ox, oy, kind=None):
    name, sub = sub_model(rng, nx, ny, ox, oy, kind)
    pname, psf = some_psf(rng)
    if psf is not None and rng.random() < .15:
        pname, psf = pname + " scaled", psf * rng.uniform(.3, 4)       # (only warned about)
    step = int(rng.integers(2, 4)) if psf is not None and rng.random() < .35 else 1
    oname, ov = some_oversample(rng, sub.param_names, nx, ny, ox, oy, step)
    m = pf.PSFConvolvedModel2D(sub, psf=psf, oversample=ov, psf_oversample=step if step > 1 or (psf is not None and ov is not None and rng.random() < .2) else None)
    return m, sub, (name, oname, pname, step)


def geometry(rng, big=34):
    nx, ny = int(rng.integers(3, big)), int(rng.integers(3, big))
    if rng.random() < .3:
        ny = nx
    k = int(rng.integers(4))
    ox, oy = (0, 0) if k == 0 else (int(rng.integers(-30, 60)), int(rng.integers(-30, 60)))
    if k == 3:
        ox, oy = ox + float(np.round(rng.random(), 2)), oy + float(np.round(rng.random(), 2))
    return nx, ny, ox, oy, k


def coords(nx, ny, ox, oy):
    jj, ii = np.mgrid[:ny, :nx]
    return ii + ox, jj + oy


def count(M, m, tag, nx, ny, ox, oy):
    if tag[1] == "window":
        M.event("windows")
        c = [getattr(m, v).value if isinstance(v, str) else v for v in m.oversample[:2]]
        s = m.oversample[2] / 2
        if c[0] - s < ox - .5 or c[1] - s < oy - .5 or c[0] + s > ox + nx or c[1] + s > oy + ny:
            M.event("windows_clipped")
    if tag[3] > 1:
        M.event("psf_binned")


def run_image(M, rng, case):
    nx, ny, ox, oy, k = geometry(rng)
    m, sub, tag = build(rng, nx, ny, ox, oy)
    if m.psf is not None and rng.random() < .15:
        m.psf_pa = float(rng.choice([90, 180, 270, -90, 30.]))
    before = m.parameters.copy()
    psf_before = None if m.psf is None else m.psf.copy()
    x, y = coords(nx, ny, ox, oy)
    im = m(x, y)
    im2 = m(x, y)                              # judged too: now from the cached grid
    M.check(np.array_equal(im, im2, equal_nan=True), "repeat", "second evaluation differs")
    M.check(np.array_equal(m.parameters, before) and (psf_before is None or np.array_equal(psf_before, m.psf)), "kept", "evaluation changed the model")
    count(M, m, tag, nx, ny, ox, oy)
    if k == 0 and rng.random() < .3:
        M.close(pf.model_to_image(m, (nx, ny)), im, "model_to_image", rtol=1e-9, atol=1e-12 * np.abs(im).max(), msg="model_to_image of the wrapped model")
    # the original sub-model, not the extracted one, is the truth
    want = reference(m, x, y, m.parameters, sub=sub)
    if want is not None:
        M.close(im, want, "image_original", rtol=1e-8, atol=TOL * np.abs(want).max(), msg="image differs from its sub-model's", oversample=m.oversample, params=m.parameters)
    # another order, any subset with the same extent, other array shapes
    xf, yf = x.ravel(), y.ravel()
    keep = rng.random(xf.size) < rng.choice([1, .5, .1])
    for sel in (xf == xf.min(), xf == xf.max(), yf == yf.min(), yf == yf.max()):
        keep[rng.choice(np.where(sel)[0])] = True
    idx = rng.permutation(np.where(keep)[0])
    got = m(xf[idx], yf[idx])
    M.close(got, im.ravel()[idx], "subset", rtol=1e-10, atol=1e-12 * np.nanmax(np.abs(im)), msg="value depends on order or subset of pixels", n=idx.size, shape=(ny, nx), origin=(ox, oy))
    M.event("subset_pairs")
    M.nontrivial(*tag, (nx > ny) - (nx < ny), k, float(m.psf_pa.value) % 360)
    M.sample(oversample=m.oversample, psf=np.shape(m.psf), psf_oversample=m.psf_oversample, shape=(ny, nx), origin=(ox, oy), total=im.sum())


def run_relations(M, rng, case):
    nx, ny, ox, oy, k = geometry(rng, 30)
    m, sub, tag = build(rng, nx, ny, ox, oy, kind=0)
    x, y = coords(nx, ny, ox, oy)
    im = m(x, y)
    top = np.abs(im).max()
    count(M, m, tag, nx, ny, ox, oy)
    # linear in amplitude
    c = rng.uniform(-3, 30)
    a0 = m.amplitude.value
    m.amplitude = c * a0
    M.close(m(x, y), c * im, "amplitude", rtol=1e-8, atol=1e-9 * abs(c) * top, msg="not linear in amplitude")
    m.amplitude = a0
    # linear in the PSF
    if m.psf is not None:
        p0 = m.psf
        q = rng.random(p0.shape)
        q /= q.sum()
        t = rng.uniform(0, 1)
        m.psf = q
        imq = m(x, y)
        m.psf = t * p0 + (1 - t) * q
        M.close(m(x, y), t * im + (1 - t) * imq, "psf_linear", rtol=1e-8, atol=1e-9 * top, msg="not linear in the PSF")
        m.psf = p0
    # translation: moving image and model together changes nothing
    if not (tag[1] == "window" and not all(isinstance(v, str) for v in m.oversample[:2])):
        dx, dy = int(rng.integers(-20, 20)), int(rng.integers(-20, 20))
        tie = tag[1] == "window" and (refs.rint_window(m.x_0.value, ox) is None or refs.rint_window(m.y_0.value, oy) is None)
        m.x_0, m.y_0 = m.x_0.value + dx, m.y_0.value + dy
        if not tie:
            M.close(m(x + dx, y + dy), im, "shift", rtol=1e-6, atol=1e-9 * top, msg="image depends on its origin")
        m.x_0, m.y_0 = m.x_0.value - dx, m.y_0.value - dy
    # nothing to do: the sub-model itself, also through a delta PSF
    M.close(pf.PSFConvolvedModel2D(sub)(x, y), sub(x, y), "plain", rtol=1e-12, msg="without PSF and oversampling the model is not its sub-model")
    d = np.zeros((5, 7))
    d[2, 3] = 1
    M.close(pf.PSFConvolvedModel2D(sub, psf=d)(x, y), sub(x, y), "delta", rtol=1e-9, atol=1e-10 * np.abs(sub(x, y)).max(), msg="a centred delta PSF changes the image")
    # flux of a source far from the border
    g = models.Gaussian2D(rng.uniform(1, 9), 30.3, 31.1, rng.uniform(1.5, 3), rng.uniform(1.5, 3), theta=gens.angle(rng))
    psf = gens.psf(rng, n=int(rng.integers(3, 10)))
    st = int(rng.integers(1, 4))
    w = pf.PSFConvolvedModel2D(g, psf=psf, oversample=st * int(rng.integers(1, 3)), psf_oversample=st)
    X, Y = coords(62, 60, 0, 0)
    true = 2 * np.pi * g.amplitude.value * g.x_stddev.value * g.y_stddev.value
    M.close(w(X, Y).sum(), true, "flux", rtol=1e-6, msg="convolution with a normalised PSF does not conserve flux", psf_oversample=st)
    # centroid moves by the PSF's centroid (correlation instead of convolution moves it the other way)
    py, px = np.mgrid[:psf.shape[0], :psf.shape[1]]
    cx, cy = (psf * px).sum() - (psf.shape[1] - 1) // 2, (psf * py).sum() - (psf.shape[0] - 1) // 2
    v = w(X, Y)
    M.close([(v * X).sum() / v.sum() - 30.3, (v * Y).sum() / v.sum() - 31.1], [cx / st, cy / st], "centroid", rtol=0, atol=1e-4, msg="PSF offset goes the wrong way", psf_oversample=st)
    M.nontrivial("relations", *tag, k)


def run_rotate(M, rng, case):
    nx, ny = int(rng.integers(20, 34)), int(rng.integers(20, 34))
    name, sub = sub_model(rng, nx, ny, 0, 0)
    x, y = coords(nx, ny, 0, 0)
    psf = gens.psf(rng, style=int(rng.integers(1, 3)))
    m = pf.PSFConvolvedModel2D(sub, psf=psf, oversample=int(rng.integers(1, 3)))
    q = int(rng.integers(-4, 6))
    m.psf_pa = 90. * q
    r = pf.PSFConvolvedModel2D(sub, psf=np.rot90(psf, q % 4).copy(), oversample=m.oversample)
    A, B = m(x, y), r(x, y)
    M.close(A, B, "rot90", rtol=1e-7, atol=1e-8 * np.abs(B).max(), msg="psf_pa of a multiple of 90 degrees is not a rotation of the PSF", q=q)
    M.check(np.array_equal(m.psf, psf), "psf_kept", "rotation changed the stored PSF")
    # an elongated Gaussian turned by any angle, around a point source
    t = float(rng.uniform(-170, 170))
    n = 31
    yy, xx = np.mgrid[:n, :n] - 15.

    def elong(angle):
        a = np.deg2rad(angle)
        u, v = xx * np.cos(a) + yy * np.sin(a), -xx * np.sin(a) + yy * np.cos(a)
        k = np.exp(-.5 * ((u / 3.2) ** 2 + (v / 1.6) ** 2))
        return k / k.sum()
    pt = models.Gaussian2D(1, 20, 20, .5, .5)
    X, Y = coords(41, 41, 0, 0)
    m = pf.PSFConvolvedModel2D(pt, psf=elong(0))
    m.psf_pa = t
    # rot90 turns rows towards smaller y, i.e. by -angle in (x, y)
    want = pf.PSFConvolvedModel2D(pt, psf=elong(-t))(X, Y)
    M.close(m(X, Y), want, "angle", rtol=0, atol=.004 * want.max(), msg="psf_pa turns the PSF by another angle", angle=t)
    M.event("rotations", 2)
    M.nontrivial("rot", name, q % 4, int(t // 30))


def run_fit(M, rng, case):
    nx, ny = int(rng.integers(14, 22)), int(rng.integers(14, 22))
    sub = models.Sersic2D(amplitude=2, r_eff=3, n=1.2, x_0=nx / 2 + rng.uniform(-1, 1), y_0=ny / 2 + rng.uniform(-1, 1), ellip=.3, theta=rng.uniform(-1, 1),
                          bounds=pf.get_default_sersic_bounds())
    step = int(rng.integers(1, 3))
    ov = step * 2 if rng.random() < .5 else ("x_0", "y_0", 7, step * 2)
    m = pf.PSFConvolvedModel2D(sub, psf=gens.psf(rng, n=5), oversample=ov, psf_oversample=step)
    m.fixed["psf_pa"] = bool(rng.random() < .7)
    x, y = coords(nx, ny, 0, 0)
    img = m(x, y)
    if rng.random() < .5:
        img = img + rng.normal(0, .01, img.shape)
        img[rng.random(img.shape) < .1] = np.nan
    start = m.copy()
    start.x_0 = start.x_0.value + .4
    start.amplitude = 3.
    start.n = 2.
    pf.fit_model(img, start, maxiter=60)
    M.nontrivial("fit", isinstance(ov, tuple), step, m.fixed["psf_pa"])

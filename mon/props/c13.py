"""C13 rendering: every observed model_to_image / make_grid call against its definition."""
import numpy as np
import petrofit as pf
from astropy.modeling import models
from .. import refs, gens

RULE = ("Random sub-models (Sersic, Gaussian, plane, compound, PSF-wrapped, plain functions) rendered at rectangular/odd/even sizes "
        "as ints, floats, lists and tuples, with and without centres (also negative, far away), all modes and factors; each call of "
        "model_to_image and make_grid is judged by the monitor. Non-trivial: distinct (model kind, size parity, centre class, mode, factor).")
PLAN = {"quick": {"render": 1200, "grid": 150, "bad": 120, "roundtrip": 180},
        "thorough": {"render": 8000, "grid": 3000, "bad": 400, "roundtrip": 1500}}
NEED = ["model_to_image", "make_grid", "rejections", "centred", "oversampled"]
ASSUME = ["astropy analytic models are trusted at single points; Sersic profiles are recomputed independently.",
          "A centre with a fractional part is not refused by petrofit; only its arithmetic is judged."]


def pair(size):
    return (int(size[0]), int(size[1])) if isinstance(size, (list, tuple)) else (int(size), int(size))


def judge_image(M, ev):
    a = ev.args
    if ev.exc is not None:
        return                                       # judged by the workloads
    nx, ny = pair(a["size"])
    ox = oy = 0
    if a["center"] is not None:
        ox, oy = a["center"][0] - nx // 2, a["center"][1] - ny // 2
        M.event("centred")
    im = np.asarray(ev.result)
    wit = dict(size=a["size"], center=a["center"], mode=a["mode"], factor=a["factor"], model=repr(a["model"])[:120])
    if not M.check(im.shape == (ny, nx), "shape", "image shape %s for size %s" % (im.shape, a["size"]), **wit):
        return
    m = a["model"]
    if a["mode"] == "center":
        jj, ii = np.mgrid[:ny, :nx].astype(float)
        want = m(ii + ox, jj + oy)
    elif a["mode"] == "oversample":
        M.event("oversampled")
        if isinstance(m, pf.PSFConvolvedModel2D):
            return
        want = refs.subpixel_mean(m, nx, ny, ox, oy, int(a["factor"]))
    elif a["mode"] == "linear_interp":
        if isinstance(m, pf.PSFConvolvedModel2D):
            return
        want = sum(m(*[np.mgrid[:ny, :nx][1 - k] * 1. + (ox, oy)[k] + d[k] for k in (0, 1)])
                   for d in ((-.5, -.5), (-.5, .5), (.5, -.5), (.5, .5))) / 4
    else:
        return
    M.close(im, np.broadcast_to(want, (ny, nx)), "pixels", rtol=1e-8, atol=1e-12 * np.nanmax(np.abs(want)),
            msg="pixel values are not the model at the pixel centres", **wit)


def judge_grid(M, ev):
    a = ev.args
    if ev.exc is not None:
        return
    n, f, (ox, oy) = int(a["size"]), a["factor"], a["origin"]
    gx, gy = ev.result
    if not M.check(np.shape(gx) == np.shape(gy) == (n * f, n * f), "grid_shape", "grid shape", size=n, factor=f, shape=np.shape(gx)):
        return
    axis = (np.arange(n * f) + .5) / f - .5
    t = 1e-9 * max(1., abs(ox), abs(oy), n)
    M.check(np.allclose(gx, (axis + ox)[None, :], rtol=0, atol=t), "grid_x", "x of the sub-pixels", size=n, factor=f, origin=(ox, oy), got=gx[0])
    M.check(np.allclose(gy, (axis + oy)[:, None], rtol=0, atol=t), "grid_y", "y of the sub-pixels", size=n, factor=f, origin=(ox, oy), got=gy[:, 0])


def hooks(M):
    return {"model_to_image": lambda ev: judge_image(M, ev), "make_grid": lambda ev: judge_grid(M, ev)}


def any_model(rng, nx=20, ny=20, ox=0, oy=0):
    k = int(rng.integers(6))
    x0, y0 = ox + rng.uniform(-2, nx + 2), oy + rng.uniform(-2, ny + 2)
    ser = lambda: models.Sersic2D(amplitude=rng.uniform(.1, 50), r_eff=rng.uniform(2, 12), n=rng.uniform(.5, 4), x_0=ox + rng.uniform(-2, nx + 2),
                                  y_0=oy + rng.uniform(-2, ny + 2), ellip=rng.uniform(0, .8), theta=gens.angle(rng))
    if k == 0:
        return "sersic", ser()
    if k == 1:
        return "gauss", models.Gaussian2D(rng.uniform(1, 9), x0, y0, rng.uniform(1, 6), rng.uniform(1, 6), theta=gens.angle(rng))
    if k == 2:
        return "plane", models.Planar2D(rng.normal(), rng.normal(), rng.normal())
    if k == 3:
        return "compound", ser() + models.Gaussian2D(3, x0, y0, 2, 4) + models.Const2D(rng.normal())
    if k == 4:
        return "psf", pf.PSFConvolvedModel2D(ser(), psf=np.ones((3, 3)) / 9, oversample=int(rng.integers(1, 3)))
    a, b = rng.normal(size=2)
    return "callable", lambda x, y: a * x + b * y * y


def run_render(M, rng, case):
    nx, ny = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    size = (nx, ny)
    form = int(rng.integers(4))
    if form == 0:
        ny = nx
        size = [nx, float(nx), np.int64(nx)][int(rng.integers(3))]
    elif form == 1:
        size = [nx, ny]
    elif form == 2:
        size = (float(nx), ny)
    center = None
    if rng.random() < .6:
        sc = 10 if rng.random() < .8 else 5000
        center = [int(v) for v in rng.integers(-sc, sc + 30, 2)]
        if rng.random() < .3:                          # near the default origin
            center = [nx // 2 + int(rng.integers(-2, 3)), ny // 2 + int(rng.integers(-2, 3))]
        if rng.random() < .3:                          # not whole: the pixels lie where the origin puts them
            center = [v + float(rng.choice([-.75, -.5, -.25, 0., .25, .5, .75])) for v in center]
            M.event("fractional_centres")
        if rng.random() < .5:
            center = tuple(center)
    ox, oy = (0, 0) if center is None else (center[0] - nx // 2, center[1] - ny // 2)
    kind, m = any_model(rng, nx, ny, ox, oy)
    mode = str(rng.choice(["center", "center", "oversample", "linear_interp"]))
    if kind == "psf" and mode != "center":
        mode = "center"
    f = int(rng.integers(1, 7)) if mode == "oversample" else 1
    kw = dict(mode=mode, factor=f, center=center)
    if mode == "center" and rng.random() < .5:
        kw = dict(center=center)
    before = None if kind == "callable" else m.parameters.copy()
    if kind == "callable" and mode == "center" and rng.random() < .5:
        kw["factor"] = 1
    im = pf.model_to_image(m, size, **kw)
    if kind == "sersic":
        p = m.parameters
        want = None
        fn = lambda x, y: refs.sersic2d(x, y, *p)
        if mode == "center":
            want = refs.subpixel_mean(fn, nx, ny, ox, oy, 1)
        elif mode == "oversample":
            want = refs.subpixel_mean(fn, nx, ny, ox, oy, f)
        if want is not None:
            M.close(im, want, "sersic", rtol=1e-8, atol=1e-12 * want.max(), msg="Sersic brightness at the pixel centres", size=size, center=center, mode=mode, factor=f)
            M.event("independent_sersic")
    if before is not None:
        M.check(np.array_equal(m.parameters, before), "model_kept", "rendering changed the model")
    M.nontrivial(kind, nx % 2, ny % 2, nx > ny, center is None, mode, f)
    M.sample(kind=kind, size=size, center=center, mode=mode, factor=f)


def run_roundtrip(M, rng, case):
    """A feature at pixel (x, y) of the sky appears at array [y - oy, x - ox]."""
    nx, ny = int(rng.integers(5, 40)), int(rng.integers(5, 40))
    c = (int(rng.integers(-50, 50)), int(rng.integers(-50, 50))) if rng.random() < .7 else None
    ox, oy = (0, 0) if c is None else (c[0] - nx // 2, c[1] - ny // 2)
    i, j = int(rng.integers(nx)), int(rng.integers(ny))
    g = models.Gaussian2D(5, ox + i, oy + j, .4, .4)
    im = pf.model_to_image(g, (nx, ny), center=c)
    M.check(im.shape == (ny, nx) and np.unravel_index(np.argmax(im), im.shape) == (j, i), "peak", "source at another pixel",
            got=np.unravel_index(np.argmax(im), im.shape), want=(j, i), size=(nx, ny), center=c)
    im = pf.model_to_image(g, (nx, ny), center=c, mode="oversample", factor=int(rng.integers(2, 8)))
    M.check(np.unravel_index(np.argmax(im), im.shape) == (j, i), "peak_over", "oversampled source at another pixel")
    if rng.random() < .1:
        m2 = models.Gaussian2D(5, ox + i + .3, oy + j - .2, 1.5, 1)
        A = pf.model_to_image(m2, (3, 4), center=(int(ox + i), int(oy + j)), mode="integrate")
        B = pf.model_to_image(m2, (3, 4), center=(int(ox + i), int(oy + j)), mode="oversample", factor=60)
        M.close(A, B, "integrate", rtol=2e-3, msg="integrated and finely oversampled images differ")
    M.nontrivial("peak", nx % 2, ny % 2, c is None)


def run_grid(M, rng, case):
    n, f = int(rng.integers(1, 60)), int(rng.integers(1, 12))
    if n * f > 400:
        f = max(1, 400 // n)
    o = (float(rng.uniform(-100, 100)), float(rng.uniform(-100, 100))) if rng.random() < .4 else tuple(int(v) for v in rng.integers(-50, 50, 2))
    if rng.random() < .2:
        o = (0, 0)
        g = pf.make_grid(n, factor=f)
    else:
        g = pf.make_grid(n, origin=o, factor=f)
    gx, gy = g
    M.close(refs.block_mean(gx, f), np.broadcast_to(np.arange(n) + o[0], (n, n)), "block_mean", rtol=0, atol=1e-8, msg="mean of the sub-pixel centres is not the pixel centre")
    M.close(refs.block_mean(gy, f), np.broadcast_to((np.arange(n) + o[1])[:, None], (n, n)), "block_mean", rtol=0, atol=1e-8, msg="mean of the sub-pixel centres is not the pixel centre")
    g2 = pf.make_grid(n, origin=o, factor=f)
    M.check(np.array_equal(g[0], g2[0]), "repeat", "grids differ between calls")
    M.nontrivial("grid", n % 2, min(f, 6), o == (0, 0))


def run_bad(M, rng, case):
    m = models.Gaussian2D(1, 3, 3, 1, 1)
    bad = [3.5, (3, 4.5), (2.2, 2), (3,), (3, 4, 5), [1, 2, 3], "10", None][case["i"] % 8]
    M.rejects("bad_size", pf.model_to_image, m, bad, what="size %r" % (bad,))
    M.rejects("bad_center", pf.model_to_image, m, (6, 6), center=[5, (1,), (1, 2, 3), [1]][case["i"] % 4], what="centre that is no pair")
    M.rejects("bad_factor", pf.make_grid, 5, factor=[1.5, 2.0, "2", None][case["i"] % 4], what="grid factor that is no integer")
    M.nontrivial("bad", case["i"] % 8)

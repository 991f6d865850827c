"""C24 plots: what is on the axes is what was measured, and drawing changes nothing."""
import re, io, contextlib
import numpy as np
import petrofit as pf
from astropy.nddata import CCDData, Cutout2D
from astropy.modeling.models import Sersic2D, Gaussian2D, Const2D, Planar2D
from astropy.table import Table
from .. import refs, gens
from . import c20

RULE = ("Petrosian objects of every curve style with full, partial, zero and no errors and with radii that do or do not exist; every plotting option; source fields, "
        "fits and apertures. The artists of every axes of every figure are read back and compared with the object's own numbers; each object and input is "
        "compared before and after, as are the numbers of calls made with and without plotting. Non-trivial: distinct (plot, options, which radii exist).")
PLAN = {"quick": {"profile": 270, "cog": 270, "rings": 180, "fit": 120, "target": 180, "segments": 120, "apertures": 150, "phot": 120, "source": 48, "correction": 72},
        "thorough": {"profile": 1500, "cog": 1500, "rings": 1000, "fit": 500, "target": 1200, "segments": 500, "apertures": 1000, "phot": 700, "source": 250, "correction": 300}}
NEED = ["profiles_read", "cogs_read", "rings_read", "fits_read", "targets_read", "apertures_read", "phot_pairs"]
ASSUME = ["Only matplotlib artists are judged (lines, collections, images, patches, texts), not colours or layout."]


def plt_():
    from matplotlib import pyplot as plt
    return plt


# ------------------------------------------------------------------ reading axes back
def verts(ax):
    """x of full-height vertical lines, y of full-width horizontal ones."""
    v, h = [], []
    for ln in ax.lines:
        X, Y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if X.size == 2 and Y.size == 2:
            if X[0] == X[1] and tuple(Y) == (0, 1):
                v.append(X[0])
            if Y[0] == Y[1] and tuple(X) == (0, 1):
                h.append(Y[0])
    return v, h


def has(lst, x, rtol=1e-9):
    return any(abs(v - x) <= rtol * max(abs(x), 1e-300) for v in lst)


def curves(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def drawn_curve(ax, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return any(a.shape == x.shape and np.allclose(a, x, rtol=1e-9, atol=0, equal_nan=True) and np.allclose(b, y, rtol=1e-9, atol=1e-12 * max(1e-300, np.nanmax(np.abs(y))), equal_nan=True)
               for a, b in curves(ax))


def segments_of(ax):
    from matplotlib.collections import LineCollection
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            out += [np.asarray(s, float) for s in c.get_segments()]
    return [s for s in out if s.shape == (2, 2)]


def marks(ax):
    """Positions of scatter points and one-point markers."""
    from matplotlib.collections import PathCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            out += [tuple(v) for v in np.ma.getdata(c.get_offsets())]
    for a, b in curves(ax):
        if a.size == 1:
            out.append((a[0], b[0]))
    return out


def has_mark(ax, x, y):
    s = max(abs(x), abs(y), 1e-300)
    return any(abs(a - x) <= 1e-9 * s and abs(b - y) <= 1e-9 * max(abs(y), 1e-300) + 1e-12 * s * (y == 0) for a, b in marks(ax))


def numbers(ax):
    txt = []
    if ax.get_legend() is not None:
        txt = [t.get_text() for t in ax.get_legend().get_texts()]
    return [float(v) for t in txt for v in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", t)], txt


def ellipse_of(patch):
    """(cx, cy, semi-major, semi-minor, angle in [0, pi)) of a closed elliptic outline."""
    P = patch.get_patch_transform().transform_path(patch.get_path()).interpolated(1)
    V = P.to_polygons(closed_only=False)[0] if not hasattr(patch, "get_center") else None
    if V is None:
        c = np.asarray(patch.get_center(), float)
        M = patch.get_patch_transform().get_matrix()[:2, :2]
        a, b = np.linalg.norm(M[:, 0]), np.linalg.norm(M[:, 1])
        ang = np.arctan2(M[1, 0], M[0, 0])
        if b > a:
            a, b, ang = b, a, ang + np.pi / 2
        return c[0], c[1], a, b, ang % np.pi
    c = (V.max(0) + V.min(0)) / 2
    d = np.hypot(*(V - c).T)
    k = d.argmax()
    return c[0], c[1], d.max(), d.min(), np.arctan2(*(V[k] - c)[::-1]) % np.pi


def rings_on(ax):
    return [ellipse_of(p) for p in ax.patches]


def ring_match(r, x, y, a, b, th):
    ok = abs(r[0] - x) < 1e-6 + 1e-6 * abs(x) and abs(r[1] - y) < 1e-6 + 1e-6 * abs(y) and abs(r[2] - a) < .01 * a and abs(r[3] - b) < .01 * b
    if ok and a / b > 1.05:
        d = abs((r[4] - th + np.pi / 2) % np.pi - np.pi / 2)
        ok = d < .03
    return ok


def images_on(ax):
    return [np.asarray(np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)) for im in ax.images]


def shows(ax, arr):
    arr = np.asarray(arr, float)
    return any(i.shape == arr.shape and np.allclose(i, arr, rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(np.append(arr[np.isfinite(arr)], 1e-300))), equal_nan=True) for i in images_on(ax))


def empty(ax):
    return not (ax.lines or ax.collections or ax.images or ax.patches or ax.get_title())


# ------------------------------------------------------------------ Petrosian
def make(M, rng):
    r, area, flux, style = gens.curve(rng)
    mode = int(rng.integers(6))
    ae, fe = gens.errors(rng, area, flux)
    if mode == 4:
        ae, fe = None, np.zeros(len(flux))
    elif mode == 5 and fe is not None:
        fe = fe.copy()
        fe[rng.integers(len(fe))] = np.nan
    s = gens.settings(rng)
    if s["interp_kind"] is None and rng.random() < .7 or len(r) < 5:
        s["interp_kind"] = "linear"
    if rng.random() < .6:
        s.update(eta=.2, epsilon=2.0)
    return pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe, **s), s, style


def numbers_of(p):
    out = {}
    for k in ("r_petrosian", "r_petrosian_err", "r_half_light", "r_total_flux", "half_flux", "total_flux", "eta", "epsilon", "r_total_flux_err", "total_flux_err", "interp_kind", "interp_num"):
        v = getattr(p, k)
        out[k] = v
    out["arrays"] = tuple(None if getattr(p, k) is None else np.asarray(getattr(p, k)).tobytes() for k in ("r_list", "area_list", "flux_list", "area_err", "flux_err", "petrosian_list", "petrosian_err"))
    return out


def same(a, b):
    return all((a[k] == b[k]) or (isinstance(a[k], float) and np.isnan(a[k]) and np.isnan(b[k])) for k in a)


def options(rng):
    o = {}
    if rng.random() < .5:
        o["plot_r"] = bool(rng.random() < .6)
    if rng.random() < .4:
        o["title"] = str(rng.choice(["My title", ""]))
    if rng.random() < .6:
        o["radius_unit"] = [None, "", "arcsec", "pix"][int(rng.integers(4))]
    if rng.random() < .4:
        o["err_alpha"] = [None, 0, .5][int(rng.integers(3))]
    if rng.random() < .3:
        o["color"] = "tab:green"
    if rng.random() < .4:
        o["show_legend"] = bool(rng.random() < .5)
    return o


def on_axes(rng):
    """-> (axes to draw on, the axes that must stay empty, pass it as argument?)"""
    plt = plt_()
    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    mode = int(rng.integers(3))
    if mode == 0:
        plt.sca(axs[0])
        return axs[0], axs[1], False
    if mode == 1:
        plt.sca(axs[1])
        return axs[0], axs[1], True
    plt.sca(axs[0])
    return axs[0], axs[1], True


def ticks_state(ax):
    return repr((ax.xaxis.get_tick_params(), ax.xaxis.get_tick_params("minor"), type(ax.xaxis.get_minor_locator()).__name__))


def draw(M, rng, f, o, what):
    ax, other, given = on_axes(rng)
    before = ticks_state(other)
    ret = f(ax=ax, **o) if given else f(**o)
    M.check(ret is ax, "returned_axes", what + " does not return the axes it drew on")
    M.check(empty(other) and ticks_state(other) == before, "other_axes", what + " touched other axes")
    M.check(len(plt_().get_fignums()) == 1, "figures", what + " opened other figures")
    return ax


def common(M, ax, p, o, y, err, what, default_title):
    w = dict(options=o)
    M.check(drawn_curve(ax, p.r_list, y), "curve", what + " does not draw the measured curve", **w)
    M.check(ax.get_title() == o.get("title", default_title), "title", "title", got=ax.get_title(), **w)
    u = o.get("radius_unit", "pix")
    lab = ax.get_xlabel()
    M.check("Radius" in lab and ((u in lab) if u else not re.search(r"\[|\]|None", lab)), "xlabel", "radius label", got=lab, **w)
    M.check(ax.get_xlim()[0] == 0, "from_zero", "axis does not start at 0", got=ax.get_xlim())
    if err is not None:
        seg = segments_of(ax)
        r, y, e = np.asarray(p.r_list, float), np.asarray(y, float), np.asarray(err, float)
        S = np.array(seg).reshape(-1, 4) if seg else np.zeros((0, 4))
        ok = True
        for i in np.where(np.isfinite(y) & np.isfinite(e))[0]:
            lo, hi = y[i] - e[i], y[i] + e[i]
            tol = 1e-9 * max(abs(y[i]), abs(e[i]), 1e-300)
            hit = (np.abs(S[:, 0] - r[i]) <= 1e-9 * abs(r[i])) & (np.abs(S[:, 2] - r[i]) <= 1e-9 * abs(r[i])) & (np.abs(np.minimum(S[:, 1], S[:, 3]) - lo) <= tol) & (np.abs(np.maximum(S[:, 1], S[:, 3]) - hi) <= tol)
            ok &= bool(hit.any())
        M.check(ok, "error_bars", what + " does not draw the 1-sigma bars of the measured errors", **w)
        from matplotlib.collections import PolyCollection
        bands = [c for c in ax.collections if isinstance(c, PolyCollection)]
        a = o.get("err_alpha", .2)
        M.check(bool(bands) == bool(a), "band", "error band drawn: %d, err_alpha=%s" % (len(bands), a))
        f = np.isfinite(y) & np.isfinite(e) & np.isfinite(r)
        if bands and f.any():
            V = [q.vertices for b in bands for q in b.get_paths() if len(q.vertices)]
            V = np.concatenate(V) if V else np.zeros((0, 2))
            sc = np.max(np.abs(y[f]) + np.abs(e[f]))
            rs = 1e-9 * np.max(np.abs(r[f]))

            def edge(z):
                return all(bool(np.any((np.abs(V[:, 0] - a) <= rs) & (np.abs(V[:, 1] - b) <= 1e-9 * sc))) for a, b in zip(r[f], z[f]))
            M.event("bands_judged")
            M.check(edge(y - e) and edge(y + e), "band", what + ": the error band is not one sigma either side", **w)
    else:
        M.check(not [s for s in segments_of(ax) if s[0][0] == s[1][0]], "no_error_bars", "vertical error bars without errors")


def run_profile(M, rng, case):
    p, s, style = make(M, rng)
    before = numbers_of(p)
    o = options(rng)
    ax = draw(M, rng, p.plot, o, "plot")
    M.event("profiles_read")
    err = p.petrosian_err if p.has_petrosian_err else None
    common(M, ax, p, o, p.petrosian_list, err, "plot", "Petrosian Profile")
    v, h = verts(ax)
    rp, re = before["r_petrosian"], before["r_petrosian_err"]
    M.check(has(h, 0.), "zero_line", "no zero line")
    nums, txt = numbers(ax)
    if o.get("plot_r", True):
        M.check(has(h, s["eta"]), "eta_line", "eta is not drawn", eta=s["eta"], got=h)
        if np.isnan(rp):
            M.check(not v, "nan_radius", "a vertical line for a radius that does not exist", got=v)
        else:
            M.check(has(v, rp) and len(v) == 1, "radius_line", "Petrosian radius drawn elsewhere", got=v, want=rp)
            if np.isnan(re):
                M.check(has_mark(ax, rp, s["eta"]), "radius_mark", "(r_petrosian, eta) not marked", want=(rp, s["eta"]), got=marks(ax)[:5])
            else:
                M.check(any(a.size == 1 and abs(a[0] - rp) <= 1e-9 * rp and abs(b[0] - s["eta"]) < 1e-9 for a, b in curves(ax)) or has_mark(ax, rp, s["eta"]), "radius_mark", "(r_petrosian, eta) not marked")
                seg = [q for q in segments_of(ax) if q[0][1] == q[1][1]]
                M.check(any(abs(q[0][1] - s["eta"]) < 1e-9 and abs(min(q[0][0], q[1][0]) - (rp - abs(re))) <= 1e-8 * rp and abs(max(q[0][0], q[1][0]) - (rp + abs(re))) <= 1e-8 * rp for q in seg),
                        "radius_error", "r_petrosian error bar", want=(rp - abs(re), rp + abs(re)), got=seg[:3])
            if o.get("show_legend", True):
                M.check(any(abs(q - rp) <= 6e-5 for q in nums) and has(nums, s["eta"], 1e-6), "legend", "legend does not name the radius and eta", text=txt, r=rp, eta=s["eta"])
    else:
        M.check(not v and not (has(h, s["eta"])), "plot_r_off", "radii drawn with plot_r off", got=[v, h])
    M.check((ax.get_legend() is not None) == o.get("show_legend", True), "legend_shown", "legend")
    M.check(same(numbers_of(p), before), "unchanged", "plotting changed the object")
    M.nontrivial("plot", tuple(sorted(o)), np.isnan(rp), np.isnan(re), err is not None)
    M.sample(plot="profile", options=o, r_petrosian=rp, drawn_vertical=v, drawn_horizontal=h)


def run_cog(M, rng, case):
    p, s, style = make(M, rng)
    before = numbers_of(p)
    o = options(rng)
    fu = [None, "", "Jy"][int(rng.integers(3))]
    if fu is not None:
        o["flux_unit"] = fu
    ax = draw(M, rng, p.plot_cog, o, "plot_cog")
    M.event("cogs_read")
    common(M, ax, p, o, p.flux_list, p.flux_err, "plot_cog", "Curve of Growth")
    M.check("L" in ax.get_ylabel() and (("[Jy]" in ax.get_ylabel()) if fu == "Jy" else "[" not in ax.get_ylabel()), "ylabel", "flux label", got=ax.get_ylabel())
    v, h = verts(ax)
    nums, txt = numbers(ax)
    want_v = 0
    for rk, fk, name in (("r_half_light", "half_flux", "half"), ("r_total_flux", "total_flux", "total")):
        r, f = before[rk], before[fk]
        if o.get("plot_r", True) and not np.isnan(r) and not np.isnan(f):
            want_v += 1
            M.check(has(v, r), "cog_radius", "%s not drawn" % rk, got=v, want=r)
            M.check(has(h, f), "cog_flux", "%s not drawn" % fk, got=h, want=f)
            M.check(has_mark(ax, r, f), "cog_mark", "(%s, %s) not marked" % (rk, fk), want=(r, f))
            if o.get("show_legend", True):
                M.check(any(abs(q - r) <= 6e-5 for q in nums), "legend", "legend does not give " + rk, text=txt, r=r)
                if name == "total":
                    M.check(any(abs(q - 100 * s["total_flux_fraction"]) <= .51 for q in nums), "legend", "legend does not give the total flux percentage", text=txt, fraction=s["total_flux_fraction"])
    M.check(len(v) == want_v and len(h) == want_v, "cog_lines", "lines drawn for radii that do not exist", got=[v, h], want=want_v)
    M.check(same(numbers_of(p), before), "unchanged", "plotting changed the object")
    M.nontrivial("cog", tuple(sorted(o)), want_v, p.flux_err is not None)


def run_rings(M, rng, case):
    p, s, style = make(M, rng)
    before = numbers_of(p)
    plt = plt_()
    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    plt.sca(axs[0])
    pos = (float(rng.uniform(-5, 60)), float(rng.uniform(-5, 60)))
    elong, th = float(rng.uniform(1, 4)), gens.angle(rng)
    kw = dict(position=pos, elong=elong, theta=th)
    if rng.random() < .3:
        kw["color"], kw["lw"] = "w", 2
    if case["i"] % 7 == 0:
        kw, pos, elong, th = {}, (0, 0), 1.0, 0.0
    p.imshow(**kw)
    M.event("rings_read")
    want = [before["r_half_light"], before["r_total_flux"], p.fraction_flux_to_r(.2), p.fraction_flux_to_r(.8)]
    want = [float(r) for r in want if not np.isnan(r) and r > 0]
    got = rings_on(axs[0])
    M.check(len(got) == len(want), "rings", "number of apertures drawn", got=len(got), want=len(want))
    M.check(all(any(ring_match(g, *pos, r, r / elong, th % np.pi) for g in got) for r in want), "rings", "apertures are not at the measured radii", got=got, want=want, pos=pos, elong=elong, theta=th)
    M.check(has_mark(axs[0], *[float(v) for v in pos]), "ring_centre", "position not marked", got=marks(axs[0]), want=pos)
    M.check(empty(axs[1]), "other_axes", "imshow drew on other axes")
    M.check(same(numbers_of(p), before), "unchanged", "imshow changed the object")
    M.nontrivial("rings", len(want), elong > 2, bool(kw))


# ------------------------------------------------------------------ fits
def run_fit(M, rng, case):
    plt = plt_()
    plt.close("all")
    nx, ny = int(rng.integers(9, 40)), int(rng.integers(9, 40))
    x0, y0 = float(rng.uniform(2, nx - 3)), float(rng.uniform(2, ny - 3))
    m = Sersic2D(5, float(rng.uniform(2, 6)), float(rng.uniform(.6, 2.5)), x0, y0, .3, .7)
    u = int(rng.integers(5))
    if u == 0:                                  # negative values in the model
        m = Planar2D(float(rng.normal()), float(rng.normal()), float(rng.normal(0, 9)))
    elif u == 1:
        m.amplitude = -m.amplitude.value
    elif u == 2:
        m = m + Const2D(float(rng.normal(0, 5)))
    img = m(*np.meshgrid(np.arange(nx), np.arange(ny))) + rng.normal(0, .2, (ny, nx))
    center = None
    ox = oy = 0
    if rng.random() < .4:
        cx, cy = int(rng.integers(0, 30)), int(rng.integers(0, 30))
        center = (cx, cy)
        ox, oy = cx - nx // 2, cy - ny // 2
    psf = rng.random() < .3
    if psf:
        m = pf.PSFConvolvedModel2D(m, psf=gens.psf(rng, 3))
    kind = ["array", "ccd", "cutout", "nan"][case["i"] % 4]
    arg = img
    if kind == "ccd":
        arg = CCDData(img, unit="adu")
    elif kind == "cutout":
        arg = Cutout2D(img, ((nx - 1) / 2, (ny - 1) / 2), img.shape)
    elif kind == "nan":
        img[0, 0] = np.nan
    keep, pars = img.copy(), np.array(m.parameters)
    kw = {} if center is None else dict(center=center)
    if rng.random() < .5:
        kw.update(vmin=-1., vmax=float(rng.uniform(1, 9)))
    if rng.random() < .4:
        kw["cbar"] = bool(rng.random() < .5)
    if rng.random() < .3:
        kw["flux_label"] = "Jy"
    axs, cb, mi, res = pf.plot_fit(m, arg, **kw)
    M.event("fits_read")
    x, y = np.meshgrid(np.arange(nx, dtype=float) + ox, np.arange(ny, dtype=float) + oy)
    want = np.asarray(m(x, y)).reshape(ny, nx)
    w = dict(shape=(ny, nx), kind=kind, center=center, psf=psf)
    M.close(mi, want, "fit_model", rtol=1e-6, atol=1e-9, msg="model image is not the model at the data's pixels", **w)
    M.close(res, keep - want, "fit_residual", rtol=1e-6, atol=1e-7, msg="residual is not data - model", **w)
    M.check(len(axs) == 3, "fit_axes", "not three panels")
    for ax, a, name in zip(axs, (keep, mi, res), ("data", "model", "residual")):
        M.check(shows(ax, a), "fit_panel", name + " panel does not show the " + name, **w)
        M.check(name in ax.get_title().lower(), "fit_title", "panel title", got=ax.get_title())
        if "vmin" in kw:
            M.check(tuple(ax.images[0].get_clim()) == (kw["vmin"], kw["vmax"]), "fit_limits", "display limits", got=ax.images[0].get_clim())
    lims = {tuple(ax.images[0].get_clim()) for ax in axs}
    M.check(len(lims) == 1, "fit_limits", "panels have different display limits", got=list(lims))
    M.check((cb is not None) == kw.get("cbar", True), "fit_cbar", "colour bar")
    if cb is not None:
        M.check(cb.ax.get_xlabel() == kw.get("flux_label", "Pixel Value"), "fit_cbar", "colour bar label", got=cb.ax.get_xlabel())
    M.check(np.array_equal(img, keep, equal_nan=True) and np.array_equal(pars, m.parameters), "unchanged", "plot_fit changed its inputs")
    M.nontrivial("fit", kind, center is not None, psf, nx > ny, tuple(sorted(kw)))


def run_target(M, rng, case):
    plt = plt_()
    plt.close("all")
    img = rng.normal(0, 1, (int(rng.integers(5, 60)), int(rng.integers(5, 60))))
    keep = img.copy()
    x, y = float(rng.uniform(-5, 70)), float(rng.uniform(-5, 70))
    kw, size = {}, max(img.shape)
    if rng.random() < .6:
        size = int(rng.integers(2, 90)) if rng.random() < .5 else float(rng.uniform(2, 90))
        kw["size"] = size
    if rng.random() < .4:
        kw.update(vmin=-.5, vmax=.7)
    if rng.random() < .3:
        kw.update(c="w", lw=2, marker_base_size=3)
    pf.plot_target(img, (x, y), **kw)
    ax = plt.gca()
    M.event("targets_read")
    M.check(shows(ax, keep), "target_image", "image not shown")
    M.check(has_mark(ax, x, y), "target_mark", "target marked elsewhere", got=marks(ax), want=(x, y))
    M.close(sorted(ax.get_xlim()), [x - size / 2, x + size / 2], "target_view", rtol=1e-9, atol=1e-9, msg="x limits", size=size)
    M.close(sorted(ax.get_ylim()), [y - size / 2, y + size / 2], "target_view", rtol=1e-9, atol=1e-9, msg="y limits", size=size)
    if "vmin" in kw:
        M.check(tuple(ax.images[0].get_clim()) == (-.5, .7), "target_limits", "display limits")
    M.check(np.array_equal(img, keep), "unchanged", "image changed")
    M.nontrivial("target", tuple(sorted(kw)), img.shape[0] > img.shape[1], size > max(img.shape))


def run_segments(M, rng, case):
    plt = plt_()
    plt.close("all")
    img, src = gens.field(rng)
    segm = pf.make_segments(img, npixels=5, threshold=1.)
    if segm is None:
        return
    keep, lab = img.copy(), segm.data.copy()
    kw = dict(vmin=-1, vmax=4) if rng.random() < .5 else {}
    pf.plot_segment_residual(segm, img, **kw)
    want = np.where(lab != 0, 0.0, keep)
    M.check(shows(plt.gca(), want), "residual_image", "labelled pixels are not zeroed (or others are)")
    M.check(np.array_equal(img, keep) and np.array_equal(segm.data, lab), "unchanged", "plot_segment_residual changed its inputs")
    plt.close("all")
    pf.plot_segments(segm, **(dict(image=img) if case["i"] % 2 else {}), title="T")
    ax = plt.gca()
    M.check(shows(ax, lab) and (not case["i"] % 2 or shows(ax, keep)) and ax.get_title() == "T", "segments_image", "segmentation map (or image) not shown")
    M.check(np.array_equal(img, keep) and np.array_equal(segm.data, lab), "unchanged", "plot_segments changed its inputs")
    plt.close("all")
    deb = bool(rng.random() < .6)
    a = pf.make_catalog(img, 1., npixels=5, deblend=deb, plot=True, **kw)
    figs = plt.get_fignums()
    axs = plt.figure(figs[-1]).axes if figs else []
    M.check(len(axs) == (2 if deb else 1), "catalog_panels", "panels drawn", got=len(axs), deblend=deb)
    if len(axs) == (2 if deb else 1):
        M.check(shows(axs[0], a[1].data) and shows(axs[0], keep), "catalog_panels", "first panel does not show image and segmentation map")
        if deb and a[2] is not None:
            M.check(shows(axs[1], a[2].data), "catalog_panels", "second panel does not show the deblended map")
    b = pf.make_catalog(img, 1., npixels=5, deblend=deb, plot=False)
    M.check(np.array_equal(a[1].data, b[1].data) and (not deb or np.array_equal(a[2].data, b[2].data)) and np.array_equal(a[0].labels, b[0].labels), "catalog_same", "catalog differs with plot on")
    M.nontrivial("segments", deb, bool(kw), len(src))


def run_apertures(M, rng, case):
    plt = plt_()
    plt.close("all")
    k = int(rng.integers(0, 6)) if rng.random() < .8 else int(rng.integers(6, 60))
    want, aps = [], []
    for _ in range(k):
        pos = (float(rng.uniform(0, 50)), float(rng.uniform(0, 50)))
        r, e, th = float(rng.uniform(1, 20)), float(rng.uniform(1, 4)), gens.angle(rng)
        aps.append(pf.radial_elliptical_aperture(pos, r, e, th))
        want.append((*pos, r, r / e, th % np.pi))
    img = rng.normal(0, 1, (50, 40)) if rng.random() < .6 else None
    keep = None if img is None else img.copy()
    kw = {}
    if img is not None:
        kw["image"] = img
        if rng.random() < .5:
            kw.update(vmin=-1, vmax=2)
    pf.plot_apertures(apertures=aps, **kw) if k or rng.random() < .5 else pf.plot_apertures(**kw)
    ax = plt.gca()
    M.event("apertures_read")
    got = rings_on(ax)
    M.check(len(got) == k and all(any(ring_match(g, *w) for g in got) for w in want), "apertures", "apertures drawn are not the ones given", got=got, want=want)
    M.check(img is None and not ax.images or img is not None and shows(ax, keep), "apertures_image", "image not shown")
    M.check(img is None or np.array_equal(img, keep), "unchanged", "image changed")
    M.nontrivial("apertures", k, img is not None)


# ------------------------------------------------------------------ photometry with and without plots
def run_phot(M, rng, case):
    plt = plt_()
    plt.close("all")
    img, src = gens.field(rng)
    x0, y0, a, e, t, amp = src[0]
    rl = np.sort(rng.uniform(1, 20, int(rng.integers(1, 8))))
    elong, th = 1 / (1 - e), t
    kw = dict(elong=elong, theta=th)
    if rng.random() < .4:
        kw["error"] = np.abs(rng.normal(1, .1, img.shape))
    if rng.random() < .4:
        kw["mask"] = rng.random(img.shape) < .9
    if rng.random() < .3:
        kw["method"] = "center"
    keep = img.copy()
    a_ = pf.radial_photometry(img, (x0, y0), rl, plot=False, **kw)
    fig, axs = plt.subplots(1, 2)
    plt.sca(axs[1])
    lim = dict(vmin=-1, vmax=9) if rng.random() < .5 else {}
    b_ = pf.radial_photometry(img, (x0, y0), rl, plot=True, **lim, **kw)
    M.event("phot_pairs")
    for u, v, n in zip(a_, b_, ("flux", "area", "error")):
        M.check(np.array_equal(u, v, equal_nan=True), "plot_option", n + " differs with plot on")
    got = rings_on(axs[1])
    M.check(shows(axs[1], keep), "phot_image", "image not shown")
    M.check(len(got) == len(rl) and all(any(ring_match(g, x0, y0, r, r / elong, th % np.pi) for g in got) for r in rl), "phot_rings", "apertures drawn are not those measured", got=got, want=rl)
    M.check(empty(axs[0]), "other_axes", "drew on other axes")
    M.check(np.array_equal(img, keep), "unchanged", "image changed")
    M.nontrivial("phot", tuple(sorted(kw)), bool(lim), len(rl))


def run_source(M, rng, case):
    plt = plt_()
    plt.close("all")
    img, src = gens.field(rng, minsep=12)
    cat, segm, deb = pf.make_catalog(img, 1., npixels=5, plot=False)
    s = cat[int(rng.integers(len(cat)))]
    rl = np.sort(rng.uniform(2, 14, 5))
    kw = dict(bg_sub=bool(rng.random() < .5), mask_background=bool(rng.random() < .3))
    if rng.random() < .3:
        kw.update(sigma_type="bound", sigma=.5)
    a_ = pf.source_photometry(s, img, deb, rl, **kw)
    keep = img.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        b_ = pf.source_photometry(s, img, deb, rl, plot=True, **kw)
    for u, v, n in zip(a_, b_, ("flux", "area", "error")):
        M.check(np.array_equal(u, v, equal_nan=True), "plot_option", n + " differs with plot on", **kw)
    axs = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
    M.check(any(drawn_curve(ax, rl, a_[0]) for ax in axs), "source_cog", "curve of growth not drawn")
    M.check(any(len(rings_on(ax)) == len(rl) and np.allclose(sorted(g[2] for g in rings_on(ax)), rl, rtol=.01) for ax in axs), "source_rings", "apertures not drawn")
    M.check(np.array_equal(img, keep), "unchanged", "image changed")
    # the cutout on show, centred on the apertures, and its two cuts through their centre
    shown_ = [(im, g) for ax in axs for im in images_on(ax) for g in rings_on(ax)[:1]]
    if shown_:
        cut, (cx, cy) = shown_[0][0], shown_[0][1][:2]
        M.check(abs(cx - cut.shape[1] / 2) <= .51 and abs(cy - cut.shape[0] / 2) <= .51, "source_cutout", "apertures not in the middle of the cutout shown", centre=(cx, cy), shape=cut.shape)
        if not kw["mask_background"] and not kw["bg_sub"]:
            own = deb.data == s.label
            win = np.isfinite(cut) & (cut != 0)
            M.check(np.isin(np.round(cut[win], 9), np.round(img[(deb.data == 0) | own], 9)).all(), "source_cutout", "the cutout shown has pixels of other sources")
        row, col = cut[int(cy)], cut[:, int(cx)]
        rows = [ax for ax in axs if any(b.shape == row.shape and np.array_equal(b, row, equal_nan=True) for _, b in curves(ax))]
        cols = [ax for ax in axs if any(b.shape == col.shape and np.array_equal(b, col, equal_nan=True) for _, b in curves(ax))]
        M.check(bool(rows) and bool(cols), "source_slices", "cuts along x and y through the source not drawn", rows=len(rows), cols=len(cols))
        M.event("slices_read")
        for c, group in ((cx, rows), (cy, cols)):
            V = [verts(ax)[0] for ax in group]
            M.check(not V or any(all(has(v, q) for q in (c, c + rl[-1], c - rl[-1])) for v in V), "source_slices", "centre and outermost radius not marked", drawn=V, centre=c, r=rl[-1])
    M.check(any(all(has(verts(ax)[0], r) for r in rl) for ax in axs if drawn_curve(ax, rl, a_[0])), "source_cog", "radii not marked on the curve of growth")
    M.event("source_pairs")
    M.nontrivial("source", tuple(sorted(kw.items())))


def run_correction(M, rng, case):
    plt = plt_()
    plt.close("all")
    g = c20.random_grid(rng)
    pc = pf.PetrosianCorrection(g)
    n, re = c20.some_profile(rng, g)
    p = c20.profile(n, re)
    m = c20.measure(p)
    if case["i"] % 6 == 0:        # a profile that could not be measured: the grid alone
        r = np.arange(1., 25)
        p = pf.Petrosian(r, np.pi * r ** 2, 3 * np.pi * r ** 2) if case["i"] % 12 else c20.profile(n, re, rmax=float(rng.uniform(1.05, 1.6)) * refs.sersic_rp(.2, re, n) + 2)
        m = c20.measure(p)
    if np.any(np.isnan(m)):
        fig, axs = pf.PetrosianCorrection(g).plot_correction(p)
        M.event("unmeasured_plots")
        cols = [np.asarray(g[k], float) for k in ("p02", "u_r_50", "u_c2080")]
        for ax, (i, j) in zip(axs, ((0, 1), (0, 2), (1, 2))):
            M.check(not [1 for a, b in curves(ax) if a.size == 2 and np.isfinite([a[-1], b[-1]]).all()], "correction_nan", "a profile that could not be measured is joined to a grid row", measured=m)
            M.check(all(has_mark(ax, u, v) for u, v in zip(cols[i], cols[j])), "correction_grid", "grid rows not all drawn")
        return
    rows, inside, ok = c20.expect(g, p)
    before, gb = c20.state(p), [c.tobytes() for c in g.columns.values()]
    kw = {}
    if rng.random() < .5:
        fig0, axs0 = plt.subplots(1, 3)
        kw["axs"] = axs0
    if rng.random() < .3:
        kw.update(cmap_key="r_eff", suptitle="S")
    fig, axs = pf.PetrosianCorrection(g).plot_correction(p, **kw)
    M.event("corrections_read")
    if "axs" in kw:
        M.check(all(a is b for a, b in zip(axs, axs0)), "correction_axes", "drew on other axes")
    cols = [np.asarray(g[k], float) for k in ("p02", "u_r_50", "u_c2080")]
    for ax, (i, j) in zip(axs, ((0, 1), (0, 2), (1, 2))):
        pts = np.array(marks(ax), float)
        want = np.stack([cols[i], cols[j]], 1)
        M.check(all(np.any(np.all(np.abs(pts - v) <= 1e-9 * np.abs(v), axis=1)) for v in want), "correction_grid", "grid rows not all drawn", pair=(i, j))
        M.check(has_mark(ax, m[i], m[j]), "correction_target", "measurement not marked", want=(m[i], m[j]))
        link = [(a, b) for a, b in curves(ax) if a.size == 2]
        M.check(any(abs(a[0] - m[i]) <= 1e-9 * abs(m[i]) and abs(b[0] - m[j]) <= 1e-9 * abs(m[j]) and any(abs(a[1] - cols[i][k]) <= 1e-9 * cols[i][k] and abs(b[1] - cols[j][k]) <= 1e-9 * cols[j][k] for k in rows)
                    for a, b in [(q[0], q[1]) for q in link] + [(q[0][::-1], q[1][::-1]) for q in link]),
                "correction_link", "measurement not joined to its nearest row", rows=rows)
    M.check(c20.state(p) == before and [c.tobytes() for c in g.columns.values()] == gb, "unchanged", "plot_correction changed profile or grid")
    M.nontrivial("correction", tuple(sorted(kw)), inside)

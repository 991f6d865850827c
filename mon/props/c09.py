"""C09 aperture geometry and conversions: exact geometry of every aperture object observed."""
import numpy as np
import petrofit as pf
from astropy import units as u
from astropy.wcs import WCS
from .. import gens

RULE = ("Aperture / annulus constructions and conversions over wide ranges and array shapes, WCS in several units and pixel scales, "
        "every observed call judged. Non-trivial: distinct (function, elongation bin, unit, shape).")
PLAN = {"quick": {"apertures": 1200, "conversions": 1200, "wcs": 900, "internal": 15},
        "thorough": {"apertures": 20000, "conversions": 20000, "wcs": 8000, "internal": 200}}
NEED = ["radial_elliptical_aperture", "radial_elliptical_annulus", "angular_to_pixel", "pixel_to_angular"]


def geom(M, ap, x, y, th):
    M.close(np.ravel(ap.positions), [x, y], "centre", rtol=1e-12, msg="aperture centre")
    t = ap.theta
    t = float(t.to_value(u.rad)) if hasattr(t, "to_value") else float(t)
    d = (t - float(th) + np.pi / 2) % np.pi - np.pi / 2      # an ellipse is the same after half a turn
    M.check(abs(d) <= 1e-9, "angle", "aperture angle", got=t, want=th)


def judge_ap(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.check(not (a["r"] > 0), "raises", "raised %r" % ev.exc, args=a)
        return
    ap = ev.result
    M.close([ap.a, ap.b], [a["r"], a["r"] / a["elong"]], "axes", rtol=1e-9, msg="aperture axes", args=a)
    geom(M, ap, *a["position"], a["theta"])
    M.close(ap.area, np.pi * a["r"] ** 2 / a["elong"], "area", rtol=1e-9, msg="aperture area")


def judge_an(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.check(not (a["r"] > 0 and a["dr"] > 0), "raises", "raised %r" % ev.exc, args=a)
        return
    an = ev.result
    r, o, e = a["r"], a["r"] + a["dr"], a["elong"]
    M.close([an.a_in, an.b_in, an.a_out, an.b_out], [r, r / e, o, o / e], "annulus_axes", rtol=1e-9, msg="annulus axes", args=a)
    geom(M, an, *a["position"], a["theta"])
    M.close(an.area, np.pi * (o * o - r * r) / e, "annulus_area", rtol=1e-7, msg="annulus area")


def scale_arcsec(wcs):
    sc = np.sqrt(np.abs(np.linalg.det(wcs.pixel_scale_matrix)))
    return (sc * wcs.wcs.cunit[0]).to_value(u.arcsec)


def judge_a2p(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.violate("raises", "angular_to_pixel raised %r" % ev.exc, args=a)
        return
    q = a["angular_diameter"]
    M.close(ev.result, q.to_value(u.arcsec) / scale_arcsec(a["wcs"]), "angular_to_pixel", rtol=1e-6, msg="size in pixels", args=a)


def judge_p2a(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.violate("raises", "pixel_to_angular raised %r" % ev.exc, args=a)
        return
    p = a["pixel_size"]
    p = p.value if hasattr(p, "unit") else np.asarray(p, float)
    M.close(ev.result.to_value(u.arcsec), p * scale_arcsec(a["wcs"]), "pixel_to_angular", rtol=1e-6, msg="size in arcsec", args=a)


def hooks(M):
    return {"radial_elliptical_aperture": lambda ev: judge_ap(M, ev), "radial_elliptical_annulus": lambda ev: judge_an(M, ev),
            "angular_to_pixel": lambda ev: judge_a2p(M, ev), "pixel_to_angular": lambda ev: judge_p2a(M, ev)}


def run_apertures(M, rng, case):
    pos = tuple(float(v) for v in rng.uniform(-50, 500, 2))
    r = float(10 ** rng.uniform(-2, 3)) if rng.random() < .8 else int(rng.integers(1, 50))
    e = 1.0 if rng.random() < .2 else float(rng.uniform(1, 12))
    t = float(rng.uniform(-10, 10))
    pf.radial_elliptical_aperture(pos, r, elong=e, theta=t)
    pf.radial_elliptical_annulus(pos, r, float(10 ** rng.uniform(-2, 2)), elong=e, theta=t)
    if rng.random() < .3:
        pf.radial_elliptical_aperture(pos, r)
        pf.radial_elliptical_annulus(pos, r, 1)
    M.nontrivial("aperture", round(e), round(t), type(r).__name__)
    M.sample(pos=pos, r=r, elong=e, theta=t)


def run_conversions(M, rng, case):
    shp = [(), (5,), (2, 3)][rng.integers(3)]
    el = rng.uniform(0, .99, shp) if shp else float(rng.uniform(0, .99))
    if rng.random() < .1:
        el = el * 0
    M.close(pf.ellip_to_elong(el), 1 / (1 - np.asarray(el)), "ellip_to_elong", rtol=1e-12, msg="1/(1-e)", e=el)
    M.close(pf.elong_to_ellip(pf.ellip_to_elong(el)), el, "inverse", rtol=1e-9, atol=1e-12, msg="ellipticity round trip", e=el)
    eg = rng.uniform(1, 30, shp) if shp else float(rng.uniform(1, 30))
    M.close(pf.elong_to_ellip(eg), 1 - 1 / np.asarray(eg), "elong_to_ellip", rtol=1e-9, atol=1e-12, msg="1-1/elong", elong=eg)
    M.close(pf.ellip_to_elong(pf.elong_to_ellip(eg)), eg, "inverse", rtol=1e-9, msg="elongation round trip")
    ar = 10 ** rng.uniform(-4, 6, shp) if shp else float(10 ** rng.uniform(-4, 6))
    a, b = pf.elliptical_area_to_r(ar, eg)
    M.close(np.pi * a * b, ar, "ellipse_area", rtol=1e-9, msg="pi*a*b is not the area", area=ar, elong=eg)
    M.close(np.asarray(a) / b, eg, "ellipse_area", rtol=1e-9, msg="a/b is not the elongation")
    M.close(np.pi * np.asarray(pf.circle_area_to_r(ar)) ** 2, ar, "circle_area", rtol=1e-9, msg="pi*r^2 is not the area")
    ap = pf.radial_elliptical_aperture((0, 0), float(np.ravel(a)[0]), float(np.ravel(eg)[0]), .3)
    M.close(ap.area, np.ravel(ar)[0], "ellipse_area", rtol=1e-9, msg="aperture of the converted radius has another area")
    M.nontrivial("conv", shp, int(10 * np.ravel(el)[0]))


def wcs(rng):
    w = WCS(naxis=2)
    unit = str(rng.choice(["deg", "deg", "arcsec", "arcmin"]))
    sc = 10 ** rng.uniform(-2, 1.5) * u.arcsec
    v = sc.to_value(unit)
    w.wcs.crval = [rng.uniform(0, 360) * u.deg.to(unit), rng.uniform(-80, 80) * u.deg.to(unit)]
    w.wcs.crpix = [50, 60]
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.cunit = [unit, unit]
    if rng.random() < .5:
        t = rng.uniform(0, 6)
        w.wcs.cd = v * np.array([[-np.cos(t), np.sin(t)], [np.sin(t), np.cos(t)]])
    else:
        w.wcs.cdelt = [-v, v]
    if rng.random() < .5:
        w.wcs.set()
    return w, unit, sc.value


def run_wcs(M, rng, case):
    w, unit, sc = wcs(rng)
    q = {"arcsec": u.arcsec, "deg": u.deg, "arcmin": u.arcmin, "rad": u.rad, "mas": u.mas}[str(rng.choice(["arcsec", "deg", "arcmin", "rad", "mas"]))]
    val = 10 ** rng.uniform(-3, 3)
    ang = (val * u.arcsec).to(q)
    if rng.random() < .3:
        ang = ang * np.array([1., 2, 3])
    w.wcs.set()
    px = pf.angular_to_pixel(ang, w)
    M.close(px, ang.to_value(u.arcsec) / sc, "known_scale", rtol=1e-6, msg="pixel size for a known scale", unit=unit, q=str(q))
    back = pf.pixel_to_angular(px, w)
    M.close(back.to_value(q), ang.to_value(q), "round_trip", rtol=1e-7, msg="angular -> pixel -> angular", unit=unit, q=str(q))
    M.check(back.unit.is_equivalent(u.arcsec), "unit", "result is not an angle")
    x = float(10 ** rng.uniform(-2, 3))
    M.close(pf.angular_to_pixel(pf.pixel_to_angular(x, w), w), x, "round_trip", rtol=1e-7, msg="pixel -> angular -> pixel")
    M.close(pf.pixel_to_angular(x * u.pix, w).to_value(u.arcsec), x * sc, "known_scale", rtol=1e-6, msg="with pixel unit")
    M.nontrivial("wcs", unit, str(q), int(np.log10(sc) * 4))


def run_internal(M, rng, case):
    """apertures built inside photometry and imshow are observed too"""
    img = rng.random((40, 44))
    pf.radial_photometry(img, (20, 21), [1, 3, 6.5], elong=float(rng.uniform(1, 3)), theta=gens.angle(rng))
    r, area, flux, _ = gens.curve(rng)
    p = pf.Petrosian(r, area, flux)
    p.imshow(position=(3., 4.), elong=1.7, theta=.4)
    M.nontrivial("internal", case["i"])

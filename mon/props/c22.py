"""C22 AB magnitudes and sky matching against their definitions."""
import math
import numpy as np
import petrofit as pf
from astropy.io import fits
from astropy import units as u
from .. import refs

RULE = ("Fluxes as python/numpy scalars, lists, tuples, 0-d to 3-d arrays of every number type, with zeros, negatives, nan and inf, with plain or FITS "
        "headers; two catalogs of random, clustered, wrapping, polar and identical positions in degrees, radians, hour angle and mixed units, judged by an own "
        "search over unit vectors. Non-trivial: distinct (container, type, has non-positive) / (geometry, unit, sizes).")
PLAN = {"quick": {"mag": 1800, "match": 900}, "thorough": {"mag": 20000, "match": 5000}}
NEED = ["mags_judged", "matches_judged", "scalars"]
ASSUME = ["Nearest neighbours whose separations agree to 1e-9 rad are both acceptable."]


def zero(h):
    return -2.5 * math.log10(h["PHOTFLAM"]) + h["PHOTZPT"] - 5 * math.log10(h["PHOTPLAM"]) + 18.692


def run_mag(M, rng, case):
    h = {"PHOTFLAM": float(10 ** rng.uniform(-21, -17)), "PHOTZPT": float(rng.choice([-21.1, rng.uniform(-25, -15), 0., rng.uniform(-1, 30)])), "PHOTPLAM": float(rng.uniform(1000, 20000))}
    if rng.random() < .4:
        hd = fits.Header()
        for k, v in h.items():
            hd[k] = v
    else:
        hd = dict(h)
    k = int(rng.integers(1, 8))
    base = 10 ** rng.uniform(-8, 8, k)
    bad = rng.random(k) < .3
    base = np.where(bad, rng.choice([0., -1., -1e-9, -1e8], k), base)
    form = ["float", "int", "np64", "np32", "npint", "list", "tuple", "arr", "intarr", "f4arr", "0d", "2d", "3d", "mixed", "uint", "view"][case["i"] % 16]
    if form == "float":
        x = float(base[0])
    elif form == "int":
        x = int(base[0])
    elif form == "np64":
        x = np.float64(base[0])
    elif form == "np32":
        x = np.float32(base[0])
    elif form == "npint":
        x = np.int64(base[0])
    elif form == "list":
        x = [float(v) for v in base]
    elif form == "tuple":
        x = tuple(float(v) for v in base)
    elif form == "arr":
        x = base.copy()
        if rng.random() < .3:
            x[0] = rng.choice([np.nan, np.inf])
    elif form == "intarr":
        x = base.astype(int)
    elif form == "uint":
        x = np.abs(base).astype("u2")
    elif form == "f4arr":
        x = base.astype("f4")
    elif form == "0d":
        x = np.array(base[0])
    elif form == "2d":
        x = np.tile(base, (3, 1)) * np.array([[1], [2], [.5]])
    elif form == "3d":
        x = np.tile(base, (2, 2, 1))
    elif form == "view":
        x = np.tile(base, (2, 1)).T[::-1]
    else:
        x = [int(v) if i % 2 else float(v) for i, v in enumerate(base)]
    keep = np.array(x, copy=True)
    hkeep = {k_: hd[k_] for k_ in h}
    got = pf.hst_flux_to_abmag(x, hd)
    ref = np.array(x, dtype=float)
    want = np.full(ref.shape, np.nan)
    for i in np.ndindex(ref.shape):
        v = float(ref[i])
        if v > 0:
            want[i] = (-2.5 * math.log10(v) if np.isfinite(v) else -np.inf) + zero(h)
    M.event("mags_judged")
    if ref.ndim == 0:
        M.event("scalars")
    M.close(got, want, "abmag", rtol=1e-9, atol=1e-5 if form in ("np32", "f4arr") else 1e-8, msg="AB magnitude of %s" % form, flux=x, header=h)
    M.check(np.array_equal(keep, np.array(x), equal_nan=True) and {k_: hd[k_] for k_ in h} == hkeep, "input", "flux or header changed")
    # a factor 100 in flux is 5 magnitudes
    if ref.ndim == 0 and ref > 0:
        M.close(float(got) - float(pf.hst_flux_to_abmag(float(ref) * 100, hd)), 5.0, "pogson", atol=1e-4 if form == "np32" else 1e-8, rtol=0)
    M.nontrivial(form, bool((ref <= 0).any()), bool((ref > 0).any()))
    M.sample(flux=x, header=h, mag=got)


def vec(ra, dec):
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)


def sep(a, b):
    """Angle between unit vectors, accurate for tiny angles."""
    return 2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1))


def run_match(M, rng, case):
    geo = ["field", "wrap", "pole", "spole", "sky", "same"][case["i"] % 6]
    n1, n2 = int(rng.integers(1, 12)), int(rng.integers(1, 25))
    if rng.random() < .25:
        n1, n2 = (n1, int(rng.integers(25, 400))) if rng.random() < .7 else (int(rng.integers(12, 150)), int(rng.integers(1, 60)))
    w = 10 ** rng.uniform(-4, 0)

    def cat(n):
        if geo == "sky":
            return rng.uniform(0, 360, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
        if geo == "wrap":
            return (rng.normal(0, w, n)) % 360, rng.normal(0, w, n)
        if geo == "pole":
            return rng.uniform(0, 360, n), 90 - np.abs(rng.normal(0, w, n))
        if geo == "spole":
            return rng.uniform(0, 360, n), -90 + np.abs(rng.normal(0, w, n))
        return 150 + rng.normal(0, w, n), 60 + rng.normal(0, w, n)
    a, b = cat(n1), cat(n2)
    if geo == "same":
        b = tuple(np.concatenate([v, o]) for v, o in zip(a, b))
        perm = rng.permutation(b[0].size)
        b = tuple(v[perm] for v in b)
    unit = ["deg", "rad", "hourangle,deg", "default", "unit"][int(rng.integers(5))]
    A, B = [np.radians(v) for v in a], [np.radians(v) for v in b]
    kw = {}
    if unit == "rad":
        args, kw = (*A, *B), dict(unit="rad")
    elif unit == "hourangle,deg":
        args, kw = (a[0] / 15, a[1], b[0] / 15, b[1]), dict(unit=("hourangle", "deg"))
    elif unit == "unit":
        args, kw = (*a, *b), dict(unit=u.deg)
    else:
        args = (*a, *b)
        if unit == "deg":
            kw = dict(unit="deg")
    if rng.random() < .3:
        args = tuple(list(v) for v in args)
    elif n1 == 1 and rng.random() < .5:
        args = (float(args[0][0]), float(args[1][0]), args[2], args[3])
    keep = [np.array(v, copy=True) for v in args]
    out = pf.match_catalogs(*args, **kw)
    idx, d = np.atleast_1d(out[0]), np.atleast_1d(out[1].to(u.rad).value)
    M.event("matches_judged")
    v1, v2 = vec(*A), vec(*B)
    ok = idx.shape == (n1,) and d.shape == (n1,)
    M.check(ok, "shape", "one match per first-catalog position", got=idx.shape, want=n1)
    if ok:
        for i in range(n1):
            s = sep(v1[i], v2)
            M.check(0 <= idx[i] < s.size and s[idx[i]] <= s.min() + 1e-9, "nearest", "matched position is not the nearest", geo=geo, unit=unit,
                    got=int(idx[i]), want=int(s.argmin()), separations=s)
            M.close(d[i], s.min(), "separation", rtol=1e-6, atol=1e-9, msg="separation of the match", geo=geo, unit=unit)
    M.check(all(np.array_equal(k, np.array(v)) for k, v in zip(keep, args)), "input", "positions changed")
    M.nontrivial(geo, unit, min(n1, 3), min(n2, 3))

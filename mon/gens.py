"""Workload generators: realistic and hostile inputs, all drawn from the case's own generator."""
import numpy as np
from . import refs


def radii(rng, lo=4, hi=80):
    m = int(rng.integers(lo, hi))
    style = rng.integers(5)
    if style == 0:
        r = np.arange(1, m + 1, dtype=float)
    elif style == 1:
        r = np.linspace(rng.uniform(.1, 2), rng.uniform(10, 200), m)
    elif style == 2:
        r = np.geomspace(rng.uniform(.3, 2), rng.uniform(20, 200), m)
    elif style == 3:
        r = np.cumsum(rng.uniform(.2, 3, m))
    else:
        r = np.arange(1, 2 * m + 1, 2)          # integers
    return r


def curve(rng, r=None):
    """-> r, area, flux, label : a curve of growth of some style."""
    r = radii(rng) if r is None else r
    rf = np.asarray(r, float)
    q = 1.0 if rng.random() < .6 else rng.uniform(.2, 1)
    area = np.pi * rf ** 2 * q
    style = ["sersic", "noisy", "rise-fall", "double", "compact", "flat"][rng.integers(6)]
    n, re = rng.uniform(.4, 6), rf[-1] * rng.uniform(.03, .5)
    flux = refs.sersic_L(rf, rng.uniform(.5, 500), re, n) * q
    if style == "noisy":
        flux = flux + rng.normal(0, .02, rf.size).cumsum() * flux.mean() * .2
    elif style == "rise-fall":
        flux = flux - flux[-1] * rng.uniform(.05, .5) * (rf / rf[-1]) ** 2
    elif style == "double":
        flux = flux + flux[-1] * rng.uniform(.2, 2) / (1 + np.exp(-(rf - rf[-1] * rng.uniform(.3, .9)) / (rf[-1] * .03)))
    elif style == "compact":
        flux = refs.sersic_L(rf, 10, rf[min(3, rf.size - 1)] * rng.uniform(.2, 1), rng.uniform(.5, 2)) * q
    elif style == "flat":
        flux = rng.uniform(.1, 9) * area * rng.uniform(.9, 1.1, rf.size)
    return r, area, flux, style


def errors(rng, area, flux):
    mode = rng.integers(4)
    fe = np.abs(flux) * rng.uniform(0, .1, flux.size) + 1e-12 * np.abs(flux).max() if mode in (1, 3) else None
    ae = area * rng.uniform(0, .03, area.size) if mode in (2, 3) else None
    return ae, fe


def angle(rng):
    """A position angle: mostly principal, sometimes outside (-pi, pi], whole turns, quadrants, or degree-sized numbers."""
    u = rng.random()
    if u < .6:
        return float(rng.uniform(-3, 3))
    if u < .8:
        return float(rng.uniform(-13, 13))
    if u < .9:
        return float(rng.integers(-8, 9) * np.pi / 2)
    return float(rng.uniform(-400, 400))


KINDS = ["cubic", "cubic", "linear", "quadratic", "slinear", "nearest", "previous", "next", "zero", None, 2, 3]


def settings(rng):
    return dict(eta=float(np.round(rng.uniform(.05, .8), 3)) if rng.random() < .6 else float(rng.choice([.2, .3, .4, .5])),
                epsilon=float(rng.uniform(.3, 4)) if rng.random() < .7 else 2.0,
                epsilon_fraction=float(rng.uniform(.4, 1.0)) if rng.random() < .5 else .99,
                total_flux_fraction=float(rng.uniform(.3, 1.0)) if rng.random() < .5 else .99,
                interp_kind=KINDS[rng.integers(len(KINDS))],
                interp_num=int(rng.choice([5000, 5000, 1000, 200, 37, 5])))


def field(rng, shape=None, nsrc=None, noise=.05, bg=0.0, minsep=0):
    """A source field: list of elliptical Gaussians/Sersics + noise. -> image, sources"""
    if shape is None:
        shape = (int(rng.integers(50, 90)), int(rng.integers(50, 90)))
    ny, nx = shape
    y, x = np.mgrid[:ny, :nx]
    img = rng.normal(0, noise, shape) + bg
    src = []
    for _ in range(int(rng.integers(1, 6)) if nsrc is None else nsrc):
        for _try in range(50):
            x0, y0 = rng.uniform(6, nx - 7), rng.uniform(6, ny - 7)
            if all(np.hypot(x0 - s[0], y0 - s[1]) > minsep for s in src):
                break
        a = rng.uniform(2, 5)
        e, t, amp = rng.uniform(0, .6), rng.uniform(-1.5, 1.5), rng.uniform(5, 60)
        c, s_ = np.cos(t), np.sin(t)
        u, v = (x - x0) * c + (y - y0) * s_, -(x - x0) * s_ + (y - y0) * c
        img = img + amp * np.exp(-.5 * ((u / a) ** 2 + (v / (a * (1 - e))) ** 2))
        src.append((x0, y0, a, e, t, amp))
    return img, src


def psf(rng, n=None, style=None):
    n = int(rng.integers(3, 12)) if n is None else n
    style = rng.integers(3) if style is None else style
    y, x = np.mgrid[:n, :n]
    c = (n - 1) / 2
    if style == 0:
        k = np.exp(-.5 * ((x - c) ** 2 + (y - c) ** 2) / rng.uniform(.6, 1.6) ** 2)
    elif style == 1:      # asymmetric
        k = np.exp(-.5 * ((x - c - rng.uniform(-1, 1)) ** 2 / 2 + (y - c) ** 2)) + .2 * rng.random((n, n))
    else:
        k = rng.random((n, n)) ** 3
    return k / k.sum()

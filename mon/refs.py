"""
Independent reference models: what each quantity must be, written from its definition with
plain loops, closed forms or numpy/scipy primitives, never by calling petrofit.
"""
import numpy as np
from scipy import interpolate, special, integrate, optimize


# ---------------------------------------------------------------- Petrosian
def profile(area, flux, area_err=None, flux_err=None):
    A, F = [float(v) for v in area], [float(v) for v in flux]
    n = len(A)
    have = area_err is not None or flux_err is not None
    sA = [0.0] * n if area_err is None else [float(v) for v in area_err]
    sF = [0.0] * n if flux_err is None else [float(v) for v in flux_err]
    P, E = np.full(n, np.nan), np.full(n, np.nan)
    with np.errstate(all="ignore"):
        for i in range(n):
            f = A.index(A[i])                 # first aperture with this area
            if f == 0:
                continue
            dA, dF = A[f] - A[f - 1], F[f] - F[f - 1]
            edge, mean = np.float64(dF) / dA, np.float64(F[f]) / A[f]
            P[i] = edge / mean
            s_edge2 = (sF[f] ** 2 + sF[f - 1] ** 2) / dA ** 2 + (edge / dA) ** 2 * (sA[f] ** 2 + sA[f - 1] ** 2)
            s_mean2 = (sF[f] / A[f]) ** 2 + (F[f] * sA[f] / A[f] ** 2) ** 2
            E[i] = np.sqrt(s_edge2 / mean ** 2 + (P[i] / mean) ** 2 * s_mean2)
    return P, (E if have else None)


def sampled(x, y, kind, num):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if kind is None:
        return x, y
    num = max(num, len(x))
    xs = np.linspace(x.min(), x.max(), num)
    return xs, interpolate.interp1d(x, y, kind=kind)(xs)


def first_reach(value, ys, growing=False, slack=1e-9):
    """
    Indices that are acceptable answers for 'sample closest to value among those up to the first
    one at or past it'.  More than one when rounding could decide; None acceptable when rounding
    decides whether the value is reached at all.  -> (set of indices, may_be_none)
    """
    ys = np.asarray(ys, float)
    scale = max(abs(value), float(np.nanmax(np.abs(ys))) if np.isfinite(ys).any() else 0.0, 1e-300)
    tol = slack * scale
    d = (ys - value) if growing else (value - ys)          # >= 0: reached
    sure = np.where(d >= tol)[0]
    maybe = np.where((d >= -tol) & (d < tol))[0]
    ends = set()
    last = sure[0] if sure.size else None
    for k in maybe:
        if last is None or k < last:
            ends.add(int(k))
    if last is not None:
        ends.add(int(last))
    if not ends:
        return set(), True
    out = set()
    ad = np.abs(ys - value)
    for e in ends:
        m = np.nanmin(ad[: e + 1])
        out |= {int(k) for k in np.where(ad[: e + 1] <= m + 2 * tol)[0]}
    return out, not sure.size


def radius_candidates(value, xs, ys, growing=False, slack=1e-9):
    idx, none_ok = first_reach(value, ys, growing, slack)
    return [xs[k] for k in sorted(idx)], none_ok


def matches(r, cands, none_ok, tol):
    if r is None or np.isnan(r):
        return none_ok
    return any(abs(r - c) <= tol for c in cands)


def petro_anchor(r, P, E=None):
    r, P = np.array(r, float), np.array(P, float)
    r[0], P[0] = 0.0, 1.0
    if E is not None:
        E = np.array(E, float)
        E[0] = 0.0
    return r, P, E


# ---------------------------------------------------------------- Sersic theory
def bn(n):
    return special.gammaincinv(2.0 * n, 0.5)


def sersic(r, amp, re, n):
    return amp * np.exp(-bn(n) * ((np.asarray(r, float) / re) ** (1.0 / n) - 1.0))


def sersic_L(r, amp, re, n, ellip=0.0):
    """Enclosed flux from the regularised incomplete gamma function."""
    b = bn(n)
    tot = amp * re ** 2 * 2 * np.pi * n * np.exp(b - 2 * n * np.log(b) + special.gammaln(2 * n)) * (1 - ellip)
    with np.errstate(all="ignore"):
        x = b * (np.asarray(r, float) / re) ** (1.0 / n)
    return tot * special.gammainc(2 * n, x)


def sersic_r(frac, re, n):
    """Radius enclosing a fraction of the total."""
    return re * (special.gammaincinv(2 * n, frac) / bn(n)) ** n


def sersic_eta(r, re, n):
    """local / mean brightness."""
    return sersic(r, 1.0, re, n) * np.pi * np.asarray(r, float) ** 2 / sersic_L(r, 1.0, re, n)


def sersic_rp(eta, re, n):
    return re * optimize.brentq(lambda u: sersic_eta(u, 1.0, n) - eta, 1e-6, 200.0, xtol=1e-12)


def sersic2d(x, y, amp, re, n, x0, y0, ellip=0.0, theta=0.0):
    c, s = np.cos(theta), np.sin(theta)
    u = (x - x0) * c + (y - y0) * s
    v = -(x - x0) * s + (y - y0) * c
    z = np.sqrt((u / re) ** 2 + (v / ((1 - ellip) * re)) ** 2)
    return amp * np.exp(-bn(n) * (z ** (1.0 / n) - 1.0))


# ---------------------------------------------------------------- geometry
def ellipse_weights(shape, x0, y0, a, b, theta, method="exact", sub=24):
    """
    Overlap fraction of each unit pixel (centres at whole coordinates) with an ellipse.
    'center': 1 if the centre is inside.  'exact': by Green's theorem on the affine image of each
    pixel against the unit circle (scaled by a*b).
    """
    ny, nx = shape
    W = np.zeros(shape)
    c, s = np.cos(theta), np.sin(theta)
    jj, ii = np.mgrid[:ny, :nx]
    if method == "center":
        u = ((ii - x0) * c + (jj - y0) * s) / a
        v = (-(ii - x0) * s + (jj - y0) * c) / b
        return (u * u + v * v < 1).astype(float)

    def T(px, py):
        return ((px - x0) * c + (py - y0) * s) / a, (-(px - x0) * s + (py - y0) * c) / b
    R = max(a, b) + 1.5
    lo_x, hi_x = max(0, int(np.floor(x0 - R))), min(nx, int(np.ceil(x0 + R)) + 1)
    lo_y, hi_y = max(0, int(np.floor(y0 - R))), min(ny, int(np.ceil(y0 + R)) + 1)
    for j in range(lo_y, hi_y):
        for i in range(lo_x, hi_x):
            q = [T(i + dx, j + dy) for dx, dy in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))]
            r2 = [u * u + v * v for u, v in q]
            if max(r2) <= 1:
                W[j, i] = 1.0
                continue
            area = sum(_seg_circle(q[k], q[(k + 1) % 4]) for k in range(4))
            W[j, i] = min(max(abs(area) * a * b, 0.0), 1.0)
    return W


def photutils_agrees(W, x0, y0, a, b, theta):
    """Does the dependency compute this overlap right?"""
    from photutils.aperture import EllipticalAperture
    m = EllipticalAperture((x0, y0), a, b, theta=theta).to_mask(method="exact").to_image(W.shape)
    return (W.sum() == 0 if m is None else np.allclose(m, W, rtol=0, atol=1e-6))


def _seg_circle(p, q):
    """Signed area of (triangle 0pq) intersected with the unit disc."""
    (x1, y1), (x2, y2) = p, q
    dx, dy = x2 - x1, y2 - y1
    A = dx * dx + dy * dy
    if A == 0:
        return 0.0
    B = x1 * dx + y1 * dy
    C = x1 * x1 + y1 * y1 - 1
    disc = B * B - A * C

    def sector(xa, ya, xb, yb):
        return 0.5 * np.arctan2(xa * yb - ya * xb, xa * xb + ya * yb)

    def tri(xa, ya, xb, yb):
        return 0.5 * (xa * yb - ya * xb)
    if disc <= 0:
        return sector(x1, y1, x2, y2)
    sq = np.sqrt(disc)
    t1, t2 = (-B - sq) / A, (-B + sq) / A
    if t2 <= 0 or t1 >= 1:
        return sector(x1, y1, x2, y2)
    t1c, t2c = max(t1, 0.0), min(t2, 1.0)
    xa, ya = x1 + t1c * dx, y1 + t1c * dy
    xb, yb = x1 + t2c * dx, y1 + t2c * dy
    out = tri(xa, ya, xb, yb)
    if t1 > 0:
        out += sector(x1, y1, xa, ya)
    if t2 < 1:
        out += sector(xb, yb, x2, y2)
    return out


def plane_lsq(img, mask):
    """Least squares plane through img[mask]: (intercept, slope_x, slope_y)."""
    j, i = np.where(mask)
    A = np.stack([np.ones(i.size), i, j], 1).astype(float)
    sol = np.linalg.lstsq(A, np.asarray(img, float)[mask], rcond=None)[0]
    return sol


def components(binary):
    """8-connected components as a label image (own flood fill)."""
    lab = np.zeros(binary.shape, int)
    n = 0
    for j, i in zip(*np.where(binary)):
        if lab[j, i]:
            continue
        n += 1
        stack = [(j, i)]
        lab[j, i] = n
        while stack:
            a, b = stack.pop()
            for da in (-1, 0, 1):
                for db in (-1, 0, 1):
                    c, d = a + da, b + db
                    if 0 <= c < binary.shape[0] and 0 <= d < binary.shape[1] and binary[c, d] and not lab[c, d]:
                        lab[c, d] = n
                        stack.append((c, d))
    return lab


# ---------------------------------------------------------------- image formation
def subpixel_mean(f, nx, ny, x_origin=0.0, y_origin=0.0, factor=1):
    """Mean of f over factor x factor sub-pixel centres of each pixel; pixel centres at whole steps."""
    off = (np.arange(factor) + 0.5) / factor - 0.5
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    acc = np.zeros((ny, nx))
    for dy in off:
        for dx in off:
            acc += f(ii + x_origin + dx, jj + y_origin + dy)
    return acc / factor ** 2


def conv_same(img, ker):
    """Direct 'same' convolution (centre of an even kernel at (n-1)//2), zeros outside."""
    kh, kw = ker.shape
    H, W = img.shape
    full = np.zeros((H + kh - 1, W + kw - 1))
    for a in range(kh):
        for b in range(kw):
            if ker[a, b]:
                full[a:a + H, b:b + W] += ker[a, b] * img
    sy, sx = (kh - 1) // 2, (kw - 1) // 2
    return full[sy:sy + H, sx:sx + W]


def block_mean(img, f):
    H, W = img.shape
    return img.reshape(H // f, f, W // f, f).mean(axis=(1, 3))


def rint_window(c, lo):
    """Index of the pixel nearest to coordinate c; None when a tie makes it ambiguous."""
    d = float(c) - float(lo)
    if abs(d - np.floor(d) - .5) < 1e-9:
        return None
    return int(np.floor(d + .5))


def form_square(f, N, x0, y0, psf=None, oversample=None, psf_oversample=None, psf_pa=0.0):
    """
    Image of the N x N pixel square with lower-left pixel centre (x0, y0), by definition:
    sample (mean of sub-pixels) -> convolve, zeros outside -> bin.  f(x, y) is the sub-model; the window
    centre in `oversample` must be numeric.  None when a rounding tie makes the window ambiguous.
    """
    from scipy.ndimage import rotate
    p = psf_oversample or 1

    def sample(nx, ny, ox, oy, total):
        """Means of f at resolution p per pixel, each over (total/p)^2 sub-pixels."""
        g = total // p
        # resolution-p pixel k has centre ox + (k + .5)/p - .5, width 1/p
        fx = lambda u, v: f(ox + (u + .5) / p - .5, oy + (v + .5) / p - .5)
        return subpixel_mean(fx, nx * p, ny * p, factor=g)
    if isinstance(oversample, (tuple, list)):
        cx, cy, size, fac = oversample
        img = sample(N, N, x0, y0, p)
        ci, cj = rint_window(cx, x0), rint_window(cy, y0)
        if ci is None or cj is None:
            return None
        if size > 0 and fac > p:
            i0, j0 = ci - size // 2, cj - size // 2
            a, b = max(i0, 0), min(i0 + size, N)
            c, d = max(j0, 0), min(j0 + size, N)
            if b > a and d > c:
                img[c * p:d * p, a * p:b * p] = sample(b - a, d - c, x0 + a, y0 + c, fac)
    else:
        img = sample(N, N, x0, y0, oversample or 1)
    if psf is not None:
        k = np.asarray(psf, float)
        if psf_pa != 0:
            k = np.rot90(k, int(psf_pa // 90) % 4) if psf_pa % 90 == 0 and k.shape[0] == k.shape[1] else rotate(k, psf_pa, reshape=False)
        img = conv_same(img, k)
    return block_mean(img, p) if p > 1 else img


def form_pixels(f, x, y, **kw):
    x, y = np.asarray(x, float), np.asarray(y, float)
    i, j = np.rint(x - x.min()).astype(int), np.rint(y - y.min()).astype(int)
    N = max(i.max(), j.max()) + 1
    img = form_square(f, N, x.min(), y.min(), **kw)
    return None if img is None else img[j, i]

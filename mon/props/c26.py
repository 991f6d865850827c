"""C26 sampling helpers, called directly and by the Petrosian machinery."""
import math
import functools
import numpy as np
from scipy.interpolate import CubicSpline, interp1d
import petrofit as pf
from .. import refs, gens

RULE = ("Direct calls with every length, interpolation kind, ordering, container and value pattern (ties, nan, infinities, plateaus, exact hits), calls the Petrosian "
        "class makes itself (observed at the function boundary), and strings with digit runs, leading zeros, mixed case and non-ASCII text. Non-trivial: distinct "
        "(helper, kind, pattern).")
PLAN = {"quick": {"radius": 900, "interp": 1500, "closest": 2100, "inside": 120, "sort": 1500},
        "thorough": {"radius": 10000, "interp": 12000, "closest": 30000, "inside": 600, "sort": 15000}}
NEED = ["radii_judged", "interp_judged", "closest_judged", "closest_none", "sorts_judged"]
ASSUME = ["Interpolation inputs have distinct x and enough points for the kind.", "Digit runs are runs of 0-9; other characters compare by their lower case."]


def hooks(M):
    def interp(ev):
        if ev.depth > 1 and ev.exc is None:
            M.event("inside_calls")
            judge_interp(M, ev.args["x"], ev.args["y"], ev.args["num"], ev.args["kind"], ev.result, quick=True)

    def closest(ev):
        if ev.depth > 1 and ev.exc is None:
            M.event("inside_calls")
            judge_closest(M, ev.args["value"], ev.args["array"], ev.args["growing"], ev.result)
    return {"get_interpolated_values": interp, "closest_value_index": closest,
            "Petrosian.r_petrosian": lambda ev: None, "Petrosian.r_total_flux": lambda ev: None, "Petrosian.r_half_light": lambda ev: None,
            "calculate_petrosian_r": lambda ev: None, "fraction_to_r": lambda ev: None, "calculate_concentration_index": lambda ev: None}


# ------------------------------------------------------------------ radius lists
def run_radius(M, rng, case):
    n = int(rng.integers(1, 200)) if case["i"] % 10 else 1
    mx = float(10 ** rng.uniform(.1, 3)) if rng.random() < .6 else int(rng.integers(2, 500))
    log = bool(rng.random() < .5)
    r = pf.make_radius_list(mx, n, log=log) if rng.random() < .5 else (pf.make_radius_list(max_pix=mx, n=n, log=log) if log or rng.random() < .5 else pf.make_radius_list(mx, n))
    M.event("radii_judged")
    M.check(isinstance(r, np.ndarray) and r.shape == (n,) and r.dtype.kind == "f", "radius_shape", "not %d float radii" % n, got=np.shape(r))
    if np.shape(r) == (n,):
        M.check(np.all(np.diff(r) > 0) and r[0] > 0, "radius_growing", "not increasing", got=r)
        if log:
            want = [math.exp(math.log(mx) * k / (n - 1)) for k in range(n)] if n > 1 else [1.]
        else:
            want = [mx * (k + 1) / n for k in range(n)]
        M.close(r, want, "radius_values", rtol=1e-10, msg="radii", max_pix=mx, n=n, log=log)
        if n > 1 or not log:
            M.close(r[-1], mx, "radius_end", rtol=1e-12, msg="last radius")
    M.nontrivial("radius", log, n == 1, type(mx).__name__)


# ------------------------------------------------------------------ interpolation
def reference(x, y, kind, at):
    """Own interpolants for the kinds with a closed description; None otherwise."""
    o = np.argsort(x, kind="mergesort")
    x, y = x[o], y[o]
    if kind in ("linear", "slinear", 1):
        return np.interp(at, x, y)
    if kind in ("nearest", "previous", "next", "zero", 0):
        out = np.empty(at.shape)
        for i, v in enumerate(at):
            tol = 1e-9 * (x[-1] - x[0])
            hit = np.where(np.abs(x - v) <= tol)[0]
            if hit.size:
                out[i] = y[hit[0]]
                continue
            k = np.searchsorted(x, v)
            if kind in ("previous", "zero", 0):
                out[i] = y[k - 1]
            elif kind == "next":
                out[i] = y[k]
            else:
                d = (v - x[k - 1]) - (x[k] - v)
                out[i] = np.nan if abs(d) < tol else (y[k - 1] if d < 0 else y[k])
        return out
    if kind in ("cubic", 3):
        return CubicSpline(x, y, bc_type="not-a-knot")(at) if x.size > 3 else None
    if kind in ("quadratic", 2):
        return interp1d(x, y, kind=kind)(at)
    return None


def judge_interp(M, x, y, num, kind, result, quick=False):
    M.event("interp_judged")
    xr, yr = result
    if kind is None:
        M.check(np.array_equal(np.asarray(xr), np.asarray(x), equal_nan=True) and np.array_equal(np.asarray(yr), np.asarray(y), equal_nan=True), "interp_none", "kind None does not return the data")
        return
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = max(num, x.size)
    xr, yr = np.asarray(xr, float), np.asarray(yr, float)
    M.check(xr.shape == yr.shape and xr.size >= n, "interp_size", "fewer samples than asked for", got=xr.size, want=n)
    span = x.max() - x.min()
    M.close(xr, np.linspace(x.min(), x.max(), xr.size), "interp_grid", rtol=0, atol=1e-9 * max(span, abs(x).max()), msg="samples are not equally spaced from end to end", kind=kind)
    if not np.all(np.isfinite(y)):
        return
    pick = np.arange(xr.size) if not quick else np.unique(np.linspace(0, xr.size - 1, 60).astype(int))
    at = np.clip(np.linspace(x.min(), x.max(), xr.size)[pick], x.min(), x.max())
    want = reference(x, y, kind, at)
    if want is None:
        return
    ok = np.isfinite(want)
    step = kind in ("nearest", "previous", "next", "zero", 0)
    scale = np.abs(y).max() + np.abs(want[ok]).max() if ok.any() else 1
    if step:       # rounding may decide at the knots themselves
        near = np.min(np.abs(at[:, None] - x[None, :]), axis=1) < 1e-9 * span
        ok &= ~near | (at == x.min()) | (at == x.max())
    M.close(yr[pick][ok], want[ok], "interp_values", rtol=0, atol=1e-7 * scale, msg="not the %s interpolant" % kind, kind=kind, n=x.size)


def run_interp(M, rng, case):
    kind = gens.KINDS[case["i"] % len(gens.KINDS)]
    m = int(rng.integers(5, 60))
    x = np.cumsum(rng.uniform(.05, 3, m)) + rng.normal(0, 20)
    pattern = str(rng.choice(["smooth", "noise", "falling", "shuffled", "int", "list", "f4", "large"]))
    y = np.sin(x) if pattern == "smooth" else (np.exp(-x / 20) if pattern == "falling" else rng.normal(0, 3, m))
    if pattern == "shuffled":
        o = rng.permutation(m)
        x, y = x[o], y[o]
    elif pattern == "int":
        x, y = np.cumsum(rng.integers(1, 5, m)), rng.integers(-50, 50, m)
    elif pattern == "list":
        x, y = [float(v) for v in x], [float(v) for v in y]
    elif pattern == "f4":
        x, y = x.astype("f8"), y.astype("f4")
    elif pattern == "large":
        y = y * 1e20
    num = int(rng.choice([2, 5, 37, m - 1, m, m + 1, 200, 5000]))
    kx, ky = np.array(x, copy=True), np.array(y, copy=True)
    res = pf.get_interpolated_values(x, y, num, kind) if rng.random() < .5 else pf.get_interpolated_values(x, y, num=num, kind=kind)
    judge_interp(M, kx, ky, num, kind, res)
    M.check(np.array_equal(kx, np.array(x)) and np.array_equal(ky, np.array(y)), "interp_input", "input changed")
    if kind not in (None,) and num == m and case["i"] % 2:      # equally spaced x: the samples are the data points
        xe = np.linspace(-3., 7., m)
        xs, ys = pf.get_interpolated_values(xe, np.asarray(ky, float), m, kind)
        M.close(xs, xe, "interp_through", rtol=0, atol=1e-9)
        if kind not in ("previous", "next", "zero", "nearest"):
            M.close(ys, np.asarray(ky, float), "interp_through", rtol=0, atol=1e-8 * max(1e-300, np.abs(ky).max()), msg="does not pass through the data", kind=kind)
    if case["i"] % 5 == 0:
        a, b = pf.get_interpolated_values(kx, ky), pf.get_interpolated_values(kx, ky, 5000, "cubic")
        M.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[0].size == 5000, "interp_default", "defaults are not 5000 cubic samples")
    M.nontrivial("interp", kind, pattern, np.sign(num - m))


# ------------------------------------------------------------------ first crossing
def judge_closest(M, value, array, growing, result):
    """The index of the sample closest to value among those up to the first one at or past it."""
    M.event("closest_judged")
    a = np.asarray(array, float)
    past = [i for i, v in enumerate(a.tolist()) if (v >= value if growing else v <= value)]
    if not past:
        M.event("closest_none")
        M.check(result is None, "closest_none", "an index although the value is never reached", got=result, value=value)
        return
    if result is None:
        M.check(False, "closest_index", "None although the value is reached", value=value, array=a)
        return
    k = int(result)
    d = [abs(v - value) for v in a[:past[0] + 1].tolist()]
    best = min(v for v in d if not math.isnan(v))
    M.check(0 <= k <= past[0] and d[k] <= best, "closest_index", "not the closest sample up to the first crossing", got=k, first=past[0], value=value, array=a[:past[0] + 1])


def run_closest(M, rng, case):
    m = int(rng.integers(1, 40))
    pat = str(rng.choice(["falling", "growing", "noise", "recross", "plateau", "nan", "inf", "exact", "int"]))
    a = rng.normal(0, 1, m)
    if pat == "falling":
        a = np.sort(a)[::-1].copy()
    elif pat == "growing":
        a = np.sort(a)
    elif pat == "recross":
        a = np.cos(np.linspace(0, 12, m)) + .01 * a
    elif pat == "plateau":
        a = np.round(a)
    elif pat == "nan":
        a[rng.random(m) < .4] = np.nan
    elif pat == "inf":
        a[rng.random(m) < .3] = rng.choice([np.inf, -np.inf])
    elif pat == "int":
        a = rng.integers(-5, 6, m)
    v = float(rng.uniform(-2, 2)) if pat not in ("exact", "plateau", "int") else float(a[int(rng.integers(m))])
    g = bool(rng.random() < .5)
    if not g and rng.random() < .5:
        res = pf.closest_value_index(v, a)
    else:
        res = pf.closest_value_index(v, a, growing=g) if rng.random() < .5 else pf.closest_value_index(v, a, g)
    keep = np.array(a, copy=True)
    judge_closest(M, v, a, g, res)
    M.check(np.array_equal(keep, a, equal_nan=True), "closest_input", "array changed")
    # mirrored problem
    res2 = pf.closest_value_index(-v, -a, growing=not g)
    M.check(res2 == res, "closest_mirror", "growing and falling answers differ on the mirrored array", got=[res, res2])
    M.nontrivial("closest", pat, g, res is None)
    M.sample(value=v, array=a, growing=g, index=res)


def run_inside(M, rng, case):
    """The calls petrofit makes to itself while measuring."""
    r, area, flux, style = gens.curve(rng)
    s = gens.settings(rng)
    ae, fe = gens.errors(rng, area, flux)
    try:
        p = pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe, **s)
        for k in ("r_petrosian", "r_petrosian_err", "r_total_flux", "r_total_flux_err", "r_half_light", "total_flux", "half_flux", "c2080"):
            getattr(p, k)
    except ValueError as e:
        M.event("refused")          # interpolation kind needs more points; judged elsewhere
    M.nontrivial("inside", style, s["interp_kind"])


# ------------------------------------------------------------------ natural sort
def chunks(s):
    """Alternating text / number parts."""
    out, cur, digit = [], "", False
    for ch in s:
        d = ch in "0123456789"
        if d != digit:
            out.append(int(cur) if digit else cur.lower())
            cur, digit = "", d
        cur += ch
    out.append(int(cur) if digit else cur.lower())
    if digit:
        out.append("")
    return out


def cmp(a, b):
    ca, cb = chunks(a), chunks(b)
    for u, v in zip(ca, cb):
        if u != v:
            return -1 if u < v else 1
    return (len(ca) > len(cb)) - (len(ca) < len(cb))


def run_sort(M, rng, case):
    alpha = ["a", "b", "A", "B", "_", "-", " ", ".", "img", "IMG", "é", "²", "z"]

    def word():
        s = ""
        for _ in range(int(rng.integers(0, 5))):
            s += str(rng.choice(alpha)) if rng.random() < .5 else str(rng.choice(["0", "1", "2", "9", "10", "007", "99", "100", "12345678901234567890"]))
        return s
    l = [word() for _ in range(int(rng.integers(0, 20)))]
    if case["i"] % 4 == 0:
        stem = str(rng.choice(["img_", "", "f105w-", "X"]))
        l = [stem + str(int(v)) + ".fits" for v in rng.integers(0, 2000, 15)]
    arg = tuple(l) if rng.random() < .2 else (np.array(l, dtype=object).tolist() if rng.random() < .5 else l)
    keep = list(arg)
    got = pf.natural_sort(arg)
    M.event("sorts_judged")
    M.check(list(arg) == keep, "sort_input", "input changed")
    M.check(isinstance(got, list) and sorted(got) == sorted(keep), "sort_permutation", "not a permutation", got=got, want=keep)
    M.check(all(cmp(a, b) <= 0 for a, b in zip(got, got[1:])), "sort_order", "not in natural order", got=got)
    M.check([chunks(s) for s in pf.natural_sort(got[::-1])] == [chunks(s) for s in got], "sort_stable", "order depends on the input order")
    M.nontrivial("sort", min(len(l), 3), case["i"] % 4 == 0, any("²" in s for s in l))

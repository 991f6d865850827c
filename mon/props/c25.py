"""C25 auxiliary profile models and default bounds."""
import numpy as np
import petrofit as pf
import petrofit.modeling.models as pm
from astropy.modeling.models import Sersic2D, GeneralSersic2D
from .. import refs, gens

RULE = ("Random parameters and positions (points, grids, rendered images) for GenSersic2D, Nuker2D and CoreSersic2D, compared with formulas in logarithms, with "
        "astropy's Sersic2D/GeneralSersic2D and through identities (value at the named radius, slopes, symmetries, rotation, scaling); sequences of "
        "default-bounds calls with overrides and later edits, and the bounds used in fits. Non-trivial: distinct (model, parameter bins).")
PLAN = {"quick": {"gen": 900, "nuker": 900, "core": 900, "bounds": 360, "fit": 48}, "thorough": {"gen": 10000, "nuker": 10000, "core": 10000, "bounds": 2000, "fit": 250}}
NEED = ["gen_judged", "nuker_judged", "core_judged", "bounds_judged"]
ASSUME = ["Nothing is claimed at exactly the centre of Nuker2D and CoreSersic2D (the models return nan there).",
          "GenSersic2D shape parameter between -1 and 2."]


def close(M, got, want, rule, scale=None, **w):
    """Relative agreement, also of very faint values (underflow excluded)."""
    got, want = np.broadcast_arrays(np.asarray(got, float), np.asarray(want, float))
    ok = np.isfinite(want) & (np.abs(want) > 1e-250)
    M.close(got[ok], want[ok], rule, rtol=1e-7 if scale is None else scale, **w)


def points(rng, re, k=40):
    r, t = re * 10 ** rng.uniform(-2, 1, k), rng.uniform(0, 2 * np.pi, k)
    return r * np.cos(t), r * np.sin(t)


def run_gen(M, rng, case):
    amp, re, n = float(10 ** rng.uniform(-3, 4)), float(10 ** rng.uniform(-1, 2)), float(rng.uniform(.3, 8))
    x0, y0, e, th = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50)), float(rng.uniform(0, .9)), gens.angle(rng)
    c0 = float(rng.choice([0, rng.uniform(-1, 2), rng.uniform(0, 2)]))
    p = dict(amplitude=amp, r_eff=re, n=n, x_0=x0, y_0=y0, ellip=e, theta=th)
    G = pf.GenSersic2D(**p, c_0=c0)
    dx, dy = points(rng, re)
    X, Y = x0 + dx, y0 + dy
    M.event("gen_judged")
    got = G(X, Y)
    w = dict(c_0=c0, **p)
    close(M, got, GeneralSersic2D(**p, c=c0)(X, Y), "gen_formula", msg="generalised ellipse formula", **w)
    close(M, pf.GenSersic2D(**p)(X, Y), Sersic2D(**p)(X, Y), "gen_zero", msg="c_0=0 is not the Sersic profile", **w)
    c, s = np.cos(th), np.sin(th)
    b = (1 - e) * re
    for k in (1, -1):
        M.close(G(x0 + k * re * c, y0 + k * re * s), amp, "gen_major", rtol=1e-6, msg="r_eff isophote on the major axis", **w)
        M.close(G(x0 - k * b * s, y0 + k * b * c), amp, "gen_minor", rtol=1e-6, msg="r_eff isophote on the minor axis", **w)
    close(M, G(x0 - dx, y0 - dy), got, "gen_symmetry", scale=1e-6, msg="not symmetric about the centre")
    u, v = dx * c + dy * s, -dx * s + dy * c
    close(M, G(x0 + u * c + v * s, y0 + u * s - v * c), got, "gen_mirror", scale=1e-6, msg="not mirror symmetric about its own axes")
    hi = pf.GenSersic2D(**p, c_0=c0 + float(rng.uniform(.1, 1)))
    off = (np.abs(u / re) > .05) & (np.abs(v / b) > .05) & (got > 1e-200 * amp) & (np.hypot(u / re, v / b) < 5)
    M.check(np.all(hi(X, Y)[off] >= got[off] * (1 - 1e-9)), "boxier", "a larger c_0 dims the corners", **w)
    d = 10 ** rng.uniform(-.5, .5) / np.sqrt(2)
    P = (x0 + d * (re * c - b * s), y0 + d * (re * s + b * c))
    M.check(hi(*P) > G(*P), "boxier", "the corner does not brighten with c_0", **w)
    close(M, pf.GenSersic2D(**{**p, "amplitude": 3 * amp}, c_0=c0)(X, Y), 3 * np.asarray(got), "gen_linear", scale=1e-9, msg="not linear in amplitude")
    close(M, float(G(float(X[0]), float(Y[0]))), got[0], "gen_scalar", scale=1e-9, msg="scalar differs from array")
    M.nontrivial("gen", np.sign(c0), int(n), int(e * 3))
    M.sample(parameters=w, r_eff_isophote=float(G(x0 + re * c, y0 + re * s)))


def nuker(r, amp, rb, al, be, ga):
    u = np.asarray(r, float) / rb
    return amp * np.exp((be - ga) / al * np.log(2) - ga * np.log(u) + (ga - be) / al * np.logaddexp(0, al * np.log(u)))


def run_nuker(M, rng, case):
    amp, rb = float(10 ** rng.uniform(-3, 4)), float(10 ** rng.uniform(-1, 1.5))
    x0, y0 = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))
    al, ga = float(rng.uniform(.5, 8)), float(rng.choice([0., rng.uniform(0, 1.2), rng.uniform(-1, 1.2)]))
    be = float(ga + rng.uniform(.3, 4))
    p = dict(amplitude=amp, r_break=rb, x_0=x0, y_0=y0, alpha=al, betta=be, gamma=ga)
    N = pf.Nuker2D(**p)
    r, t = rb * 10 ** rng.uniform(-2, 2, 30), rng.uniform(0, 2 * np.pi, 30)
    X, Y = x0 + r * np.cos(t), y0 + r * np.sin(t)
    got = N(X, Y)
    M.event("nuker_judged")
    close(M, got, nuker(np.hypot(X - x0, Y - y0), amp, rb, al, be, ga), "nuker_formula", msg="Nuker law", **p)
    for a in rng.uniform(0, 2 * np.pi, 3):
        M.close(N(x0 + rb * np.cos(a), y0 + rb * np.sin(a)), amp, "nuker_break", rtol=1e-6, msg="brightness at the break radius is not the amplitude", **p)
    q = rng.uniform(0, 2 * np.pi)
    close(M, N(x0 + r * np.cos(t + q), y0 + r * np.sin(t + q)), got, "nuker_round", scale=1e-5, msg="not circularly symmetric", **p)
    far = rb * 10 ** (6 / min(al, 2))

    def slope(a):
        return (np.log(N(x0 + a * 1.01, y0)) - np.log(N(x0 + a, y0))) / (np.log((x0 + a * 1.01) - x0) - np.log((x0 + a) - x0))
    M.close(slope(far), -be, "nuker_outer", rtol=0, atol=.01 + .001 * be, msg="outer slope", **p)
    n0 = pf.Nuker2D(**{**p, "x_0": 0., "y_0": 0.})
    a = rb * 10 ** (-6 / min(al, 2))
    M.close((np.log(n0(a * 1.01, 0.)) - np.log(n0(a, 0.))) / np.log(1.01), -ga, "nuker_inner", rtol=0, atol=.01, msg="inner slope", **p)
    close(M, pf.Nuker2D(**{**p, "amplitude": 2 * amp})(X, Y), 2 * np.asarray(got), "nuker_linear", scale=1e-9)
    close(M, float(N(float(X[0]), float(Y[0]))), got[0], "nuker_scalar", scale=1e-9, msg="scalar differs from array")
    M.nontrivial("nuker", ga > 0, int(al), int(be))


def core_sersic(r, amp, re, rb, n, al, ga):
    """Graham et al. 2003, amplitude at the break radius, in logarithms."""
    b = refs.bn(n)
    r = np.asarray(r, float)
    ln = np.log(amp) - ga / al * np.log(2) + b * (2 ** (1 / al) * rb / re) ** (1 / n)
    big = np.exp(np.logaddexp(al * np.log(r / re), al * np.log(rb / re)) / al)     # (r^al + rb^al)^(1/al) / re
    return np.exp(ln + ga / al * np.logaddexp(0, al * np.log(rb / r)) - b * big ** (1 / n))


def run_core(M, rng, case):
    amp, re, n = float(10 ** rng.uniform(-3, 4)), float(10 ** rng.uniform(0, 1.5)), float(rng.uniform(.5, 6))
    rb = re * float(10 ** rng.uniform(-2, -.3))
    x0, y0, e, th = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50)), float(rng.uniform(0, .8)), gens.angle(rng)
    al, ga = float(rng.uniform(1, 12)), float(rng.uniform(-.6, 1.5))
    p = dict(amplitude=amp, r_eff=re, r_break=rb, n=n, x_0=x0, y_0=y0, alpha=al, gamma=ga, ellip=e, theta=th)
    C = pm.CoreSersic2D(**p)
    c, s = np.cos(th), np.sin(th)

    def at(m, r, t, cx=x0, cy=y0):
        """Point of elliptical (semi-major) radius r."""
        u, v = r * np.cos(t), r * (1 - e) * np.sin(t)
        return m(cx + u * c - v * s, cy + u * s + v * c)
    r, t = rb * 10 ** rng.uniform(-1, 2, 30), rng.uniform(0, 2 * np.pi, 30)
    got = at(C, r, t)
    M.event("core_judged")
    close(M, got, core_sersic(r, amp, re, rb, n, al, ga), "core_formula", scale=1e-6, msg="core-Sersic law", **p)
    M.close(at(C, np.full(4, rb), rng.uniform(0, 6, 4)), np.full(4, amp), "core_break", rtol=1e-6, msg="brightness at the break radius is not the amplitude", **p)
    close(M, at(C, r, rng.uniform(0, 2 * np.pi, 30)), got, "core_ellipse", scale=1e-5, msg="isophotes are not the given ellipse", **p)
    Z = pm.CoreSersic2D(**{**p, "x_0": 0., "y_0": 0.})
    a = rb * 10 ** (-4 / min(al, 2)) * min(1, (re / rb) * .01 ** n)
    # logarithmic slope at the centre: -gamma, plus what the Sersic factor still adds there
    b = refs.bn(n)
    got_s = (np.log(at(Z, a * 1.01, .3, 0., 0.)) - np.log(at(Z, a, .3, 0., 0.))) / np.log(1.01)
    M.close(got_s, -ga, "core_inner", rtol=0, atol=.02 + b / n * (rb / re) ** (1 / n) * (a / rb) ** al * 2, msg="core slope", **p)
    far = rb * 10 ** (5 / al)
    if b * (far / re) ** (1 / n) < 300:
        S = refs.sersic(np.array([far, 1.5 * far]), 1., re, n)
        v = at(C, np.array([far, 1.5 * far]), np.array([.2, 2.]))
        M.close(v[0] / v[1], S[0] / S[1], "core_outer", rtol=2e-3, msg="not a Sersic profile of its r_eff and n far out", **p)
    close(M, at(pm.CoreSersic2D(**{**p, "amplitude": 2 * amp}), r, t), 2 * np.asarray(got), "core_linear", scale=1e-9)
    M.nontrivial("core", int(n), int(al / 3), int(e * 3), ga > .5)


def run_bounds(M, rng, case):
    fns = [pf.get_default_sersic_bounds, pf.get_default_gen_sersic_bounds]
    base = [dict(f()) for f in fns]
    keys = {"amplitude", "r_eff", "n", "ellip", "theta"}
    for f, b0, extra in zip(fns, base, (set(), {"c_0"})):
        M.event("bounds_judged")
        b = f()
        M.check(set(b) == keys | extra, "keys", "bounded parameters", got=sorted(b))
        M.check(all(len(v) == 2 for v in b.values()), "pairs", "bounds are not pairs", got=b)

        def ok(name, v):
            lo, hi = b[name]
            return (lo is None or lo <= v) and (hi is None or v <= hi)
        good = dict(amplitude=[1e-6, 1., 1e8], r_eff=[.05, 3., 1e4], n=[.3, .5, 1., 4., 8.], ellip=[0, .3, .9], theta=[-np.pi, -1, 0, np.pi])
        bad = dict(amplitude=[-1.], r_eff=[0., -1.], n=[0., -1.], ellip=[-.1, 1.])
        for k, vs in good.items():
            M.check(all(ok(k, v) for v in vs), "valid", "bounds exclude valid values of " + k, got=b[k])
        for k, vs in bad.items():
            M.check(not any(ok(k, v) for v in vs), "invalid", "bounds admit impossible values of " + k, got=b[k])
        if extra:
            M.check(ok("c_0", 0) and ok("c_0", 1.) and not ok("c_0", -2.), "valid", "c_0 bounds", got=b["c_0"])
    # histories of overrides, edits of what was returned and of what was passed
    shared = {}
    for _ in range(8):
        i = int(rng.integers(2))
        f, b0 = fns[i], base[i]
        k = int(rng.integers(4))
        if k == 0:
            got, want = f(), b0
        elif k == 1:
            o = {str(rng.choice(["n", "ellip", "x_0", "amplitude", "c_0"])): (float(rng.uniform(0, 1)), float(rng.uniform(1, 3)))}
            keep = dict(o)
            got, want = f(o), {**b0, **o}
            M.check(o == keep, "override_input", "override changed")
        elif k == 2:
            shared[str(rng.choice(["r_eff", "theta", "y_0"]))] = (float(rng.uniform(0, 1)), None)
            keep = dict(shared)
            got, want = f(override=shared), {**b0, **shared}
            M.check(shared == keep, "override_input", "override changed", got=shared, want=keep)
        else:
            got, want = f({}), b0
        M.check(dict(got) == want, "override", "bounds are not the defaults with the override", got=got, want=want)
        M.check(got is not shared, "fresh", "returns its argument")
        got["n"] = (77, 78)
        got["junk"] = 1
        M.nontrivial("bounds", i, k)
    M.check([dict(f()) for f in fns] == base, "fresh", "editing returned bounds changed later defaults")


def run_fit(M, rng, case):
    """The models are usable with their bounds: image, fit, recovery."""
    amp, re, n = 10., float(rng.uniform(5, 8)), float(rng.uniform(.8, 2.5))
    c0, e, th = float(rng.uniform(.2, 1.2)), float(rng.uniform(.2, .5)), float(rng.uniform(.3, 1.2))
    y, x = np.mgrid[:41, :45]
    true = dict(amplitude=amp, r_eff=re, n=n, x_0=22.3, y_0=19.6, ellip=e, theta=th)
    img = GeneralSersic2D(**true, c=c0)(x, y)
    st = {k: v * (1 + .05 * rng.choice([-1, 1])) for k, v in true.items()}
    st.update(x_0=22., y_0=20.)
    m = pf.GenSersic2D(**st, c_0=.5, bounds=pf.get_default_gen_sersic_bounds({"x_0": (15, 30), "y_0": (12, 28)}))
    fit, _ = pf.fit_model(img, m, maxiter=3000, acc=1e-12, epsilon=1.49e-8)
    M.check(np.allclose(fit.parameters, [*true.values(), c0], rtol=2e-2, atol=2e-2), "fit", "generalised Sersic not recovered", got=fit.parameters, want=[*true.values(), c0])
    M.check(fit.bounds["x_0"] == (15, 30) and fit.bounds["n"] == m.bounds["n"], "fit_bounds", "bounds not carried")
    M.event("fits")
    M.nontrivial("fit", int(n), int(c0 * 3))

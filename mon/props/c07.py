"""C07 analytic Sersic / Petrosian functions: every observed call against quadrature and closed forms of our own."""
import numpy as np
from scipy import integrate
import petrofit as pf
from astropy.modeling import models
from .. import refs

RULE = ("r/r_eff 1e-8..1e3 and inf, n 0.3-10, ellipticity 0-0.95, amplitudes 1e-6..1e6, scalars/arrays/ints; laws (integral, inverse, "
        "half light, monotone, scale-free, limit 1, round trips, model classes) on generated points and every call petrofit makes "
        "itself. Non-trivial: distinct (law, n bin, ellipticity bin, shape).")
PLAN = {"quick": {"laws": 1500, "integral": 750, "models": 450, "internal": 3},
        "thorough": {"laws": 30000, "integral": 12000, "models": 6000, "internal": 20}}
NEED = ["sersic_enclosed", "sersic_enclosed_inv", "petrosian_profile", "integrals"]


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.violate("raises", "%s raised %r" % (ev.name, ev.exc), args=a)
        return
    with np.errstate(all="ignore"):
        if ev.name == "sersic_enclosed":
            want = refs.sersic_L(a["r"], a["amplitude"], a["r_eff"], a["n"], a["ellip"])
            M.close(ev.result, want, "enclosed", rtol=1e-8, msg="enclosed flux", args=a)
        elif ev.name == "sersic_enclosed_inv":
            tot = refs.sersic_L(np.inf, a["amplitude"], a["r_eff"], a["n"], a["ellip"])
            fr = np.asarray(a["f"], float) / tot
            ok = (fr > 1e-13) & (fr < 1 - 1e-6)
            want = refs.sersic_r(np.clip(fr, 0, 1), a["r_eff"], a["n"])
            if np.any(ok):
                M.close(np.broadcast_to(ev.result, np.shape(ok))[ok] if np.ndim(ok) else ev.result, want[ok] if np.ndim(want) else want,
                        "inverse", rtol=1e-6, msg="inverse", args=a)
        elif ev.name == "petrosian_profile":
            r = np.asarray(a["r"], float)
            x = refs.bn(a["n"]) * (r / a["r_eff"]) ** (1 / a["n"])
            want = refs.sersic_eta(r, a["r_eff"], a["n"])
            ok = (r > 0) & np.isfinite(r) & (x < 500) & (refs.sersic_L(r, 1.0, a["r_eff"], a["n"]) > 1e-200)
            g = np.broadcast_to(ev.result, np.shape(ok))
            if np.any(ok):
                M.close(np.asarray(g)[ok], np.broadcast_to(want, np.shape(ok))[ok], "petrosian", rtol=1e-7, atol=1e-300, msg="local over mean brightness", args=a)
        elif ev.name in ("Ie_to_I0", "I0_to_Ie"):
            k = np.exp(refs.bn(a["n"]))
            want = np.asarray(a["I_e"]) * k if ev.name == "Ie_to_I0" else np.asarray(a["I_0"]) / k
            M.close(ev.result, want, "central", rtol=1e-9, msg=ev.name, args=a)


def hooks(M):
    return {k: (lambda ev: judge(M, ev)) for k in ("sersic_enclosed", "sersic_enclosed_inv", "petrosian_profile", "Ie_to_I0", "I0_to_Ie")}


def draw(rng):
    n = float(rng.uniform(.3, 10)) if rng.random() < .8 else float(rng.choice([.5, 1, 2, 4]))
    if rng.random() < .1:
        n = int(rng.integers(1, 8))
    return float(10 ** rng.uniform(-6, 6)), float(10 ** rng.uniform(-1, 3)), n, (0.0 if rng.random() < .3 else float(rng.uniform(0, .95)))


def run_laws(M, rng, case):
    A, re, n, e = draw(rng)
    tot = pf.sersic_enclosed(np.inf, A, re, n, e)
    r = re * 10 ** np.sort(rng.uniform(-4, 2.5, 25))
    wit = dict(A=A, re=re, n=n, e=e)
    M.close(pf.sersic_enclosed(re, A, re, n, e), tot / 2, "half_light", rtol=1e-8, msg="half of the total is not inside r_eff", **wit)
    F = pf.sersic_enclosed(r, A, re, n, e)
    M.check(np.all(np.diff(F) >= -1e-13 * tot) and np.all(F > 0) and np.all(F <= tot * (1 + 1e-12)), "monotone", "enclosed flux not monotone up to the total", F=F, **wit)
    M.check(abs(pf.sersic_enclosed(0.0, A, re, n, e)) <= 1e-300 + 1e-12 * tot, "zero", "flux inside radius 0", **wit)
    M.close(pf.sersic_enclosed(r, A, re, n, 0), F / (1 - e), "ellipse_scaling", rtol=1e-9, msg="axis ratio scaling", **wit)
    f = tot * np.concatenate([rng.uniform(.001, .999, 4), 10 ** rng.uniform(-5, -1, 2), 10 ** rng.uniform(-12, -5, 2), 1 - 10 ** rng.uniform(-5, -1, 2)])
    M.close(pf.sersic_enclosed(pf.sersic_enclosed_inv(f, A, re, n, e), A, re, n, e), f, "inverse_law", rtol=1e-7, msg="enclosed(inverse(f)) is not f", **wit)
    f = f[rng.permutation(f.size)]
    M.close(pf.sersic_enclosed_inv(float(f[0]), A, re, n, e), refs.sersic_r(f[0] / tot, re, n), "inverse_law", rtol=1e-6, msg="inverse", **wit)
    P = pf.petrosian_profile(r, re, n)
    s = float(10 ** rng.uniform(-3, 3))
    ok = np.isfinite(P)
    M.check(np.all(np.diff(P[ok]) <= 1e-12), "petro_monotone", "Petrosian profile rises", P=P, **wit)
    M.close(pf.petrosian_profile(r * s, re * s, n)[ok], P[ok], "petro_scale", rtol=1e-7, atol=1e-300, msg="profile depends on more than r/r_eff", **wit)
    rc = re * (1e-7 / refs.bn(n)) ** n
    if refs.sersic_L(rc, 1, re, n) > 1e-200:
        M.close(pf.petrosian_profile(np.array([rc]), re, n), [1.0], "petro_centre", rtol=1e-5, msg="profile does not tend to 1 at the centre", **wit)
    I = float(10 ** rng.uniform(-3, 3))
    M.close(pf.I0_to_Ie(pf.Ie_to_I0(I, n), n), I, "I_round_trip", rtol=1e-10, msg="Ie -> I0 -> Ie", **wit)
    M.close(pf.Ie_to_I0(pf.I0_to_Ie(I, n), n), I, "I_round_trip", rtol=1e-10, msg="I0 -> Ie -> I0", **wit)
    M.close(pf.Ie_to_I0(I, n), models.Sersic1D(I, re, n)(0.0), "I_centre", rtol=1e-8, msg="brightness at r=0", **wit)
    M.nontrivial("laws", round(float(n)), round(e * 6), type(n).__name__)
    M.sample(total=tot, **wit)


def run_integral(M, rng, case):
    A, re, n, e = draw(rng)
    r = re * float(10 ** rng.uniform(-2, 1.2))
    b = refs.bn(n)
    # substitute u = (r/re)^(1/n): smooth integrand
    u1 = (r / re) ** (1 / n)
    v, err = integrate.quad(lambda u: np.exp(-b * (u - 1)) * n * u ** (2 * n - 1), 0, u1, epsabs=0, epsrel=1e-10, limit=300)
    want = A * 2 * np.pi * (1 - e) * re * re * v
    M.close(pf.sersic_enclosed(r, A, re, n, e), want, "integral", rtol=1e-6, msg="not the integral of the Sersic brightness", A=A, re=re, n=n, e=e, r=r)
    local = A * np.exp(-b * (u1 - 1))
    mean = want / (np.pi * r * r * (1 - e))
    M.close(pf.petrosian_profile(r, re, n), local / mean, "integral_petro", rtol=1e-6, msg="not local over mean brightness", re=re, n=n, r=r)
    M.event("integrals")
    M.nontrivial("integral", round(float(n)), round(e * 6), round(np.log10(r / re), 1))


def run_models(M, rng, case):
    A, re, n, e = draw(rng)
    n = float(n)
    r = re * 10 ** rng.uniform(-3, 2, [(), (7,), (2, 3)][rng.integers(3)])
    r = float(r) if np.ndim(r) == 0 else r
    M.close(pf.sersic_enclosed_model(amplitude=A, r_eff=re, n=n, ellip=e)(r), pf.sersic_enclosed(r, A, re, n, e), "model_class", rtol=1e-9, msg="sersic_enclosed_model", r=r)
    M.close(pf.petrosian_model(r_eff=re, n=n)(r), pf.petrosian_profile(r, re, n), "model_class", rtol=1e-9, msg="petrosian_model", r=r)
    M.close(pf.sersic_enclosed_model()(r), refs.sersic_L(r, 1000, 30, 2, 0), "model_default", rtol=1e-8, msg="default parameters", r=r)
    # arrays of parameters
    nn = rng.uniform(.5, 6, 4)
    M.close(pf.sersic_enclosed(re, A, re, nn, e) * 2, pf.sersic_enclosed(np.inf, A, re, nn, e), "array_n", rtol=1e-8, msg="array of n")
    M.nontrivial("models", round(n), np.shape(r))


def run_internal(M, rng, case):
    pf.generate_petrosian_sersic_correction(None, r_eff_list=[8, 10], n_list=[float(rng.choice([.7, 1, 1.4]))], oversample=None)
    M.nontrivial("internal", case["i"])

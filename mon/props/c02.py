"""C02 Petrosian radius: first crossing of eta, recomputed for every observed call."""
import numpy as np
import petrofit as pf
from .. import refs, gens

RULE = ("Profiles from curves of growth and hostile synthetic ones (dips, re-crossings, plateaus, never crossing, nan), "
        "all interpolation kinds, sample numbers, eta; every observed calculate_petrosian_r call is re-decided. "
        "Non-trivial: distinct (style, kind, num, eta, crossing count class).")
PLAN = {"quick": {"curves": 1050, "hostile": 1500, "objects": 450},
        "thorough": {"curves": 8000, "hostile": 12000, "objects": 3000}}
NEED = ["calculate_petrosian_r", "found", "never", "recrossing", "error_found", "exact_tie"]


def cands(xs, ys, eta, exact=False):
    return refs.radius_candidates(eta, xs, ys, slack=0.0 if exact else 1e-9)


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        M.violate("raises", "raised %r" % ev.exc, args=a)
        return
    decide(M, a["r_list"], a["petrosian_list"], a["petrosian_err"], a["eta"], a["interp_kind"], a["interp_num"], *ev.result,
           exact=a["interp_kind"] is None)


def decide(M, r, P, E, eta, kind, num, got, got_err, exact=False):
    # exact: the values themselves are searched (no interpolation), so equality with eta is reaching it
    r, P, E = refs.petro_anchor(r, P, E)
    xs, ys = refs.sampled(r, P, kind, num)
    c, none_ok = cands(xs, ys, eta, exact)
    if exact and np.any(ys == eta):
        M.event("exact_tie")
    tol = 1e-7 * max(abs(xs[-1]), 1e-300)
    wit = dict(r=r, P=P, eta=eta, kind=kind, num=num, got=got, want=c[:5])
    M.check(refs.matches(got, c, none_ok, tol), "first_crossing", "radius is not the first crossing of eta", **wit)
    if np.isnan(got):
        M.event("never")
        M.check(np.isnan(got_err), "err_nan", "error without a radius", **wit)
        return
    M.event("found")
    below = ys <= eta
    if np.count_nonzero(np.diff(below.astype(int)) == 1) > 1:
        M.event("recrossing")
    if kind is None:
        M.check(np.any(np.abs(r - got) <= tol), "discrete", "radius not among the given radii", **wit)
    if E is None:
        M.check(np.isnan(got_err), "err_nan", "error although the profile has none", **wit)
        return
    up, un = cands(*refs.sampled(r, P + E, kind, num), eta)
    lo, ln = cands(*refs.sampled(r, P - E, kind, num), eta)
    want = [(u - l) / 2 for u in up for l in lo]
    ok = (np.isnan(got_err) and (un or ln)) or any(abs(got_err - w) <= tol for w in want)
    if want:
        M.event("error_found")
    M.check(ok, "error", "error is not half the distance of the +-1 sigma crossings", got_err=got_err, want_err=want[:5], **wit)


def hooks(M):
    return {"calculate_petrosian_r": lambda ev: judge(M, ev)}


def call(M, rng, r, P, E, s):
    if s["interp_kind"] in ("cubic", 3) and len(r) < 4:
        s["interp_kind"] = "linear"
    if rng.random() < .25:
        r, P = list(r), list(P)
        E = None if E is None else list(E)
    keep = [np.array(v, float) for v in (r, P)] + [None if E is None else np.array(E, float)]
    out = pf.calculate_petrosian_r(r, P, petrosian_err=E, eta=s["eta"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])
    for v, k in zip((r, P, E), keep):
        M.check(v is None or np.array_equal(np.array(v, float), k, equal_nan=True), "inputs_kept", "anchoring modified an input")
    return out


def run_curves(M, rng, case):
    r, area, flux, style = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    P, E = refs.profile(area, flux, ae, fe)
    s = gens.settings(rng)
    out = call(M, rng, r, P, E, s)
    M.nontrivial(style, s["interp_kind"], s["interp_num"], np.isnan(out[0]), E is None)
    M.sample(style=style, settings=s, result=out)


def run_hostile(M, rng, case):
    m = int(rng.integers(4, 60))
    r = np.cumsum(rng.uniform(.2, 3, m)) if rng.random() < .7 else np.arange(1, m + 1)
    if rng.random() < .05:
        m = 5200; r = np.linspace(1, 300, m)
    style = ["walk", "dip", "plateau", "above", "below", "saw", "nearmiss", "nan"][rng.integers(8)]
    t = np.arange(m) / m
    eta = float(rng.uniform(.1, .7))
    P = {"walk": lambda: 1 - np.cumsum(rng.normal(.02, .15, m)),
         "dip": lambda: 1 - .6 * t - .8 * np.exp(-((t - rng.uniform(.2, .6)) / .05) ** 2),
         "plateau": lambda: np.where(t < rng.uniform(.2, .8), 1 - t, eta + rng.choice([-1e-3, 0, 1e-3])),
         "above": lambda: eta + .05 + rng.random(m) * .3,
         "below": lambda: eta - .05 - rng.random(m) * .3,
         "saw": lambda: .5 + .5 * np.sin(40 * t) * (1 - t),
         "nearmiss": lambda: 1 - (1 - eta) * t * rng.uniform(.97, 1.03),
         "nan": lambda: np.where(rng.random(m) < .05, np.nan, 1 - t)}[style]()
    E = np.abs(rng.normal(0, .05, m)) if rng.random() < .5 else None
    if E is not None and rng.random() < .1:
        E[:] = 0
    P = np.asarray(P, float)
    P[0] = np.nan if rng.random() < .7 else .3
    if E is not None:
        E[0] = np.nan
    s = gens.settings(rng); s["eta"] = eta
    if style == "plateau" and rng.random() < .5:
        s["interp_kind"] = None
    out = call(M, rng, r, P, E, s)
    M.nontrivial(style, s["interp_kind"], s["interp_num"], np.isnan(out[0]), E is None)


def run_objects(M, rng, case):
    r, area, flux, style = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    s = gens.settings(rng)
    if len(r) < 4:
        return
    p = pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe, **s)
    P, E = refs.profile(area, flux, ae, fe)
    for _ in range(3):
        decide(M, r, P, E, p.eta, p.interp_kind, p.interp_num, p.r_petrosian, p.r_petrosian_err)
        p.eta = float(rng.uniform(.05, .9))
    M.close(p.r_epsilon, p.r_petrosian * p.epsilon, "r_epsilon", msg="r_epsilon")
    M.nontrivial(style, s["interp_kind"], s["interp_num"], E is None)

"""C03 radii enclosing flux fractions, fluxes, concentrations: re-decided from the curve of growth."""
import numpy as np
from scipy.interpolate import interp1d
import petrofit as pf
from .. import refs, gens

RULE = ("Curves of growth (six styles, truncated, falling, with and without errors) x settings (eta, epsilon, fractions, "
        "interpolation); every observed fraction_to_r / calculate_concentration_index call and every Petrosian accessor is "
        "re-decided. Non-trivial: distinct (style, kind, error mode, nan/finite outcome, fraction class).")
PLAN = {"quick": {"direct": 1200, "objects": 1500, "edges": 750},
        "thorough": {"direct": 9000, "objects": 10000, "edges": 6000}}
NEED = ["fraction_to_r", "calculate_concentration_index", "finite_radius", "nan_radius", "finite_error", "out_of_range"]


def cog(r, F, kind):
    return interp1d(np.asarray(r, float), np.asarray(F, float), kind="cubic" if kind is None else kind)


def decide(M, a, got, got_err, rule="fraction_radius"):
    """a: dict with the arguments of fraction_to_r; got may be any of the acceptable answers."""
    r, F = np.asarray(a["r_list"], float), np.asarray(a["flux_list"], float)
    R = a["r_petrosian"] * a["epsilon"]
    wit = dict(fraction=a["fraction"], r_petrosian=a["r_petrosian"], epsilon=a["epsilon"], ef=a["epsilon_fraction"],
               kind=a["interp_kind"], num=a["interp_num"], r=r, F=F, got=got, got_err=got_err)
    near = 1e-9 * r[-1]
    if R == r[0] or R == r[-1]:
        M.event("exact_ends")               # (the ends belong to the sampled radii)
    elif np.isfinite(R) and (abs(R - r[0]) < near or abs(R - r[-1]) < near):
        M.event("edge_skipped")
        return
    if not (r[0] <= R <= r[-1]):
        M.event("out_of_range")
        M.check(np.isnan(got) and np.isnan(got_err), "nan_outside", "R outside the radii but result is not nan", **wit)
        return
    f = cog(r, F, a["interp_kind"])
    FR = float(f(R))
    target = FR * a["fraction"] / a["epsilon_fraction"]
    xs, ys = refs.sampled(r, F, a["interp_kind"], a["interp_num"])
    c, none_ok = refs.radius_candidates(target, xs, ys, growing=True)
    tol = 1e-7 * r[-1]
    M.check(refs.matches(got, c, none_ok, tol), rule, "radius does not enclose the fraction (first reach)", want=c[:5], target=target, **wit)
    if np.isnan(got):
        M.event("nan_radius")
        M.check(np.isnan(got_err), "err_nan", "error without radius", **wit)
        return
    M.event("finite_radius")
    if a["flux_err"] is None:
        M.check(np.isnan(got_err), "err_nan", "error although no flux errors", **wit)
        return
    sF = np.asarray(a["flux_err"], float)
    e = a["r_petrosian_err"]
    e = 0.0 if e is None or np.isnan(e) else float(e)
    if 0 < abs(R - e - r[0]) < near or 0 < abs(R + e - r[-1]) < near:
        return
    if R - e < r[0] or R + e > r[-1] or R - e > r[-1] or R + e < r[0]:
        M.event("error_out_of_range")
        M.check(np.isnan(got_err), "err_nan", "error although the 1-sigma range is not covered", **wit)
        return
    d = (float(cog(r, F + sF, a["interp_kind"])(R + e)) - float(cog(r, F - sF, a["interp_kind"])(R - e))) / 2
    up, un = refs.radius_candidates(target + d, *refs.sampled(r, F - sF, "cubic", 5000), growing=True)
    lo, ln = refs.radius_candidates(target - d, *refs.sampled(r, F + sF, "cubic", 5000), growing=True)
    want = [(u - l) / 2 for u in up for l in lo]
    if want:
        M.event("finite_error")
    ok = (np.isnan(got_err) and (un or ln)) or any(abs(got_err - w) <= tol for w in want)
    M.check(ok, "radius_error", "error is not half the spread of the +-1 sigma curves", want_err=want[:5], **wit)


def judge_fraction(M, ev):
    if ev.exc is not None:
        M.violate("raises", "fraction_to_r raised %r" % ev.exc, args=ev.args)
        return
    decide(M, ev.args, *ev.result)


def judge_conc(M, ev):
    if ev.exc is not None:
        M.violate("raises", "calculate_concentration_index raised %r" % ev.exc, args=ev.args)
        return
    a = ev.args
    r1, r2, c = ev.result
    conc_ok(M, a, r1, r2, c)


def conc_ok(M, a, r1, r2, c):
    one = pf.fraction_to_r.__verif_original__ if hasattr(pf.fraction_to_r, "__verif_original__") else pf.fraction_to_r
    kw = {k: a[k] for k in ("r_list", "flux_list", "r_petrosian", "flux_err", "r_petrosian_err", "epsilon",
                            "epsilon_fraction", "interp_kind", "interp_num")}
    q1, q2 = one(a["fraction_1"], **kw)[0], one(a["fraction_2"], **kw)[0]
    wit = dict(q1=q1, q2=q2, r1=r1, r2=r2, c=c, f1=a["fraction_1"], f2=a["fraction_2"])
    if np.isnan(q1) or np.isnan(q2):
        M.check(np.isnan(r1) and np.isnan(r2) and np.isnan(c), "concentration_nan", "partial nan concentration", **wit)
        return
    M.close([r1, r2], [q1, q2], "concentration_radii", rtol=1e-12, msg="radii of the concentration", **wit)
    with np.errstate(all="ignore"):
        M.close(c, 5 * np.log10(np.float64(q2) / q1), "concentration", rtol=1e-10, msg="5 log10(r2/r1)", **wit)


def hooks(M):
    return {"fraction_to_r": lambda ev: judge_fraction(M, ev),
            "calculate_concentration_index": lambda ev: judge_conc(M, ev)}


def run_direct(M, rng, case):
    r, area, flux, style = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    s = gens.settings(rng)
    rp = float(rng.uniform(.02, .9) * r[-1]) if rng.random() < .85 else (np.nan if rng.random() < .5 else float(r[-1] * 2))
    if rng.random() < .12:                     # R exactly at an end of the sampled radii
        s["epsilon"] = float(rng.choice([.5, 1, 2, 4]))
        rp = float(r[-1] if rng.random() < .7 else r[0]) / s["epsilon"]
    rpe = None if rng.random() < .3 else (np.nan if rng.random() < .2 else float(rng.uniform(0, .2) * r[-1]))
    if rng.random() < .2:
        r, flux = list(r), list(flux)
    kw = dict(flux_err=fe, r_petrosian_err=rpe, epsilon=s["epsilon"], epsilon_fraction=s["epsilon_fraction"],
              interp_kind=s["interp_kind"], interp_num=s["interp_num"])
    f = float(rng.choice([.2, .5, .8, .9, .99, rng.uniform(.01, 1.2)]))
    out = pf.fraction_to_r(f, r, flux, rp, **kw)
    f1, f2 = rng.uniform(.05, 1, 2)            # either order: the radii come back in the order asked for
    if rng.random() < .6:
        f1, f2 = min(f1, f2), max(f1, f2)
    pf.calculate_concentration_index(float(f1), float(f2), r, flux, rp, **kw)
    M.nontrivial(style, s["interp_kind"], fe is None, rpe is None, np.isnan(out[0]), round(f, 1))
    M.sample(style=style, fraction=f, r_petrosian=rp, settings=s, result=out)


def accessors(M, p, r, flux, fe, style, pair=(.3, .6)):
    rp, rpe = p.r_petrosian, p.r_petrosian_err
    base = dict(r_list=r, flux_list=flux, r_petrosian=rp, flux_err=fe, r_petrosian_err=rpe, epsilon=p.epsilon,
                epsilon_fraction=p.epsilon_fraction, interp_kind=p.interp_kind, interp_num=p.interp_num)
    R = {}
    for name, frac, val, err in (("r_half_light", .5, p.r_half_light, p.r_half_light_err), ("r_50", .5, p.r_50, p.r_50_err),
                                 ("r_total_flux", p.total_flux_fraction, p.r_total_flux, p.r_total_flux_err),
                                 ("r(.2)", .2, p.fraction_flux_to_r(.2), p.fraction_flux_to_r_err(.2)),
                                 ("r(.8)", .8, p.fraction_flux_to_r(fraction=.8), p.fraction_flux_to_r_err(fraction=.8)),
                                 ("r()", .5, p.fraction_flux_to_r(), p.fraction_flux_to_r_err())):
        decide(M, dict(base, fraction=frac), val, err, rule="accessor_" + name)
        R[name] = val
    lo, hi = np.min(np.asarray(r, float)), np.max(np.asarray(r, float))
    f = cog(r, flux, p.interp_kind)
    for name, rr, re, val, err in (("total_flux", R["r_total_flux"], p.r_total_flux_err, p.total_flux, p.total_flux_err),
                                   ("half_flux", R["r_half_light"], p.r_half_light_err, p.half_flux, p.half_flux_err)):
        if not (lo <= rr <= hi):
            M.check(np.isnan(val) and np.isnan(err), name + "_nan", "flux although the radius is nan", val=val, err=err)
            continue
        M.close(val, f(rr), name, rtol=1e-9, atol=1e-9 * np.max(np.abs(flux)) * 1e-3, msg="flux at the radius", r=rr)
        if fe is None:
            M.check(np.isnan(err), name + "_err_nan", "flux error although none given", err=err)
        elif np.isnan(re):
            M.check(np.isnan(err), name + "_err_nan", "flux error although the radius error is nan", err=err)
        else:
            # nearest flux error (either neighbour when half way) and flux change over the radius error
            d = np.abs(np.asarray(r, float) - rr)
            near = np.asarray(fe, float)[d <= d.min() + 1e-9 * hi]
            dF = (float(f(np.clip(rr + re, lo, hi))) - float(f(np.clip(rr - re, lo, hi)))) / 2 if -hi < re < hi else np.nan
            want = np.sqrt(near ** 2 + dF ** 2)
            ok = np.isnan(dF) or np.any(np.abs(want - err) <= 1e-7 * np.abs(want) + 1e-12 * np.max(np.abs(flux)))
            M.check(ok, name + "_err", "flux error", err=err, want=want, re=re, dF=dF)
            M.event("flux_error")
    for name, f1, f2, val in (("c2080", .2, .8, p.c2080), ("c5090", .5, .9, p.c5090),
                              ("concentration_index()", .2, .8, p.concentration_index()[-1])):
        a, b = p.fraction_flux_to_r(f1), p.fraction_flux_to_r(f2)
        with np.errstate(all="ignore"):
            want = np.nan if np.isnan(a) or np.isnan(b) else 5 * np.log10(np.float64(b) / a)
        M.close(val, want, name, rtol=1e-9, msg="concentration", r1=a, r2=b)
    for form, got in (("positional", p.concentration_index(*pair)), ("keyword", p.concentration_index(fraction_1=pair[0], fraction_2=pair[1]))):
        a, b = p.fraction_flux_to_r(pair[0]), p.fraction_flux_to_r(pair[1])
        with np.errstate(all="ignore"):
            want = [np.nan] * 3 if np.isnan(a) or np.isnan(b) else [a, b, 5 * np.log10(np.float64(b) / a)]
        M.close(np.asarray(got, float), want, "concentration_pair", rtol=1e-9, msg="radii and concentration of a pair of fractions, in the order given", pair=pair, form=form)
    M.check(bool(p.r_epsilon_in_range) == bool(lo <= rp * p.epsilon <= hi), "r_epsilon_in_range", "range flag")


def run_objects(M, rng, case):
    r, area, flux, style = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    s = gens.settings(rng)
    p = pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe, **s)
    accessors(M, p, r, flux, fe, style, tuple(float(v) for v in rng.uniform(.05, 1.05, 2)))
    M.nontrivial(style, s["interp_kind"], ae is None, fe is None, np.isnan(p.r_half_light), np.isnan(p.r_total_flux))


def run_edges(M, rng, case):
    """Truncated curves: R near either end, errors larger than the margins, r_epsilon below the first radius."""
    m = int(rng.integers(5, 60))
    r = np.arange(1.0, 61.0)
    if rng.random() < .3:
        r = r + rng.uniform(0, 8)
    n, re = rng.choice([.5, 1, 2, 4]), rng.uniform(2, 12)
    q = rng.uniform(.3, 1)
    F, A = refs.sersic_L(r, 10, re, n) * q, np.pi * r ** 2 * q
    r, F, A = r[:m], F[:m], A[:m]
    fe = rng.choice([.001, .01, .03, .1]) * F * rng.uniform(.5, 1, m) if rng.random() < .8 else None
    ae = A * .01 if rng.random() < .2 else None
    eps = float(rng.choice([.01, .2, .5, 1, 1.5, 2, 3]))
    p = pf.Petrosian(r, A, F, area_err=ae, flux_err=fe, eta=float(rng.uniform(.1, .95)), epsilon=eps,
                     total_flux_fraction=float(rng.choice([.5, .9, .99])))
    accessors(M, p, r, F, fe, "edge")
    M.nontrivial(m, float(n), eps, np.isnan(p.r_half_light), np.isnan(p.r_half_light_err))

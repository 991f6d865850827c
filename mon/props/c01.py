"""C01 Petrosian profile and its error: reference recomputation of every observed call."""
import numpy as np
import petrofit as pf
from .. import refs, gens

RULE = ("Curves of growth of six styles (Sersic, noisy, falling, double, compact, flat), with repeated, flat, integer, "
        "float32, list and tuple variants and extreme units; every observed call of calculate_petrosian is recomputed. "
        "Non-trivial: distinct (length, style, error mode, repetition, type) with at least one finite profile value.")
PLAN = {"quick": {"direct": 1500, "types": 360, "reject": 180, "objects": 180, "grid": 2},
        "thorough": {"direct": 12000, "types": 2500, "reject": 800, "objects": 1200, "grid": 12}}
NEED = ["calculate_petrosian", "rejections", "repeated_areas", "with_errors"]
ASSUME = ["First-order propagation treats the four inputs of a value as independent, as documented."]


def valid(a):
    A, F = np.asarray(a["area_list"]), np.asarray(a["flux_list"])
    ok = len(A) == len(F) and len(A) > 2 and np.all(np.diff(np.asarray(A, float)) >= 0)
    for k, ref in (("area_err", A), ("flux_err", F)):
        if a[k] is not None and len(a[k]) != len(ref):
            ok = False
    return ok


def judge(M, ev):
    a = ev.args
    if ev.exc is not None:
        if valid(a):
            M.violate("raises", "valid curve rejected: %r" % ev.exc, args=a)
        return
    if not valid(a):
        M.violate("accepts", "invalid curve accepted", args=a)
        return
    P, E = refs.profile(a["area_list"], a["flux_list"], a["area_err"], a["flux_err"])
    got, err = ev.result
    M.close(got, P, "profile", rtol=1e-8, atol=1e-12, msg="profile differs from edge/mean brightness", args=a)
    A = np.asarray(a["area_list"], float)
    if len(np.unique(A)) < len(A):
        M.event("repeated_areas")
    if E is None:
        M.check(err is None, "no_errors", "errors returned without input errors", args=a)
        return
    M.event("with_errors")
    if not M.check(err is not None and len(err) == len(A), "errors_given", "errors missing", args=a):
        return
    F = np.asarray(a["flux_list"], float)
    ok = np.isfinite(E) & (F != 0)
    M.close(np.asarray(err, float)[ok], E[ok], "error", rtol=1e-8, atol=1e-12 * (1 + np.nanmax(np.abs(P), initial=0)),
            msg="error is not the first-order propagation", args=a)
    M.check(np.isnan(np.asarray(err, float)[A == A[0]]), "error_first_nan", "first error is not nan", args=a)


def hooks(M):
    return {"calculate_petrosian": lambda ev: judge(M, ev)}


def make(rng):
    r, area, flux, style = gens.curve(rng)
    if rng.random() < .1:
        area, flux = area[:3], flux[:3]
    if rng.random() < .03:                     # long curve
        r = np.linspace(.5, 300, 6000)
        r, area, flux, style = gens.curve(rng, r)
    tag = "plain"
    u = rng.random()
    n = len(area)
    if u < .15:                                # saturated at the end
        k = rng.integers(1, n); area = np.minimum(area, area[k]); tag = "sat"
        if rng.random() < .5:
            flux = np.where(np.arange(n) > k, flux[k], flux)
    elif u < .4:                               # repeats anywhere, same or different fluxes
        idx = np.sort(rng.integers(0, n, n + int(rng.integers(1, 5))))
        area, flux = area[idx], flux[idx]; tag = "rep"
        if rng.random() < .5:
            flux = flux * rng.uniform(.9, 1.1, flux.size)
    elif u < .5:                               # constant flux stretches
        k = rng.integers(1, n); flux = np.where(np.arange(n) >= k, flux[k - 1], flux); tag = "flatflux"
    elif u < .56:
        flux = -flux; tag = "neg"
    elif u < .6:
        flux = flux - flux.mean(); tag = "mixed"
    elif u < .63:
        area = area.copy(); flux = flux.copy(); area[0] = flux[0] = 0; tag = "zero0"
    sc = 10.0 ** rng.integers(-25, 25) if rng.random() < .3 else 1.0
    sa = 10.0 ** rng.uniform(-12, 12) if rng.random() < .3 else 1.0     # areas in other units (arcsec, deg, kpc ...)
    return area * sa, flux * sc, style, tag


def run_direct(M, rng, case):
    area, flux, style, tag = make(rng)
    ae, fe = gens.errors(rng, area, flux)
    if rng.random() < .1:
        ae = np.zeros(len(area)); fe = np.zeros(len(area)) if rng.random() < .5 else None
    keep = [None if v is None else v.copy() for v in (area, flux, ae, fe)]
    P, E = pf.calculate_petrosian(area, flux, area_err=ae, flux_err=fe)
    for v, k in zip((area, flux, ae, fe), keep):
        M.check(v is None or np.array_equal(v, k, equal_nan=True), "inputs_kept", "input array modified")
    if ae is not None and not ae.any() and (fe is None or not fe.any()):
        fin = np.isfinite(P)
        M.check(np.all(np.asarray(E)[fin] == 0), "zero_errors", "zero input errors give non-zero error", E=E)
    if np.isfinite(P).any():
        M.nontrivial(len(area), style, tag, ae is None, fe is None)
    M.sample(n=len(area), style=style, tag=tag, profile=P)


def run_types(M, rng, case):
    m = int(rng.integers(3, 40))
    area = np.cumsum(rng.integers(0 if rng.random() < .4 else 1, 9, m)) + 1
    flux = np.cumsum(rng.integers(0, 50, m)) + 1
    fe = rng.integers(1, 5, m) if rng.random() < .6 else None
    ae = rng.integers(1, 3, m) if rng.random() < .4 else None
    base = pf.calculate_petrosian(area.astype(float), flux.astype(float),
                                  area_err=None if ae is None else ae.astype(float),
                                  flux_err=None if fe is None else fe.astype(float))
    for name, conv in (("int", lambda v: v.astype(int)), ("int32", lambda v: v.astype(np.int32)), ("f4", lambda v: v.astype(np.float32)),
                       ("list", lambda v: [int(t) for t in v]), ("floatlist", lambda v: [float(t) for t in v]),
                       ("tuple", lambda v: tuple(float(t) for t in v)), ("u2", lambda v: v.astype(np.uint16)),
                       ("be", lambda v: v.astype(">f8"))):
        conv2 = conv if rng.random() < .7 else (lambda v: v.astype(float))
        got = pf.calculate_petrosian(conv(area), conv2(flux), area_err=None if ae is None else conv(ae),
                                     flux_err=None if fe is None else conv2(fe))
        M.close(got[0], base[0], "type_independent", rtol=1e-6, msg="profile depends on input type " + name, area=area, flux=flux)
        if base[1] is not None:
            M.close(got[1], base[1], "type_independent", rtol=1e-6, atol=1e-12, msg="error depends on input type " + name, area=area, flux=flux)
    M.nontrivial(m, len(np.unique(area)), fe is None, ae is None)


def run_reject(M, rng, case):
    r, area, flux, _ = gens.curve(rng)
    n = len(area)
    k = int(rng.integers(1, n))
    bad = area.copy(); bad[k] = bad[k - 1] * .99 - 1e-3
    M.rejects("reject", pf.calculate_petrosian, bad, flux, what="decreasing areas")
    M.rejects("reject", pf.calculate_petrosian, area[:2], flux[:2], what="two points")
    M.rejects("reject", pf.calculate_petrosian, area[:-1], flux, what="unequal lengths")
    M.rejects("reject", pf.calculate_petrosian, area, flux[:-1], what="unequal lengths")
    M.rejects("reject", pf.calculate_petrosian, area, flux, None, flux[:-1], what="short flux_err")
    M.rejects("reject", pf.calculate_petrosian, area, flux, area[:-1], what="short area_err")
    M.rejects("reject", pf.Petrosian, r, bad, flux, what="Petrosian with decreasing areas")
    M.rejects("reject", pf.Petrosian, r[:2], area[:2], flux[:2], what="Petrosian with two points")
    M.rejects("reject", pf.Petrosian, r[:-1], area, flux, what="Petrosian with unequal lengths")
    M.nontrivial("reject", n)


def run_objects(M, rng, case):
    r, area, flux, style = gens.curve(rng)
    if rng.random() < .3:
        k = 10.0 ** rng.uniform(-6, 6)
        r, area = r * k, area * k * k
    ae, fe = gens.errors(rng, area, flux)
    p = pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe)
    P, E = refs.profile(area, flux, ae, fe)
    M.close(p.petrosian_list, P, "object_profile", rtol=1e-8, atol=1e-12, msg="Petrosian.petrosian_list")
    M.check((p.petrosian_err is None) == (E is None) == (not p.has_petrosian_err), "object_err", "Petrosian.petrosian_err presence")
    if E is not None:
        M.close(p.petrosian_err, E, "object_err", rtol=1e-8, atol=1e-12, msg="Petrosian.petrosian_err")
    M.nontrivial(len(r), style, ae is None, fe is None)


def run_grid(M, rng, case):
    pf.generate_petrosian_sersic_correction(None, r_eff_list=[int(rng.integers(8, 12))], n_list=[float(rng.choice([.8, 1, 1.5]))],
                                            oversample=None)
    M.nontrivial("grid", case["i"])

"""C20 PetrosianCorrection: row choice, supported settings, refusals, side effects, files."""
import os, tempfile, shutil, copy
import numpy as np
import petrofit as pf
from astropy.table import Table
from .. import refs, gens, core

RULE = ("Synthetic grids measured from analytic Sersic curves (random n/r_eff sets, also one-row and duplicated rows) and the grids shipped "
        "with the repository; profiles of grid members, between members, outside, hopeless (too short, noise), with every eta and "
        "epsilon_fraction, supported or not; call sequences over shared objects; files written and read. Each estimate/correct call is "
        "recomputed by an own nearest-row search. Non-trivial: distinct (grid, eta, fraction, in/out of range, measurable).")
PLAN = {"quick": {"rows": 480, "own": 180, "shipped": 48, "files": 36, "refuse": 180},
        "thorough": {"rows": 4000, "own": 1500, "shipped": 300, "files": 150, "refuse": 1500}}
NEED = ["nearest_judged", "out_of_range", "unmeasurable", "rejections", "own_rows", "files", "corrected"]
ASSUME = ["The measurement is r_petrosian at eta 0.2 with default interpolation, r_50 and C2080 with the profile's own settings.",
          "Rows whose distances agree to 1e-9 are both acceptable."]
ETA = {.2: "p02", .3: "p03", .4: "p04", .5: "p05"}
FRAC = {.5: "c_r_50", .8: "c_r_80", .99: "c_r_99"}


def profile(n, re, rmax=None, **kw):
    r99 = refs.sersic_r(.99, re, n)
    rmax = rmax or 3.2 * r99
    r = np.concatenate([np.arange(1, min(rmax, 60), 1.), np.arange(60, rmax, max(1., rmax / 60))])
    amp = 100 / np.exp(refs.bn(n))
    return pf.Petrosian(r, np.pi * r ** 2, refs.sersic_L(r, amp, re, n), **kw)


def grid_of(pairs, rng=None):
    rows = []
    for n, re in pairs:
        p = profile(n, re)
        rp = [pf.Petrosian(p.r_list, p.area_list, p.flux_list, eta=e).r_petrosian for e in ETA]
        rows.append([n, re, *rp, p.r_50, p.c2080, refs.sersic_r(.495, re, n), refs.sersic_r(.8, re, n), refs.sersic_r(.99, re, n)])
    return Table(rows=rows, names=["n", "r_eff", "p02", "p03", "p04", "p05", "u_r_50", "u_c2080", "c_r_50", "c_r_80", "c_r_99"])


def random_grid(rng, k=None):
    ns = np.round(rng.uniform(.6, 3, int(rng.integers(2, 5))), 2)
    rs = np.round(rng.uniform(4, 20, int(rng.integers(2, 5))), 1)
    pairs = [(float(n), float(r)) for n in ns for r in rs]
    t = grid_of(pairs)
    if rng.random() < .3:
        t = t[rng.permutation(len(t))]
    return t


def measure(p):
    q = pf.Petrosian(p.r_list, p.area_list, p.flux_list, eta=.2)
    return float(q.r_petrosian), float(p.r_50), float(p.c2080)


def expect(grid, p):
    """-> (acceptable rows, in range?, measurable?)"""
    m = measure(p)
    if np.any(np.isnan(m)):
        return [], False, False
    d, inside = 0, True
    for k, v in zip(("p02", "u_r_50", "u_c2080"), m):
        col = np.asarray(grid[k], float)
        d = d + ((col - v) / np.std(col)) ** 2
        if not col.min() <= v <= col.max():
            inside = False
    best = d.min()
    return [int(i) for i in np.where(d <= best * (1 + 1e-9) + 1e-18)[0]], inside, True


def on_edge(grid, p):
    m = measure(p)
    return any(abs(v - b) < 1e-9 * max(abs(b), 1) for k, v in zip(("p02", "u_r_50", "u_c2080"), m) for b in (np.min(grid[k]), np.max(grid[k])))


def state(p):
    return (p.r_list.tobytes(), p.area_list.tobytes(), p.flux_list.tobytes(), float(p.epsilon), p.eta, p.epsilon_fraction, p.total_flux_fraction,
            float(p.r_petrosian), float(p.r_total_flux), float(p.r_50))


def judge(M, pc, p, grid=None):
    """All three answers of one correction object for one profile."""
    grid = pc.grid if grid is None else grid
    rows, inside, measurable = expect(grid, p)
    before, gb = state(p), [c.tobytes() for c in pc.grid.columns.values()]
    supported = p.eta in ETA and p.epsilon_fraction in FRAC
    wit = dict(measured=measure(p), eta=p.eta, fraction=p.epsilon_fraction, epsilon=p.epsilon, enforce=pc.enforce_range, inside=inside)
    if measurable and pc.enforce_range and on_edge(grid, p):
        return
    if not measurable:
        M.event("unmeasurable")
        for f in (pc.estimate_n, pc.estimate_epsilon, pc.correct):
            M.rejects("unmeasurable", f, p, what="correction of a profile that could not be measured")
        return
    if not inside:
        M.event("out_of_range")
    if pc.enforce_range and not inside:
        for f in (pc.estimate_n, pc.estimate_epsilon, pc.correct):
            M.rejects("range", f, p, what="correction outside the grid with range enforcement")
        return
    M.event("nearest_judged")
    n = pc.estimate_n(p)
    M.check(any(abs(n - grid["n"][i]) < 1e-12 for i in rows), "n", "estimate_n is not the n of the nearest row", got=n, want=[grid["n"][i] for i in rows], **wit)
    if not supported:
        M.rejects("unsupported", pc.estimate_epsilon, p, what="eta %s, epsilon_fraction %s" % (p.eta, p.epsilon_fraction))
        M.rejects("unsupported", pc.correct, p, what="eta %s, epsilon_fraction %s" % (p.eta, p.epsilon_fraction))
        return
    want = [grid[FRAC[p.epsilon_fraction]][i] / grid[ETA[p.eta]][i] for i in rows]
    e = pc.estimate_epsilon(p)
    M.check(any(abs(e - w) <= 1e-12 * abs(w) for w in want), "epsilon", "epsilon is not corrected radius / Petrosian radius of the nearest row", got=e, want=want, **wit)
    c = pc.correct(p)
    M.event("corrected")
    M.check(c is not p, "new_object", "correct returned its input")
    M.check(any(abs(c.epsilon - w) <= 1e-12 * abs(w) for w in want), "epsilon", "corrected object has another epsilon", got=c.epsilon, want=want, **wit)
    a, b = list(state(c)), list(before)
    for k in (0, 1, 2, 4, 5, 6):
        M.check(a[k] == b[k], "only_epsilon", "correct changed more than epsilon", part=k)
    f = pf.Petrosian(p.r_list, p.area_list, p.flux_list, area_err=p.area_err, flux_err=p.flux_err, epsilon=float(c.epsilon), eta=p.eta,
                     epsilon_fraction=p.epsilon_fraction, total_flux_fraction=p.total_flux_fraction)
    for k in ("r_petrosian", "r_total_flux", "r_50", "total_flux", "c2080", "r_epsilon"):
        M.close(getattr(c, k), getattr(f, k), "fresh", rtol=1e-9, msg="%s of the corrected object is not that of a new one with its epsilon" % k)
    M.check(state(p) == before, "original", "original profile changed")
    M.check([q.tobytes() for q in pc.grid.columns.values()] == gb, "grid", "grid changed")
    # changing one later leaves the other alone
    c.eta = .35
    c.epsilon = 1.1
    M.check(state(p) == before, "independent", "editing the corrected object changed the original")
    M.check(abs(pc.estimate_epsilon(p) - e) <= 1e-12 * abs(e), "repeat", "second estimate differs")


def settings(rng):
    return dict(eta=float(rng.choice([.2, .2, .3, .4, .5, .25])), epsilon_fraction=float(rng.choice([.99, .99, .8, .5, .9])),
                epsilon=2.0 if rng.random() < .7 else float(rng.uniform(1, 3)))


def some_profile(rng, grid, spread=1.0):
    n = float(rng.uniform(max(.5, grid["n"].min() - .2 * spread), grid["n"].max() + .2 * spread))
    re = float(rng.uniform(max(3, grid["r_eff"].min() - spread), grid["r_eff"].max() + spread))
    return n, re


def untouched(M, pc, g, ref):
    """The caller's table and the grid in use keep the rows as given."""
    M.event("tables_compared")
    for t, w in ((g, "the table given"), (pc.grid, "the grid in use")):
        M.check(t.colnames == ref.colnames and len(t) == len(ref) and all(np.array_equal(np.asarray(t[k]), np.asarray(ref[k])) for k in ref.colnames), "grid", w + " differs from the rows supplied")


def run_rows(M, rng, case):
    g = random_grid(rng)
    ref = g.copy()
    pc = pf.PetrosianCorrection(g, enforce_range=bool(rng.random() < .6)) if rng.random() < .7 else pf.PetrosianCorrection(g)
    untouched(M, pc, g, ref)
    for _ in range(4):
        n, re = some_profile(rng, g)
        kw = settings(rng)
        p = profile(n, re, **kw)
        judge(M, pc, p, ref)
        rows, inside, ok = expect(ref, p)
        M.nontrivial(kw["eta"], kw["epsilon_fraction"], kw["epsilon"] == 2, inside, ok, pc.enforce_range)
    untouched(M, pc, g, ref)
    k = str(rng.choice(["n", "r_eff", "p02"]))
    M.check(np.array_equal(pc.unique_grid_values(k), np.unique(np.asarray(ref[k]))), "unique", "unique_grid_values")
    v = ref[k][int(rng.integers(len(ref)))]
    sel = pc.filter_grid(k, v)
    M.check(len(sel) == int((np.asarray(ref[k]) == v).sum()) and np.all(np.asarray(sel[k]) == v), "filter", "filter_grid returns other rows")
    M.check(list(pc.grid_keys) == ref.colnames, "keys", "grid_keys")
    M.sample(rows=len(ref), n=list(np.unique(ref["n"])), r_eff=list(np.unique(ref["r_eff"])))


def run_own(M, rng, case):
    """A profile that is a row of the grid gets that row; also when the grid is rescaled in one quantity."""
    g = random_grid(rng)
    pc = pf.PetrosianCorrection(g)
    for i in rng.permutation(len(g))[:5]:
        n, re = float(g["n"][i]), float(g["r_eff"][i])
        p = profile(n, re)
        M.event("own_rows")
        M.check(abs(pc.estimate_n(p) - n) < 1e-12, "own_row", "a grid profile is not assigned its own row", got=pc.estimate_n(p), want=n)
        M.close(pc.estimate_epsilon(p), g["c_r_99"][i] / g["p02"][i], "own_epsilon", rtol=1e-12, msg="epsilon of a grid profile")
        c = pc.correct(p)
        M.check(abs(c.r_total_flux - refs.sersic_r(.99, re, n)) < .02 * c.r_total_flux + .1, "own_radius", "corrected 99% radius of a grid profile", got=c.r_total_flux, want=refs.sersic_r(.99, re, n))
    M.nontrivial("own", len(g))


def run_shipped(M, rng, case):
    d = os.path.join(core.REPO, "docs", "data")
    names = [f for f in ("no_psf_corr.ecsv", "f105w_psf_corr.ecsv") if os.path.exists(os.path.join(d, f))]
    if not names:
        return
    path = os.path.join(d, names[case["i"] % len(names)])
    pc = pf.PetrosianCorrection.read(path, file_format=None if case["i"] % 3 else "ascii.ecsv")
    ref = Table.read(path)
    M.check(len(pc.grid) == len(ref) and pc.grid.colnames == ref.colnames and pc.enforce_range, "read", "read grid differs from the file")
    pc.enforce_range = bool(rng.random() < .7)
    for _ in range(4):
        n, re = float(rng.uniform(.5, 4)), float(rng.uniform(5, 40))
        if "c_r_50" in ref.colnames:
            judge(M, pc, profile(n, re, rmax=None, **settings(rng)), ref)
    M.nontrivial("shipped", names[case["i"] % len(names)], pc.enforce_range)


def run_files(M, rng, case):
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        g = random_grid(rng)
        pc = pf.PetrosianCorrection(g)
        path = os.path.join(d, str(rng.choice(["g.ecsv", "g.fits"])))
        pc.write(path)
        b = pf.PetrosianCorrection.read(path)
        path2 = os.path.join(d, "g2.dat")
        pc.write(path2, file_format="ascii.ecsv")
        c = pf.PetrosianCorrection.read(path2, file_format="ascii.ecsv")
        for _ in range(4):
            p = profile(*some_profile(rng, g), eta=float(rng.choice(list(ETA))), epsilon_fraction=float(rng.choice(list(FRAC))))
            got = []
            for q in (pc, b, c):
                try:
                    got.append((float(q.estimate_n(p)), float(q.estimate_epsilon(p))))
                except Exception as e:
                    got.append("refused")
            M.check(got[0] == got[1] == got[2], "roundtrip", "corrections change by writing and reading the grid", got=got)
        M.rejects("missing", pf.PetrosianCorrection.read, os.path.join(d, "nope.ecsv"), what="missing grid file")
        M.event("files")
        M.nontrivial("files", os.path.basename(path), len(g))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_refuse(M, rng, case):
    g = random_grid(rng)
    for bad in ("grid.ecsv", {"n": [1]}, None, [1, 2], np.zeros(3)):
        M.rejects("grid_type", pf.PetrosianCorrection, bad, what="grid of type %s" % type(bad).__name__)
    for enforce in (True, False):
        pc = pf.PetrosianCorrection(g, enforce_range=enforce)
        k = int(rng.integers(4))
        r = np.arange(1., 25)
        if k == 0:        # never falls below eta
            p = pf.Petrosian(r, np.pi * r ** 2, 3 * np.pi * r ** 2)
        elif k == 1:      # ends before r_epsilon
            p = profile(float(g["n"][0]), float(g["r_eff"][0]), rmax=float(g["p02"][0]) * 1.15 + 3)
        elif k == 2:      # noise
            p = pf.Petrosian(r, np.pi * r ** 2, np.cumsum(np.abs(rng.normal(0, 1, r.size))) * r)
        else:             # huge
            p = profile(1., float(g["r_eff"].max()) * 4)
        judge(M, pc, p, g)
        M.nontrivial("refuse", k, enforce, tuple(np.isnan(measure(p))))

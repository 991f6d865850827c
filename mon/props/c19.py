"""C19 correction grids: rows, order, process counts and files."""
import os, io, contextlib, tempfile, shutil
from unittest import mock
import numpy as np
import petrofit as pf
from astropy.table import Table
from .. import refs, gens, core

RULE = ("Small grids over n lists and r_eff lists (order, duplicates, ints, floats, tuples, arrays, three and more), with and without PSF, "
        "oversampling as int or window, PSF oversampling; rows are recomputed from the curve of growth the monitor observes and from "
        "Sersic theory, images from the definition; serial against 2-4 processes; files: formats, existing, overwrite, missing "
        "directory, directory in the way, injected write errors. Non-trivial: distinct (n, r_eff class, PSF, oversampling, lists' shape, fault).")
PLAN = {"quick": {"rows": 40, "cpu": 4, "files": 14, "plot": 1, "big": 1},
        "thorough": {"rows": 260, "cpu": 40, "files": 160, "plot": 6, "big": 24}}
NEED = ["rows_judged", "cpu_pairs", "files_read", "write_faults", "kept_files", "recoveries_judged"]
ASSUME = ["Measured columns are recomputed with Petrosian itself (judged by C01-C05) from the observed curve of growth.",
          "ProgressBar.map and Table I/O of astropy are trusted to move rows and bytes."]
NAMES = ["n", "r_eff", "sersic_r_20", "sersic_r_80", "sersic_r_99", "sersic_L_inf", "p02", "p03", "p04", "p05", "p0502", "p0302", "u_epsilon",
         "u_epsilon_50", "u_epsilon_80", "u_r_50", "u_r_99", "u_r_20", "u_r_80", "u_c2080", "u_c5090", "c_epsilon", "c_epsilon_50", "c_epsilon_80",
         "c_r_50", "c_r_99", "c_r_20", "c_r_80", "c_c2080", "c_c5090"]


def hooks(M):
    M.curves = []
    M.asked = None

    def on_phot(ev):
        if ev.exc is None:
            M.curves.append((np.array(ev.args["image"], float), tuple(float(v) for v in ev.args["position"]), np.array(ev.args["r_list"], float),
                             np.array(ev.result[0], float), np.array(ev.result[1], float)))
            if M.asked and len(M.curves) >= 6 * M.asked + 12:       # it may not return for a long time: stop here
                M.check(False, "order", "%d galaxies measured for a grid of %d rows" % (len(M.curves), M.asked))
                raise core.CaseTimeout()
    return {"radial_photometry": on_phot}


def generate(M, name, *a, **k):
    M.curves.clear()
    M.asked = len(k["r_eff_list"]) * len(k["n_list"])
    with contextlib.redirect_stdout(io.StringIO()) as out:
        t = pf.generate_petrosian_sersic_correction(name, *a, **k)
    return t, out.getvalue()


def judge_structure(M, t, n_list, r_list):
    if not M.check(isinstance(t, Table) and list(t.colnames) == NAMES, "columns", "columns of the grid", got=getattr(t, "colnames", None)):
        return False
    want = [(round(float(n), 6), float(r)) for n in n_list for r in r_list]
    got = [(float(a), float(b)) for a, b in zip(t["n"], t["r_eff"])]
    return M.check(got == want, "order", "not one row per (n, r_eff), n outermost, in the given order", got=got, want=want)


def judge_row(M, row, curve, psf, oversample, psf_oversample, image=True):
    n, re = float(row["n"]), float(row["r_eff"])
    amp = 100 / np.exp(refs.bn(n))
    wit = dict(n=n, r_eff=re, psf=np.shape(psf), oversample=oversample, psf_oversample=psf_oversample)
    L = float(refs.sersic_L(np.inf, amp, re, n))
    g = lambda k: float(row[k])
    M.event("rows_judged")
    for k, f in (("sersic_r_20", .2), ("sersic_r_80", .8), ("sersic_r_99", 1.)):
        M.close(g(k), refs.sersic_r(.99 * f, re, n), "theory", rtol=1e-8, msg=k + " is not the analytic radius", **wit)
    M.close(g("sersic_L_inf"), L, "theory", rtol=1e-9, msg="total luminosity", **wit)
    rp = g("p02")
    M.close(g("p0502"), 5 * np.log10(rp / g("p05")), "ratios", rtol=1e-9, atol=1e-12, msg="p0502", **wit)
    M.close(g("p0302"), 5 * np.log10(rp / g("p03")), "ratios", rtol=1e-9, atol=1e-12, msg="p0302", **wit)
    for k in ("u", "c"):
        M.close(g(k + "_c2080"), 5 * np.log10(g(k + "_r_80") / g(k + "_r_20")), "ratios", rtol=1e-9, atol=1e-12, msg=k + "_c2080", **wit)
        M.close(g(k + "_epsilon_50"), g(k + "_r_50") / rp, "ratios", rtol=1e-9, msg=k + "_epsilon_50", **wit)
    M.close(g("u_epsilon_80"), g("u_r_80") / rp, "ratios", rtol=1e-9, msg="u_epsilon_80", **wit)
    M.check(g("u_epsilon") == 2, "u_epsilon", "uncorrected epsilon is not the default", **wit)
    if psf is None and (isinstance(oversample, (tuple, list)) and oversample[2] >= 8 and oversample[3] >= 8 or n < 1.3):
        # true radii, to the sampling of the curve of growth (coarsely sampled cusps are left out)
        M.event("recoveries_judged")
        tol = lambda r: .02 * r + .6
        M.check(abs(g("c_r_50") - re) <= tol(re), "recover", "corrected half-light radius is not the true one", got=g("c_r_50"), want=re, **wit)
        t99 = g("sersic_r_99")
        far = .08 if t99 > 190 else .03                       # radii are 100 pixels apart beyond 200
        M.check(abs(g("c_r_99") - t99) <= far * t99 + 1.5, "recover", "corrected 99% radius is not the true one", got=g("c_r_99"), want=t99, **wit)
        M.check(abs(g("c_epsilon") - t99 / rp) <= far * t99 / rp + 1.5 / rp, "recover", "corrected epsilon", got=g("c_epsilon"), want=t99 / rp, **wit)
        for k, eta in (("p02", .2), ("p03", .3), ("p04", .4), ("p05", .5)):
            w = refs.sersic_rp(eta, re, n)
            # (annuli of two pixels, counted at their outer radius, measure too far out)
            M.check(-.03 * w - .9 <= g(k) - w <= .03 * w + 5, "petrosian", k + " is not the Petrosian radius of the galaxy", got=g(k), want=w, **wit)
    if curve is None:
        return
    img, pos, rl, F, A = curve
    N = img.shape[0]
    if image and img.shape[0] == img.shape[1] and N <= 420:
        fn = lambda x, y: refs.sersic2d(x, y, amp, re, n, pos[0], pos[1])
        ov = oversample
        if isinstance(ov, (tuple, list)):
            ov = tuple({"x_0": pos[0], "y_0": pos[1]}.get(v, v) if isinstance(v, str) else v for v in ov)
        want = refs.form_square(fn, N, 0, 0, psf=psf, oversample=ov, psf_oversample=psf_oversample)
        if want is not None:
            M.event("images_judged")
            M.close(img, want, "galaxy", rtol=1e-6, atol=1e-9 * want.max(), msg="simulated galaxy is not the Sersic model (PSF, oversampling)", **wit)
    ok = np.isfinite(F).all() and np.all(np.diff(rl) > 0)
    if not ok:
        return
    p = pf.Petrosian(rl, A, F)
    want = {"p02": p.r_petrosian, "u_r_50": p.fraction_flux_to_r(.5), "u_r_20": p.fraction_flux_to_r(.2), "u_r_80": p.fraction_flux_to_r(.8),
            "u_r_99": p.r_total_flux, "u_c2080": p.c2080, "u_c5090": p.c5090}
    for k, e in (("p03", .3), ("p04", .4), ("p05", .5)):
        want[k] = pf.Petrosian(rl, A, F, eta=e).r_petrosian
    for k, v in want.items():
        M.close(g(k), v, "measured", rtol=1e-8, msg=k + " is not what Petrosian measures with default settings", **wit)
    eps = float(np.interp(.99 * L, F, rl)) / rp
    M.close(g("c_epsilon"), eps, "c_epsilon", rtol=1e-6, msg="corrected epsilon is not r(99% of the light) / r_petrosian", **wit)
    M.close(g("c_epsilon_80"), float(np.interp(.8 * .99 * L, F, rl)) / rp, "c_epsilon_80", rtol=1e-6, msg="c_epsilon_80", **wit)
    c = pf.Petrosian(rl, A, F, epsilon=g("c_epsilon"))
    want = {"c_r_50": c.fraction_flux_to_r(.5), "c_r_20": c.fraction_flux_to_r(.2), "c_r_80": c.fraction_flux_to_r(.8), "c_r_99": c.r_total_flux,
            "c_c2080": c.c2080, "c_c5090": c.c5090}
    for k, v in want.items():
        M.close(g(k), v, "corrected", rtol=1e-8, msg=k + " is not what Petrosian measures with the corrected epsilon", **wit)
    M.event("measured_rows")


def judge_grid(M, t, n_list, r_list, psf=None, oversample=("x_0", "y_0", 10, 50), psf_oversample=None, image=True):
    if not judge_structure(M, t, n_list, r_list):
        return
    curves = M.curves if len(M.curves) == len(t) else [None] * len(t)
    for row, c in zip(t, list(curves)):
        judge_row(M, row, c, psf, oversample, psf_oversample, image)


def lists(rng, k=2):
    n = [float(np.round(rng.uniform(.6, 2.4), 3)) for _ in range(int(rng.integers(1, k + 1)))]
    r = [float(np.round(rng.uniform(6, 14), 2)) for _ in range(int(rng.integers(1, k + 2)))]
    if rng.random() < .3:
        r = [int(v) for v in r]
    if rng.random() < .2:
        n = [int(v) for v in np.ceil(n)]
    if rng.random() < .25:
        r = r + [r[0]]
    if rng.random() < .4:
        r = sorted(r, reverse=True)
    form = int(rng.integers(3))
    if form == 1:
        return np.array(n), np.array(r)
    if form == 2:
        return tuple(n), tuple(r)
    return n, r


def options(rng):
    kw = {}
    if rng.random() < .5:
        kw["psf"] = gens.psf(rng, n=int(rng.integers(3, 8)))
    k = int(rng.integers(4)) if "psf" not in kw or rng.random() < .6 else 2
    if k == 0:
        kw["oversample"] = int(rng.integers(1, 4))
    elif k == 1:
        kw["oversample"] = ("x_0", "y_0", int(rng.integers(4, 12)), 4 * int(rng.integers(1, 4)))
    elif k == 2 and "psf" in kw:
        kw["oversample"], kw["psf_oversample"] = 4 if rng.random() < .5 else ("x_0", "y_0", 8, 8), 2
    return kw


def run_rows(M, rng, case):
    n_list, r_list = lists(rng)
    kw = options(rng)
    keep = (list(n_list), list(r_list), None if "psf" not in kw else kw["psf"].copy())
    t, out = generate(M, None, r_eff_list=r_list, n_list=n_list, **kw)
    judge_grid(M, t, keep[0], keep[1], **kw)
    M.check(list(n_list) == keep[0] and list(r_list) == keep[1] and (keep[2] is None or np.array_equal(keep[2], kw["psf"])), "inputs", "lists or PSF modified")
    M.nontrivial(len(n_list), len(r_list), "psf" in kw, repr(kw.get("oversample"))[:12], kw.get("psf_oversample"))
    M.sample(n=keep[0], r_eff=keep[1], options=list(kw), first_row=[float(v) for v in t[0]][:8])


def run_big(M, rng, case):
    """Cases on the other branches of the radius rule: compact low-n, extended high-n."""
    n, r = [(.5, 5.), (.8, 6), (2., 9.), (3., 8.), (4., 6.), (1.99, 20.), (2.5, 22.), (.6, 7.)][case["i"] % 8]
    if case["i"] >= 8:
        n, r = float(np.round(np.clip(n + rng.uniform(-.1, .3), .5, 4.4), 2)), float(r * rng.uniform(.95, 1.1))
    t, _ = generate(M, None, r_eff_list=[r], n_list=[n])
    judge_grid(M, t, [n], [r])
    M.nontrivial("big", n, round(r))


def same(a, b):
    return a.colnames == b.colnames and len(a) == len(b) and all(np.allclose(np.asarray(a[c], float), np.asarray(b[c], float), rtol=1e-12, atol=0, equal_nan=True) for c in a.colnames)


def run_cpu(M, rng, case):
    n_list = [1.0, 1.6, 1.3][: int(rng.integers(2, 4))]
    r_list = [float(v) for v in rng.permutation([6., 9., 7.5, 12.])[: int(rng.integers(2, 5))]]
    kw = dict(oversample=2, psf=gens.psf(rng, n=5) if rng.random() < .5 else None)
    a, _ = generate(M, None, r_eff_list=r_list, n_list=n_list, **kw)
    judge_grid(M, a, n_list, r_list, **kw)
    for cpu in ([2, 3] if case["i"] % 2 else [int(rng.integers(2, 5)), 1]):
        b, _ = generate(M, None, r_eff_list=r_list, n_list=n_list, n_cpu=cpu, **kw)
        M.event("cpu_pairs")
        M.check(same(a, b), "n_cpu", "grid with n_cpu=%s differs from the serial one" % cpu, serial=[(x, y) for x, y in zip(a["n"], a["r_eff"])],
                parallel=[(x, y) for x, y in zip(b["n"], b["r_eff"])], p02=(np.array(a["p02"]), np.array(b["p02"])))
    M.rejects("plot_cpu", pf.generate_petrosian_sersic_correction, None, r_eff_list=r_list, n_list=n_list, n_cpu=2, plot=True, what="plot with several processes")
    M.nontrivial("cpu", len(n_list), len(r_list), kw["psf"] is None)


def run_files(M, rng, case):
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        mode = ["new", "format", "exists", "overwrite", "nodir", "isdir", "error", "badformat"][case["i"] % 8]
        kw = dict(r_eff_list=[float(np.round(rng.uniform(7, 10), 3))], n_list=[1.2, 1.0], oversample=1)
        ext = str(rng.choice(["ecsv", "ecsv", "fits"]))
        path = os.path.join(d, "grid." + ext)
        ref, _ = generate(M, None, **kw)
        judge_structure(M, ref, kw["n_list"], kw["r_eff_list"])
        old = b"something precious"
        if mode in ("exists", "overwrite", "error"):
            with open(path, "wb") as f:
                f.write(old)
        if mode == "new":
            t, out = generate(M, path, **kw)
        elif mode == "format":
            path = os.path.join(d, "grid.dat")
            t, out = generate(M, path, out_format="ascii.ecsv", **kw)
        elif mode == "exists":
            t, out = generate(M, path, **kw)
        elif mode == "overwrite":
            t, out = generate(M, path, overwrite=True, **kw)
        elif mode == "nodir":
            t, out = generate(M, os.path.join(d, "no", "such", "grid.ecsv"), **kw)
        elif mode == "isdir":
            os.mkdir(os.path.join(d, "dir.ecsv"))
            t, out = generate(M, os.path.join(d, "dir.ecsv"), overwrite=bool(rng.random() < .5), **kw)
        elif mode == "badformat":
            t, out = generate(M, path, out_format="no_such_format", **kw)
        else:
            kinds = [OSError(28, "No space left on device"), PermissionError(13, "denied"), KeyError("x"), RuntimeError("y"), ValueError("z"), TypeError("t"), FileExistsError(17, "exists"), ImportError("no yaml")]

            for exc in [kinds[j] for j in rng.permutation(len(kinds))[:3]] + kinds[:2]:
                def boom(*a, **k):
                    raise exc
                try:
                    with mock.patch.object(Table, "write", boom):
                        t, out = generate(M, path, overwrite=True, **kw)
                except Exception as e:
                    M.violate("returned", "a failed write raises %r: the computed grid is lost" % e, error=repr(exc))
                    continue
                M.check(same(ref, t), "returned", "returned table lost or changed by a failed write", error=repr(exc))
        M.check(same(ref, t), "returned", "returned table depends on the file (%s)" % mode)
        if mode in ("new", "format", "overwrite"):
            if M.check(os.path.exists(path), "saved", "no file written", mode=mode):
                b = Table.read(path, format="ascii.ecsv" if mode == "format" else None)
                M.check(same(ref, b), "saved", "the saved table differs from the returned one", mode=mode)
                M.event("files_read")
                c = pf.PetrosianCorrection.read(path, file_format="ascii.ecsv" if mode == "format" else None)
                M.check(same(ref, c.grid), "saved", "the grid read by PetrosianCorrection differs", mode=mode)
        if mode == "exists":
            M.check(open(path, "rb").read() == old, "kept", "existing file replaced although overwrite is not set")
            M.event("kept_files")
        if mode in ("exists", "nodir", "isdir", "error", "badformat"):
            M.event("write_faults")
        left = sorted(os.listdir(d))
        M.check(len(left) <= 1, "stray", "other files left behind", left=left)
        M.nontrivial("files", mode, ext)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_plot(M, rng, case):
    kw = dict(r_eff_list=[8.], n_list=[float(np.round(rng.uniform(1, 1.5), 2))], oversample=1)
    a, _ = generate(M, None, **kw)
    b, _ = generate(M, None, plot=True, **kw)
    M.check(same(a, b), "plot", "plotting changed the grid")
    M.nontrivial("plot", case["i"])

"""C04 Petrosian object histories: every read equals that of a freshly built object."""
import copy, pickle
import numpy as np
import petrofit as pf
from matplotlib import pyplot as plt
from .. import refs, gens

RULE = ("Random histories (8-25 steps) of set / read / copy / deepcopy / plot / caller-side mutation / correction over up to "
        "four related objects; after each step a random object and quantity is compared with a freshly built object having the "
        "same data and settings (model state kept outside). Non-trivial: distinct (operation bigram, attribute read).")
PLAN = {"quick": {"history": 520, "alias": 200}, "thorough": {"history": 5000, "alias": 1500}}
NEED = ["reads", "sets", "copies", "plots", "caller_mutations"]

ATTRS = ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"]
READS = {k: (lambda p, k=k: getattr(p, k)) for k in
         ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range", "r_total_flux", "r_total_flux_err", "total_flux",
          "total_flux_err", "half_flux", "half_flux_err", "r_half_light", "r_half_light_err", "r_50", "r_50_err", "c2080", "c5090",
          "petrosian_list", "petrosian_err", "r_list", "area_list", "flux_list", "flux_err", "area_err",
          "eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"]}
READS["fraction"] = lambda p: p.fraction_flux_to_r(.35)
READS["fraction_err"] = lambda p: p.fraction_flux_to_r_err(.7)
READS["ci"] = lambda p: p.concentration_index(.3, .6)


def value(rng, attr):
    return {"eta": lambda: float(rng.choice([.2, .3, .4, .5, rng.uniform(.05, .8)])),
            "epsilon": lambda: float(rng.choice([2, 1, 1.5, rng.uniform(.3, 4)])),
            "epsilon_fraction": lambda: float(rng.choice([.99, .5, .8, rng.uniform(.4, 1), rng.uniform(1, 1.1)])),
            "total_flux_fraction": lambda: float(rng.choice([.99, .9, rng.uniform(.3, 1), rng.uniform(1, 1.1)])),
            "interp_kind": lambda: gens.KINDS[rng.integers(len(gens.KINDS))],
            "interp_num": lambda: int(rng.choice([5000, 300, 40]))}[attr]()


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b if (a is None or b is None) else a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=0, equal_nan=True)


def fresh(data, st):
    return pf.Petrosian(*[None if v is None else v.copy() for v in data], **st)


def run_history(M, rng, case):
    objs = []

    def new():
        r, area, flux, _ = gens.curve(rng)
        ae, fe = gens.errors(rng, area, flux)
        caller = [None if v is None else np.array(v) for v in (r, area, flux, ae, fe)]
        st = gens.settings(rng)
        if rng.random() < .5:
            st["interp_kind"], st["interp_num"] = "cubic", 5000
        p = pf.Petrosian(caller[0], caller[1], caller[2], area_err=caller[3], flux_err=caller[4], **st)
        objs.append({"p": p, "data": [None if v is None else v.copy() for v in caller], "st": dict(st), "caller": caller})
    new()
    last = "new"
    for step in range(int(rng.integers(8, 26))):
        o = objs[rng.integers(len(objs))]
        op = rng.choice(["set", "set", "set", "read", "copy", "deepcopy", "plot", "mutate", "new", "correct", "pickle"])
        if op == "set":
            at = ATTRS[rng.integers(len(ATTRS))]
            v = value(rng, at)
            setattr(o["p"], at, v)
            o["st"][at] = v
            M.event("sets")
        elif op == "read":
            READS[list(READS)[rng.integers(len(READS))]](o["p"])
        elif op in ("copy", "deepcopy", "pickle") and len(objs) < 4:
            q = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda p: pickle.loads(pickle.dumps(p))}[op](o["p"])
            objs.append({"p": q, "data": o["data"], "st": dict(o["st"]), "caller": None})
            M.event("copies")
        elif op == "plot" and rng.random() < .5:
            fig = plt.figure()
            f = [o["p"].plot, o["p"].plot_cog, o["p"].imshow][rng.integers(3)]
            f()
            plt.close(fig)
            M.event("plots")
        elif op == "mutate" and o["caller"] is not None:
            k = rng.integers(5)
            if o["caller"][k] is not None:
                o["caller"][k][rng.integers(len(o["caller"][k])):] *= 3
                M.event("caller_mutations")
        elif op == "new" and len(objs) < 3:
            new()
        elif op == "correct" and len(objs) < 4:
            # a correction returns a copy that differs in epsilon only
            g = correction()
            try:
                q = g.correct(o["p"])
            except Exception:
                q = None
            if q is not None:
                M.event("corrections")
                objs.append({"p": q, "data": o["data"], "st": dict(o["st"], epsilon=float(q.epsilon)), "caller": None})
        # judge: the settings read back, and one random quantity, on every live object
        for w in objs:
            for at in ATTRS:
                if at in w["st"]:
                    M.check(same(getattr(w["p"], at), w["st"][at]), "settings", "%s is not the value that was set" % at, got=getattr(w["p"], at), want=w["st"][at], op=op)
            names = list(READS)
            k = names[rng.integers(len(names))]
            got = READS[k](w["p"])
            want = READS[k](fresh(w["data"], w["st"]))
            M.event("reads")
            M.check(same(got, want), "equals_fresh", "after a history, %s differs from a fresh object" % k,
                    got=got, want=want, settings=w["st"], step=step, op=op, after=last)
            M.check(same(READS[k](w["p"]), got), "repeatable", "reading %s twice differs" % k)
        M.nontrivial(last, str(op), k)
        last = str(op)
    M.sample(objects=len(objs), last=last)


_corr = {}


def correction():
    if "c" not in _corr:
        from astropy.table import Table
        import os
        from ..core import REPO
        _corr["c"] = pf.PetrosianCorrection(Table.read(os.path.join(REPO, "docs", "data", "no_psf_corr.ecsv")), enforce_range=False)
    return _corr["c"]


def run_alias(M, rng, case):
    from astropy.wcs import WCS
    r, area, flux, _ = gens.curve(rng)
    ae, fe = gens.errors(rng, area, flux)
    p = pf.Petrosian(r, area, flux, area_err=ae, flux_err=fe, **gens.settings(rng))
    w = WCS(naxis=2)
    sc = rng.uniform(.01, 3) / 3600
    w.wcs.cdelt = [-sc, sc]
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.cunit = ["deg", "deg"]
    for a, b, n in ((p.r_50, p.r_half_light, "r_50"), (p.r_50_err, p.r_half_light_err, "r_50_err"),
                    (p.c2080, p.concentration_index(.2, .8)[2], "c2080"), (p.c5090, p.concentration_index(.5, .9)[2], "c5090"),
                    (p.concentration_index()[2], p.c2080, "ci default"),
                    (p.fraction_flux_to_r(.5), p.r_half_light, "fraction .5"), (p.fraction_flux_to_r(), p.r_50, "fraction default"),
                    (p.fraction_flux_to_r(p.total_flux_fraction), p.r_total_flux, "fraction total"),
                    (p.fraction_flux_to_r_err(.5), p.r_half_light_err, "fraction err"),
                    (p.r_half_light_arcsec(w), p.r_half_light * sc * 3600, "half arcsec"),
                    (p.r_total_flux_arcsec(w), p.r_total_flux * sc * 3600, "total arcsec")):
        M.close(a, b, "alias", rtol=1e-9, msg=n)
        M.nontrivial(n, np.isnan(a))
    M.event("reads")

"""C16 parameters and constraints of wrapped models, and independence of everything derived from them."""
import copy, pickle
import numpy as np
import petrofit as pf
from petrofit.modeling.models import GenSersic2D
from astropy.modeling import models
from .. import refs, gens
from . import c14

RULE = ("Plain and compound (2-3 parts) sub-models with random values, fixed/bounds/tied set at construction, by attribute or by dictionary; "
        "wrappers, siblings of one sub-model, extracted models, re-wrapped models and copies form a population in which one member at a "
        "time is edited; a shadow of every member is compared after every step. Non-trivial: distinct (sub-model kind, edited role, edit).")
PLAN = {"quick": {"mirror": 750, "edits": 450}, "thorough": {"mirror": 5000, "edits": 4000}}
NEED = ["mirrored", "edits", "members_compared", "rewrapped", "tied_carried", "compound"]
ASSUME = ["Copies are made with model.copy(), deepcopy or pickle; copy.copy of an astropy model shares its parameters by design of astropy.",
          "Constraint values are replaced, not edited in place."]


def tie_a(m):
    return 2 * m.parameters[0]


def tie_b(m):
    return m.parameters[1] + 1


def base(rng):
    p = lambda: dict(amplitude=rng.uniform(1, 9), r_eff=rng.uniform(2, 6), n=rng.uniform(.6, 4), x_0=rng.uniform(2, 9), y_0=rng.uniform(2, 9), ellip=rng.uniform(0, .7), theta=gens.angle(rng))
    k = int(rng.integers(5))
    if k == 0:
        return "sersic", models.Sersic2D(**p())
    if k == 1:
        return "gen", GenSersic2D(c_0=rng.uniform(0, 1), **p())
    if k == 2:
        return "gauss", models.Gaussian2D(rng.uniform(1, 5), rng.uniform(1, 8), rng.uniform(1, 8), rng.uniform(1, 3), rng.uniform(1, 3))
    if k == 3:
        return "compound2", models.Sersic2D(**p()) + models.Sersic2D(**p())
    return "compound3", models.Sersic2D(**p()) + models.Gaussian2D(rng.uniform(1, 5), 3, 4, 1, 2) + models.Const2D(rng.normal())


def random_bounds(rng, v):
    """Two-sided, one-sided, touching zero, lifted."""
    lo, hi = float(min(0, v) - rng.uniform(.1, 9)), float(max(0, v) + rng.uniform(.1, 9))
    return [(lo, hi), (v - 1, v + 1), (None, hi), (lo, None), (0.0, hi) if v >= 0 else (lo, 0.0), (0, None) if v >= 0 else (None, 0),
            (None, None)][int(rng.integers(7))]


def constrain(rng, m):
    """Random constraints, through the ways astropy offers."""
    for n in m.param_names:
        k = int(rng.integers(6))
        if k == 0:
            if rng.random() < .5:
                m.fixed[n] = True
            else:
                getattr(m, n).fixed = True
        elif k == 1:
            v = float(getattr(m, n).value)
            b = random_bounds(rng, v)
            if rng.random() < .5:
                m.bounds[n] = b
            else:
                getattr(m, n).bounds = b
        elif k == 2 and n != m.param_names[0] and n != m.param_names[1]:
            m.tied[n] = [tie_a, tie_b][int(rng.integers(2))]


def state(m):
    g = lambda d, n: tuple(d[n]) if isinstance(d[n], (list, tuple)) else d[n]
    return {n: (float(getattr(m, n).value), bool(m.fixed[n]), g(m.bounds, n), m.tied[n],
                bool(getattr(m, n).fixed), tuple(getattr(m, n).bounds), getattr(m, n).tied) for n in m.param_names}


def run_mirror(M, rng, case):
    kind, sub = base(rng)
    constrain(rng, sub)
    want = state(sub)
    psf = gens.psf(rng, n=4) if rng.random() < .6 else None
    kw = dict(psf=psf, oversample=int(rng.integers(1, 3)) if rng.random() < .5 else None)
    w = pf.PSFConvolvedModel2D(sub, **kw)
    names = tuple(sub.param_names) + ("psf_pa",)
    if not M.check(tuple(w.param_names) == names, "names", "parameters are not those of the sub-model in order plus psf_pa", got=w.param_names, want=names):
        return
    M.close(w.parameters, list(sub.parameters) + [0.0], "values", rtol=1e-14, msg="parameter values")
    M.check(w.psf_pa.value == 0 and not w.fixed["psf_pa"] and not w.tied["psf_pa"], "psf_pa", "psf_pa is not a free 0")
    got = state(w)
    for n in sub.param_names:
        M.check(got[n] == want[n], "constraints", "value/fixed/bounds/tied of %s not carried" % n, got=got[n], want=want[n])
        if want[n][3]:
            M.event("tied_carried")
    M.event("mirrored")
    if kind.startswith("compound"):
        M.event("compound")
    # current values come back, and wrapping them again is the same image
    for n in names[:-1]:
        if rng.random() < .5:
            v = float(getattr(w, n).value)
            setattr(w, n, v + rng.uniform(-.2, .2) if n[:2] in ("x_", "y_", "th") else v * rng.uniform(.8, 1.1))
        if rng.random() < .3:
            w.fixed[n] = not w.fixed[n]
        if rng.random() < .3:
            b = random_bounds(rng, float(getattr(w, n).value))
            if rng.random() < .5:
                w.bounds[n] = b
            else:
                getattr(w, n).bounds = b
    m = w.model
    M.check(tuple(m.param_names) == names[:-1], "model_names", "extracted model has other parameters")
    a, b = state(m), state(w)
    for n in names[:-1]:
        M.check(a[n][:3] == b[n][:3] and a[n][4:6] == b[n][4:6], "model_state", "extracted model does not carry value, fixed, bounds of %s" % n, got=a[n], want=b[n])
    M.check(type(m) is type(sub), "model_type", "extracted model is of another type", got=type(m).__name__)
    x, y = c14.coords(13, 11, 0, 0)
    r = pf.PSFConvolvedModel2D(m, **kw)
    im = w(x, y)
    M.close(r(x, y), im, "rewrap", rtol=1e-12, atol=1e-13 * np.abs(im).max(), msg="re-wrapped model renders another image")
    M.event("rewrapped")
    if kw["psf"] is None and kw["oversample"] in (None, 1):
        M.close(m(x, y), im, "extract_image", rtol=1e-10, msg="extracted model renders another image")
    M.check(state(sub) == want, "original", "original model changed", got=state(sub), want=want)
    # constraints given to the wrapper take the place of the sub-model's
    n = str(rng.choice(sub.param_names))
    w2 = pf.PSFConvolvedModel2D(sub, fixed={n: True}, bounds={n: (-1000., 1000.)})
    M.check(w2.fixed[n] is True and tuple(w2.bounds[n]) == (-1000., 1000.), "kwargs", "constraints given to the wrapper are ignored")
    M.check(state(sub) == want, "original", "constraints given to a wrapper changed the original")
    M.nontrivial(kind, sum(v[1] for v in want.values()), sum(v[2] != (None, None) for v in want.values()), sum(bool(v[3]) for v in want.values()))
    M.sample(kind=kind, names=names, fixed=dict(w.fixed))


def run_edits(M, rng, case):
    kind, sub = base(rng)
    constrain(rng, sub)
    psf = gens.psf(rng, n=3)
    x, y = c14.coords(10, 9, 0, 0)
    pop = [("original", sub)]
    pop += [("wrapper", pf.PSFConvolvedModel2D(sub, psf=psf)), ("sibling", pf.PSFConvolvedModel2D(sub))]
    shadow = [state(m) for _, m in pop]
    images = [np.array(m(x, y)) for _, m in pop]
    for step in range(int(rng.integers(10, 25))):
        k = int(rng.integers(1, len(pop)))
        role, m = pop[k]
        op = str(rng.choice(["value", "value", "fixed", "bounds", "tied", "copy", "extract", "rewrap", "all", "evaluate", "oversample"]))
        touched = {k}
        n = str(rng.choice(m.param_names))
        if op == "value":
            setattr(m, n, float(getattr(m, n).value) + .01)
        elif op == "all":
            m.parameters = m.parameters * 1.01
        elif op == "fixed":
            m.fixed[n] = not m.fixed[n]
        elif op == "bounds":
            if rng.random() < .5:
                m.bounds[n] = (float(rng.uniform(-1e3, -1e2)), float(rng.uniform(1e2, 1e3)))
            else:
                getattr(m, n).min = float(rng.uniform(-1e3, -1e2))
        elif op == "tied":
            m.tied[n] = False if m.tied[n] else tie_b
        elif op == "evaluate":
            m(x + .0, y + .0)
            touched = set()
        elif op == "oversample":
            if isinstance(m, pf.PSFConvolvedModel2D):
                m.oversample = int(rng.integers(1, 3))
        elif len(pop) < 9:
            touched = set()
            new = None
            if op == "copy":
                new = [m.copy, lambda: copy.deepcopy(m), lambda: pickle.loads(pickle.dumps(m))][int(rng.integers(3))]()
                if not M.check(state(new) == state(m), "copy_state", "a copy differs from its source", got=state(new), want=state(m)):
                    return
            elif isinstance(m, pf.PSFConvolvedModel2D):
                new = m.model
                if op == "rewrap":
                    new = pf.PSFConvolvedModel2D(new, psf=m.psf)
            if new is not None:
                pop.append((op + " of " + role.split(" ")[0], new))
                shadow.append(state(new))
                images.append(np.array(new(x, y)))
        for j, (r, q) in enumerate(pop):
            if j in touched:
                shadow[j] = state(q)
                images[j] = np.array(q(x, y))
                continue
            now = state(q)
            M.event("members_compared")
            if not M.check(now == shadow[j], "independent", "%s of %s changed the %s" % (op, role, r), got=now, want=shadow[j]):
                return
            if not M.check(np.allclose(q(x, y), images[j], rtol=1e-10, atol=1e-12 * np.abs(images[j]).max(), equal_nan=True), "independent_image", "%s of %s changed the image of the %s" % (op, role, r)):
                return
        M.event("edits")
        M.nontrivial(kind, role, op)

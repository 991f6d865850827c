"""C15 settings validation and history independence of image models."""
import copy, pickle
import warnings
import numpy as np
import petrofit as pf
from astropy.modeling import models
from .. import refs, gens
from . import c14

RULE = ("Random histories (20-40 steps) over a population of wrapped models: good and bad oversample/psf_oversample/PSF settings in any "
        "order, parameter edits, evaluations on grids of equal size but other origin/shape/step order, cache on/off/clear, copies; a "
        "reference of the settings in force predicts acceptance, and each evaluation is compared with a freshly built model and with "
        "the direct definition. Non-trivial: distinct (operation, previous operation, settings class).")
PLAN = {"quick": {"history": 480, "construct": 360, "grids": 180}, "thorough": {"history": 3500, "construct": 3000, "grids": 1500}}
NEED = ["rejections", "accepted", "fresh_pairs", "cache_reuse", "warned", "copies"]
ASSUME = ["Setting the PSF to None while psf_oversample is in force is accepted by petrofit; the image is then only binned, and judged as such.",
          "Accepted settings are evaluated with numeric or existing parameter names as window centres."]


def good_oversample(ov, step):
    """Is it acceptable under the documented rules?"""
    if ov is None:
        return step == 1
    if isinstance(ov, (tuple, list)):
        return len(ov) == 4 and all(type(v) is int for v in ov[2:]) and ov[3] > 0 and ov[3] % step == 0
    return type(ov) is int and ov > 0 and ov % step == 0


def factor(ov):
    return 1 if ov is None else (ov[3] if isinstance(ov, (tuple, list)) else ov)


def good_psf_oversample(po, psf, ov):
    if po is None:
        return True
    return psf is not None and type(po) is int and po > 0 and factor(ov) % po == 0


def draw_oversample(rng, nx=20):
    k = int(rng.integers(12))
    if k < 4:
        return int(rng.integers(1, 7))
    if k < 8:
        w = ["x_0", "y_0"] if rng.random() < .5 else [float(rng.integers(-3, nx)) + .2, int(rng.integers(0, nx))]
        w += [int(rng.integers(1, 12)), int(rng.integers(1, 7))]
        return tuple(w) if rng.random() < .6 else w
    if k == 8:
        return None
    return [0, -1, -4, 2.0, 1.5, "2", (5, 5, 4), (5, 5, 4, 2, 1), (), (5, 5, 4.0, 2), (5, 5, 4, 2.0), (5, 5, 4, 0), (5, 5, 4, -2),
            (5, 5, "4", 2), (5, 5, 4, None), {"a": 1}, [3, 3], (5, 5, None, 2)][int(rng.integers(18))]


def draw_psf_oversample(rng):
    if rng.random() < .65:
        return int(rng.integers(1, 5))
    return [None, None, 0, -1, 1.0, 2.0, "2", (2,), [2, 2]][int(rng.integers(9))]


def draw_sub(rng):
    s = models.Sersic2D(amplitude=rng.uniform(1, 9), r_eff=rng.uniform(2, 6), n=rng.uniform(.6, 4), x_0=rng.uniform(2, 14), y_0=rng.uniform(2, 14), ellip=rng.uniform(0, .7), theta=gens.angle(rng))
    return s


class Shadow:
    """What should be in force, by the documented rules."""
    def __init__(self, sub, psf, ov, po):
        self.sub, self.psf, self.ov, self.po = sub, psf, ov, po
        self.params = list(sub.parameters) + [0.0]

    def clone(self):
        s = Shadow(self.sub, self.psf, self.ov, self.po)
        s.params = list(self.params)
        return s


def same_setting(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return tuple(a) == tuple(b)
    return type(a) == type(b) and a == b


def settings_kept(M, m, s, why):
    M.check(same_setting(m.oversample, s.ov), "in_force", "oversample is not the last accepted setting after " + why, got=m.oversample, want=s.ov)
    M.check(same_setting(m.psf_oversample, s.po), "in_force", "psf_oversample is not the last accepted setting after " + why, got=m.psf_oversample, want=s.po)
    M.check(m.psf is s.psf or (m.psf is not None and s.psf is not None and np.array_equal(m.psf, s.psf)), "in_force", "another PSF after " + why)


def compare(M, m, s, x, y, history):
    im = m(x, y)
    sub = s.sub.copy()
    sub.parameters = s.params[:-1]
    wit = dict(oversample=s.ov, psf_oversample=s.po, psf=np.shape(s.psf), history=history[-12:], params=s.params, x_range=(x.min(), x.max()), y_range=(y.min(), y.max()), n=x.size)
    if not (s.psf is None and s.po is not None):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = pf.PSFConvolvedModel2D(sub, psf=None if s.psf is None else s.psf.copy(), oversample=s.ov, psf_oversample=s.po)
        f.psf_pa = s.params[-1]
        ref = f(x, y)
        M.close(im, ref, "fresh", rtol=1e-10, atol=1e-12 * np.abs(ref).max(), msg="image differs from that of a fresh model with the same settings", **wit)
        M.event("fresh_pairs")
    ov = s.ov
    if isinstance(ov, (tuple, list)):
        names = list(sub.param_names)
        ov = tuple(s.params[names.index(v)] if isinstance(v, str) else v for v in ov)
    want = refs.form_pixels(lambda a, b: refs.sersic2d(a, b, *s.params[:-1]), x, y, psf=s.psf, oversample=ov, psf_oversample=s.po, psf_pa=s.params[-1])
    if want is not None:
        M.close(im, want, "definition", rtol=1e-8, atol=1e-9 * np.abs(want).max(), msg="image differs from its definition after a history", **wit)
    return im


def run_history(M, rng, case):
    sub = draw_sub(rng)
    psf = gens.psf(rng, n=int(rng.integers(2, 6))) if rng.random() < .7 else None
    pop = [(pf.PSFConvolvedModel2D(sub, psf=psf), Shadow(sub.copy(), psf, None, None))]
    hist, last = [], None
    nx, ny = int(rng.integers(6, 18)), int(rng.integers(6, 18))
    grids = [c14.coords(nx, ny, 0, 0), c14.coords(nx, ny, 3, -2), c14.coords(ny, nx, 0, 0), c14.coords(nx, ny, 3, 0), c14.coords(nx + 1, ny, .5, .25)]
    for step in range(int(rng.integers(20, 41))):
        m, s = pop[int(rng.integers(len(pop)))]
        op = str(rng.choice(["ov", "ov", "po", "po", "psf", "param", "eval", "eval", "eval", "cache", "copy", "pa", "subset"]))
        hist.append(op)
        if op == "ov":
            v = draw_oversample(rng)
            ok = good_oversample(v, s.po or 1)
            M.nontrivial("ov", repr(v)[:30] if not ok else type(v).__name__, s.po)
            hist[-1] = "oversample=%r %s" % (v, ok)
            give = list(v) if isinstance(v, list) else v
            try:
                m.oversample = give
                took = True
            except Exception:
                took = False
            if not M.check(took == ok, "accept", "oversample=%r %s while psf_oversample=%r" % (v, "accepted" if took else "refused", s.po), history=hist[-8:]):
                return
            M.event("accepted" if ok else "rejections")
            if ok:
                s.ov = v
                if isinstance(give, list):
                    give[3] = 99                       # the model must not keep the caller's list
                    give.append(1)
        elif op == "po":
            v = draw_psf_oversample(rng)
            ok = good_psf_oversample(v, s.psf, s.ov)
            hist[-1] = "psf_oversample=%r %s" % (v, ok)
            M.nontrivial("po", repr(v), repr(s.ov)[:20], s.psf is None)
            try:
                m.psf_oversample = v
                took = True
            except Exception:
                took = False
            if not M.check(took == ok, "accept", "psf_oversample=%r %s while oversample=%r, PSF %s" % (v, "accepted" if took else "refused", s.ov, np.shape(s.psf)), history=hist[-8:]):
                return
            M.event("accepted" if ok else "rejections")
            if ok:
                s.po = v
        elif op == "psf":
            k = rng.random()
            new = None if k < .2 else gens.psf(rng, n=int(rng.integers(2, 6)))
            bad = new is not None and k > .7
            if bad:
                new = new * rng.uniform(1.01, 3)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                m.psf = new
            M.check(bool(w) or not bad, "warn", "unnormalised PSF accepted without a warning", total=None if new is None else new.sum())
            M.check(not w or bad, "warn", "warned about a normalised PSF or none")
            if bad:
                M.event("warned")
            s.psf = new
        elif op == "param":
            n = str(rng.choice(s.sub.param_names))
            v = {"x_0": rng.uniform(0, 12), "y_0": rng.uniform(0, 12), "ellip": rng.uniform(0, .8), "n": rng.uniform(.6, 4)}.get(n, rng.uniform(1, 6))
            setattr(m, n, v)
            s.params[list(s.sub.param_names).index(n)] = v
        elif op == "pa":
            v = float(rng.choice([0, 90, 180, 0, -90]))
            m.psf_pa = v
            s.params[-1] = v
        elif op == "cache":
            k = int(rng.integers(4))
            if k == 0:
                m.cache_grid = False
            elif k == 1:
                m.cache_grid = True
            elif k == 2:
                m.clear_cached_grid()
            else:
                now = m.cache_grid
                try:
                    m.cache_grid = [None, "yes", [], 2.5][int(rng.integers(4))]
                    M.violate("accept", "cache_grid accepted a value that is no bool")
                except Exception:
                    M.event("rejections")
                M.check(m.cache_grid == now, "in_force", "cache_grid changed by a refused value")
        elif op == "copy" and len(pop) < 4:
            k = int(rng.integers(4))
            c = m.copy() if k == 0 else copy.deepcopy(m) if k == 1 else pickle.loads(pickle.dumps(m)) if k == 2 else None
            if c is None:
                if s.psf is None and s.po is not None:
                    continue
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    c = pf.PSFConvolvedModel2D(m.model, psf=m.psf, oversample=m.oversample, psf_oversample=m.psf_oversample)
                c.psf_pa = m.psf_pa.value
            pop.append((c, s.clone()))
            M.event("copies")
        elif op in ("eval", "subset"):
            g = grids[int(rng.integers(len(grids)))]
            x, y = g
            if op == "subset":
                keep = rng.random(x.shape) < .6
                keep[0, 0] = keep[-1, -1] = True
                x, y = x[keep], y[keep]
            im = compare(M, m, s, x, y, hist)
            again = m(x, y)
            M.check(np.array_equal(im, again, equal_nan=True), "cache", "second evaluation on the same pixels differs")
            M.event("cache_reuse")
            im *= 0                                  # results belong to the caller
            M.close(m(x, y), again, "aliased", rtol=1e-12, msg="writing into a returned image changes the next one")
        settings_kept(M, m, s, hist[-1])
        M.nontrivial(op, last, s.po, type(s.ov).__name__, s.psf is None)
        last = op
    M.sample(history=hist[:12])


def run_construct(M, rng, case):
    sub = draw_sub(rng)
    psf = gens.psf(rng, n=3) if rng.random() < .7 else None
    ov, po = draw_oversample(rng), draw_psf_oversample(rng)
    ok = good_oversample(ov, 1) and good_psf_oversample(po, psf, ov)
    try:
        m = pf.PSFConvolvedModel2D(sub, psf=psf, oversample=ov, psf_oversample=po)
        took = True
    except Exception:
        took = False
    M.check(took == ok, "construct", "oversample=%r psf_oversample=%r psf=%r %s at construction" % (ov, po, np.shape(psf), "accepted" if took else "refused"))
    M.event("accepted" if ok else "rejections")
    if took and ok:
        s = Shadow(sub, psf, ov, po)
        x, y = c14.coords(11, 9, 0, 0)
        compare(M, m, s, x, y, ["construct"])
        settings_kept(M, m, s, "construction")
        M.rejects("wrap", pf.PSFConvolvedModel2D, m, what="wrapping a wrapped model")
    if case["i"] % 4 == 0:
        M.rejects("not2d", pf.PSFConvolvedModel2D, models.Gaussian1D(), what="a 1D model")
        M.rejects("not2d", pf.PSFConvolvedModel2D, models.Sersic1D(), psf=gens.psf(rng, n=3), oversample=2, what="a 1D model")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            m = pf.PSFConvolvedModel2D(sub, psf=np.ones((3, 3)))
        M.check(bool(w), "warn", "unnormalised PSF accepted without a warning at construction")
        M.event("warned")
        x, y = c14.coords(9, 8, 0, 0)
        M.close(m(x, y), 9 * pf.PSFConvolvedModel2D(sub, psf=np.ones((3, 3)) / 9)(x, y), "unnormalised", rtol=1e-9, msg="unnormalised PSF is rescaled or ignored")
    M.nontrivial("construct", repr(ov)[:25], repr(po), psf is None)


def run_grids(M, rng, case):
    """Long runs on one model over grids that differ in one respect only."""
    sub = draw_sub(rng)
    ov = [None, 2, 3, ("x_0", "y_0", 5, 4)][int(rng.integers(4))]
    m = pf.PSFConvolvedModel2D(sub, psf=gens.psf(rng, n=3) if rng.random() < .5 else None, oversample=ov)
    s = Shadow(sub, m.psf, ov, None)
    n = int(rng.integers(5, 14))
    base = [(n, n, 0, 0), (n, n, 1, 0), (n, n, 0, 1), (n, n - 2, 0, 0), (n - 2, n, 0, 0), (n, n, .5, 0), (n, n, 0, -.25), (n + 1, n, 0, 0), (n, n, -n, n)]
    for _ in range(8):
        g = base[int(rng.integers(len(base)))]
        x, y = c14.coords(*g)
        if rng.random() < .2:
            m.oversample = s.ov = [1, 2, 3, ("x_0", "y_0", 5, 4), ("x_0", "y_0", 5, 2), (3, 3, 6, 3)][int(rng.integers(6))]
        compare(M, m, s, x, y, [g])
        M.nontrivial("grid", base.index(g), repr(s.ov)[:20])

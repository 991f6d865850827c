"""C21 PetroApprox: the closed-form approximations against analytic Sersic values, along the chain."""
import numpy as np
import petrofit as pf
from .. import refs

RULE = ("Sersic indices in [0.5, 4.5], radii in any unit: analytic Petrosian radii, r_99, C2080 with epsilon 2 and with the corrected epsilon and "
        "P0502 from the closed-form enclosed flux; the same concentrations read from Petrosian objects of exact curves of growth; each approximation "
        "is evaluated on scalars, 0-d, 1-d and 2-d arrays. Non-trivial: distinct (index bin, container).")
PLAN = {"quick": {"chain": 480, "shape": 120, "measured": 120}, "thorough": {"chain": 6000, "shape": 1000, "measured": 800}}
NEED = ["links_judged", "measured_judged", "shapes_judged"]
ASSUME = ["'A few percent' is read as: corrected C2080 1%, n 4%, epsilon from n 1%, epsilon from P0502 3%, the whole chain 9% (the committed "
          "coefficients are within 0.2, 2.3, 0.15, 1.7 and 6.2%)."]
LO, HI = .5, 4.5


def truth(n):
    """-> u2080, c2080, epsilon, p0502 of an ideal profile (r_eff = 1)."""
    rp, r5 = refs.sersic_rp(.2, 1., n), refs.sersic_rp(.5, 1., n)
    r99 = refs.sersic_r(.99, 1., n)
    tot = refs.sersic_L(np.inf, 1., 1., n)

    def conc(R):
        T = refs.sersic_L(R, 1., 1., n) / .99 / tot
        return 5 * np.log10(refs.sersic_r(.8 * T, 1., n) / refs.sersic_r(.2 * T, 1., n))
    return conc(2 * rp), conc(r99), r99 / rp, 5 * np.log10(rp / r5)


def links(M, n, u, c, e, p, slack=0.):
    A = pf.PetroApprox
    M.event("links_judged")
    M.close(A.u2080_to_c2080(u), c, "u_to_c", rtol=.01 + slack, msg="corrected C2080 from the uncorrected one", n=n, u2080=u)
    M.close(A.c2080_to_n(c), n, "c_to_n", rtol=.04 + slack, msg="Sersic index from corrected C2080", n=n, c2080=c)
    M.close(A.n_to_epsilon(n), e, "n_to_epsilon", rtol=.01 + slack, msg="epsilon from n", n=n)
    M.close(A.p0502_to_epsilon(p), e, "p_to_epsilon", rtol=.03 + slack, msg="epsilon from P0502", n=n, p0502=p)
    M.close(A.n_to_epsilon(A.c2080_to_n(A.u2080_to_c2080(u))), e, "chain", rtol=.09 + slack, msg="epsilon along the whole chain", n=n, u2080=u)


def run_chain(M, rng, case):
    n = float(rng.uniform(LO, HI)) if case["i"] > 1 else (LO, HI)[case["i"]]
    links(M, n, *truth(n))
    M.nontrivial("scalar", round(n * 4))
    if case["i"] < 3:
        M.sample(n=n, analytic=truth(n))


def run_shape(M, rng, case):
    """Containers: same values element by element, same shape, input untouched."""
    A = pf.PetroApprox
    k = int(rng.integers(1, 12))
    ns = np.sort(rng.uniform(LO, HI, k))
    cols = [np.array(v) for v in zip(*[truth(n) for n in ns])]
    u, c, e, p = cols
    for f, x in ((A.u2080_to_c2080, u), (A.c2080_to_n, c), (A.n_to_epsilon, ns), (A.p0502_to_epsilon, p)):
        each = np.array([float(f(float(v))) for v in x])
        for form in (x, x.reshape(1, -1), np.stack([x, x]), x.astype("f8")[::-1]):
            keep = form.copy()
            got = f(form)
            M.event("shapes_judged")
            want = each.reshape(1, -1) if form.shape == (1, k) else (np.stack([each, each]) if form.shape == (2, k) else (each[::-1] if form is not x and form.ndim == 1 and k > 1 else each))
            M.close(got, want, "arrays", rtol=1e-9, msg="array value differs from the scalar one")
            M.check(np.array_equal(keep, form), "input", "input changed")
        M.check(np.ndim(f(float(x[0]))) == 0, "scalar", "scalar in, array out")
        # a fine ordered sequence is mapped to an ordered one: all four relations grow with n
        M.check(np.all(np.diff(each)[np.diff(ns) > .05] > 0), "monotone", "not growing with n", x=x, got=each)
    links(M, ns, u, c, e, p)
    M.nontrivial("array", k)


def run_measured(M, rng, case):
    """The same relations fed from measured profiles of ideal galaxies, as a user would."""
    n, re = float(rng.uniform(LO, HI)), float(rng.uniform(5, 30))
    r99 = refs.sersic_r(.99, re, n)
    rmax = max(r99, 2 * refs.sersic_rp(.2, re, n)) * 1.05
    q = float(rng.uniform(.3, 1))
    r = np.geomspace(re * .02, rmax, 600)
    P = pf.Petrosian(r, np.pi * r ** 2 * q, refs.sersic_L(r, 7., re, n) * q, interp_num=20000)
    A = pf.PetroApprox
    u = P.c2080
    p5 = pf.Petrosian(r, P.area_list, P.flux_list, eta=.5, interp_num=20000)
    pc = 5 * np.log10(P.r_petrosian / p5.r_petrosian)
    eps = A.n_to_epsilon(A.c2080_to_n(A.u2080_to_c2080(u)))
    true = r99 / refs.sersic_rp(.2, re, n)
    M.event("measured_judged")
    M.close(eps, true, "measured_chain", rtol=.16, msg="epsilon from a measured profile", n=n, u2080=u)
    M.close(A.p0502_to_epsilon(pc), true, "measured_p0502", rtol=.06, msg="epsilon from measured P0502", n=n, p0502=pc)
    M.close(A.c2080_to_n(A.u2080_to_c2080(u)), n, "measured_n", rtol=.06, msg="index from a measured profile", n=n)
    M.nontrivial("measured", round(n * 4))

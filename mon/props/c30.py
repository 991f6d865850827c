"""C30 concurrent use: calls from several threads answer like single calls, under injected switches."""
import os, sys, threading, time, hashlib
import numpy as np
import petrofit as pf
from .. import core
from . import c23

RULE = ("Two to four threads each run a list of 5-9 public calls (photometry, detection, fitting, rendering, PSF models, Petrosian, correction, theory, conversions), on their own "
        "objects or sharing the arrays, lists and dictionaries, with a tiny switch interval and yields injected at random lines of petrofit; every result is compared with the same call made "
        "alone on an equal pool. Non-trivial: distinct observed schedules (the order in which threads passed the injected points, run-length digest).")
PLAN = {"quick": {"threads": 160}, "thorough": {"threads": 1500}}
NEED = ["threaded_calls", "switches", "yields"]
ASSUME = ["pyplot and sys.stdout belong to one thread; plotting and printing calls are left out.", "Threads share arrays, lists and dictionaries; objects that compute or cache on demand (models, catalogs, Petrosian) are one per thread."]

PLOTTING = {"plots", "generate", "printing"}


def usable(name, k):
    if name in PLOTTING:
        return False
    return not (name == "catalog" and k & 4) and not (name == "gaussian" and not k & 1)


def quiet(W, name, k):
    """c23.call without touching pyplot or stdout."""
    try:
        if name == "gaussian":
            return c23.norm(pf.fit_gaussian2d(W["gauss"]))
        return c23.norm(c23.OPS[name](W, k))
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, str(e)[:80])


def run_threads(M, rng, case):
    shared = bool(rng.random() < .4)
    nt = int(rng.integers(2, 5))
    seed = int(rng.integers(1 << 30))
    names = sorted(c23.OPS)
    jobs = []
    hammer = rng.random() < .3                       # all threads run one operation, many variants
    one = str(rng.choice([n for n in names if any(usable(n, k) for k in range(16))]))
    same_ops = rng.random() < .4                     # all threads run the same operations with other options
    first = None
    for t in range(nt):
        todo = []
        n = int(rng.integers(5, 10))
        while len(todo) < n:
            name, k = str(rng.choice(names)), int(rng.integers(16))
            if hammer:
                name = one
            elif same_ops and first and len(todo) < len(first):
                name = first[len(todo)][0]
            if usable(name, k):
                todo.append((name, k))
            elif same_ops and first and len(todo) < len(first):
                first = first[:len(todo)]
        jobs.append(todo)
        first = first or todo
    seeds = [seed] * nt if shared else [seed + t for t in range(nt)]
    want = [[quiet(W, *j) for j in jobs[t]] for t, W in enumerate([c23.pool(s) for s in seeds])]
    pools = [c23.pool(s) for s in seeds]
    if shared:                                       # plain data shared, objects (models, catalogs, profiles) one per thread
        for W in pools[1:]:
            W.update({q: v for q, v in pools[0].items() if isinstance(v, (np.ndarray, list, dict)) and q != "apers"})
    watch = [(q, v, v.tobytes()) for q, v in pools[0].items() if type(v) is np.ndarray and v.dtype.kind in "biuf" and v.size < 30000] if shared else []
    dirty = []
    got = [[None] * len(j) for j in jobs]
    pkg = os.path.realpath(os.path.join(core.REPO, "petrofit")) + os.sep
    inside = {}
    log, p = [], float(rng.choice([.002, .02, .2]))
    start = threading.Barrier(nt)

    def worker(t, s):
        r = np.random.default_rng(s)
        draw = [0, r.random(4096)]

        def local(frame, event, arg):
            if event == "line":
                draw[0] = (draw[0] + 1) % 4096
                if draw[1][draw[0]] < p:
                    log.append(t)
                    if watch and not dirty:
                        dirty.extend((q, os.path.basename(frame.f_code.co_filename), frame.f_code.co_name) for q, v, b in watch if v.tobytes() != b)
                    time.sleep(0 if draw[1][draw[0]] < .7 * p else 2e-4)
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if f not in inside:
                inside[f] = os.path.realpath(f).startswith(pkg)
            return local if inside[f] else None
        start.wait()
        sys.settrace(trace)
        try:
            for i, (name, k) in enumerate(jobs[t]):
                got[t][i] = quiet(pools[t], name, k)
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        th = [threading.Thread(target=worker, args=(t, int(rng.integers(1 << 30))), daemon=True) for t in range(nt)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if watch:
        M.event("shared_watched", len(log))
    M.check(not dirty, "shared_input", "an array shared between threads was seen changed during the calls", what=dirty[:4], jobs=jobs)
    M.event("yields", len(log))
    M.event("switches", sum(a != b for a, b in zip(log, log[1:])))
    for t in range(nt):
        for i, j in enumerate(jobs[t]):
            M.event("threaded_calls")
            M.check(c23.alike(got[t][i], want[t][i]), "concurrent", "%s(%d) answers differently when other threads call petrofit" % j, got=got[t][i], want=want[t][i],
                    shared=shared, threads=nt, jobs=jobs)
    M.nontrivial(hashlib.md5(bytes(log)).hexdigest())
    M.sample(threads=nt, shared=shared, yields=len(log), jobs=[["%s:%d" % q for q in j] for j in jobs])

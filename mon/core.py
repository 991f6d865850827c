"""
Verdict discipline shared by all checks.

A property module (mon/props/cXX.py) offers
    PLAN   {"quick": {kind: number of cases}, "thorough": {...}}
    RULE   text: how cases are made and when one is non-trivial
    NEED   names of event counters that must be positive (else: inconclusive)
    run_<kind>(M, rng, case)      drives the real code; M collects what the monitors observed
and optionally ASSUME, LEVEL, hooks(M) (returns boundary monitors, see mon/api.py).

A run ends as
    0  held on everything observed
    1  violated: a line "VIOLATION property=<id> replay=<path>"
    2  inconclusive (monitor never reached, case timed out, oracle failed): neither of the two
"""
import os, sys, json, time, signal, traceback, hashlib, importlib, pickle, warnings
import multiprocessing as mp
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 240          # per-case watchdog, inconclusive when it fires
SETTLE = 150                # once a violation is on disk, no new cases after this many seconds
RUN_TIMEOUT = {"quick": 840, "thorough": 3000}


class OracleError(Exception):
    """The machinery itself failed; never a verdict on petrofit."""


class CaseTimeout(BaseException):
    pass


# What an oracle raises when an observed value has a type, unit, shape or key nobody could expect there
MISFIT = (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError)


def jsonable(o, depth=0):
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:30]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:30]]
    if isinstance(o, np.ndarray):
        if hasattr(o, "unit"):
            return repr(o)[:200]
        if o.size > 24:
            return "array%s %s..." % (o.shape, np.array2string(o.ravel()[:8], precision=8))
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)[:200]


class Monitor:
    """Collects events, checks and verdicts of one process."""

    def __init__(self, prop, tier, seed, known=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known_keys = dict(known)
        self.events, self.rules = {}, {}
        self.nt, self.samples = set(), []
        self.violations, self.known_hits = [], {}
        self.inconclusive = []
        self.case = None
        self.n_cases = 0
        self.slow = (0, None)

    # -- observation -------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, *key):
        self.nt.add(hashlib.blake2b(repr((self.case and self.case["kind"],) + key).encode(),
                                    digest_size=8).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({"case": self.case, **jsonable(kw)})

    # -- judgement ---------------------------------------------------
    def check(self, ok, rule, msg="", key=None, **witness):
        """rule: short name of the judged clause; key: known-finding mechanism, if any."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if isinstance(ok, np.ndarray):
            ok = bool(np.all(ok))
        if ok:
            return True
        r[1] += 1
        self.violate(rule, msg, key=key, **witness)
        return False

    def close(self, got, want, rule, rtol=1e-9, atol=0.0, msg="", key=None, **witness):
        want_ = np.asarray(want, float)
        try:
            got_ = np.asarray(got, float)
        except MISFIT:
            return self.check(False, rule, msg + " (result is not numeric: %s)" % repr(got)[:200], key=key, want=want_, **witness)
        if got_.shape != want_.shape:
            return self.check(False, rule, msg + " shape %s != expected %s" % (got_.shape, want_.shape),
                              key=key, got=got_, want=want_, **witness)
        ok = np.allclose(got_, want_, rtol=rtol, atol=atol, equal_nan=True)
        if ok:
            return self.check(True, rule)
        return self.check(False, rule, msg, key=key, got=got_, want=want_, **witness)

    def violate(self, rule, msg, key=None, **witness):
        if key is not None and key in self.known_keys:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        if len(self.violations) < 25:
            try:
                wit = jsonable(witness)
            except Exception:
                wit = {"witness": repr(witness)[:500]}
            self.violations.append({"property": self.prop, "rule": rule, "msg": msg,
                                    "case": self.case, "witness": wit})
        else:
            self.violations[-1].setdefault("more", 0)
            self.violations[-1]["more"] += 1

    # -- calls -------------------------------------------------------
    def rejects(self, rule, fn, *a, what="", **k):
        """The call must be refused (any exception)."""
        try:
            r = fn(*a, **k)
        except Exception:
            self.event("rejections")
            return self.check(True, rule)
        return self.check(False, rule, "accepted what must be rejected: " + what, result=r)

    def state(self):
        return {k: getattr(self, k) for k in
                ("events", "rules", "nt", "samples", "violations", "known_hits",
                 "inconclusive", "n_cases", "slow")}


def from_repo(tb):
    """Is a petrofit frame on the traceback, and no oracle frame below it?"""
    files = []
    while tb is not None:
        files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    pkg = os.path.realpath(os.path.join(REPO, "petrofit")) + os.sep
    own = os.path.realpath(os.path.join(VERIF, "mon")) + os.sep
    last_pkg = max([i for i, f in enumerate(files) if f.startswith(pkg)], default=-1)
    last_own = max([i for i, f in enumerate(files)
                    if f.startswith(own) and not f.endswith("/api.py")], default=-1)
    return last_pkg > last_own


def run_case(mod, M, case):
    M.case = case
    M.n_cases += 1
    ss = np.random.SeedSequence([case["seed"], int(hashlib.md5((M.prop + case["kind"]).encode()).hexdigest()[:7], 16), case["i"]])
    rng = np.random.default_rng(ss)
    np.random.seed(int(ss.generate_state(1)[0]))

    def onalarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            getattr(mod, "run_" + case["kind"])(M, rng, case)
    except CaseTimeout:
        M.inconclusive.append("case %s timed out" % case)
    except OracleError as e:
        if isinstance(e.__cause__, MISFIT):
            M.check(False, "result_form", "an observed result has a form that cannot be judged: %r" % e.__cause__,
                    traceback=traceback.format_exc()[-1500:])
        M.inconclusive.append("oracle: " + traceback.format_exc()[-1500:])
    except Exception as e:
        if from_repo(e.__traceback__):
            M.check(False, "no_exception", "petrofit raised %s: %s" % (type(e).__name__, str(e)[:300]),
                    traceback=traceback.format_exc()[-1200:])
        elif isinstance(e, MISFIT):
            # never on the unchanged tree (all tiers and seeds tried): some result is of another type, shape or unit
            M.check(False, "result_form", "a result has a form that cannot be judged: %s: %s" % (type(e).__name__, str(e)[:300]),
                    traceback=traceback.format_exc()[-1500:])
        else:
            M.inconclusive.append("harness: " + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        d = time.time() - t0
        if d > M.slow[0]:
            M.slow = (d, dict(case))
        try:
            from matplotlib import pyplot as plt
            plt.close("all")
        except Exception:
            pass


def load_known(prop):
    """Open findings of this property: lines  'open: property=<id> key=<key> <what fails>'."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            if line.startswith("open: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                k, what = rest.split(" ", 1)
                out[k.split("=", 1)[1]] = what
    except FileNotFoundError:
        pass
    return out


def make_monitor(mod, prop, tier, seed):
    M = Monitor(prop, tier, seed, load_known(prop))
    from mon import api
    api.install(M, mod.hooks(M) if hasattr(mod, "hooks") else {})
    return M


def worker(mod, prop, tier, seed, cases, counter, path, seen, t0):
    M = make_monitor(mod, prop, tier, seed)
    saved = 0

    def save():
        with open(path + ".part", "wb") as f:
            pickle.dump(M.state(), f)
        os.rename(path + ".part", path)
    while True:
        if seen.value and time.time() - t0 > SETTLE:
            break                              # somebody holds a witness; the answer cannot change any more
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            break
        run_case(mod, M, cases[i])
        if len(M.violations) > saved:
            saved = len(M.violations)
            save()                             # survives the watchdog
            seen.value = 1
        if len(M.violations) >= 10:
            with counter.get_lock():       # enough witnesses, stop everybody
                counter.value = max(counter.value, len(cases))
            break
    save()


def merge(parts):
    tot = {"events": {}, "rules": {}, "nt": set(), "samples": [], "violations": [],
           "known_hits": {}, "inconclusive": [], "n_cases": 0, "slow": (0, None)}
    for p in parts:
        for k in ("events", "known_hits"):
            for n, v in p[k].items():
                tot[k][n] = tot[k].get(n, 0) + v
        for n, (a, b) in p["rules"].items():
            r = tot["rules"].setdefault(n, [0, 0]); r[0] += a; r[1] += b
        tot["nt"] |= p["nt"]
        for k in ("samples", "violations", "inconclusive"):
            tot[k] += p[k]
        tot["n_cases"] += p["n_cases"]
        if p["slow"][0] > tot["slow"][0]:
            tot["slow"] = p["slow"]
    return tot


def main(argv):
    prop = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")

    import petrofit
    where = os.path.realpath(petrofit.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("INCONCLUSIVE property=%s petrofit imported from %s, not %s" % (prop, where, REPO))
        return 2
    mod = importlib.import_module("mon.props." + prop.lower())

    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        M = make_monitor(mod, prop, rep.get("tier", tier), rep["case"]["seed"])
        run_case(mod, M, rep["case"])
        res = merge([M.state()])
        for v in res["violations"]:
            print(json.dumps(v, indent=1))
        print("replayed: %d violation(s), %d inconclusive" % (len(res["violations"]), len(res["inconclusive"])))
        for s in res["inconclusive"]:
            print(s)
        return 1 if res["violations"] else (2 if res["inconclusive"] else 0)

    plan = mod.PLAN[tier]
    only = os.environ.get("VERIF_ONLY")          # development aid: run one workload kind
    lists = []
    for kind, n in plan.items():
        if only and kind not in only.split(","):
            continue
        lists.append([{"kind": kind, "i": i, "seed": seed} for i in range(n)])
    # interleave the kinds so that slow ones start early and spread over workers
    cases = [t[2] for t in sorted(((j / max(len(l), 1), k, c) for k, l in enumerate(lists)
                                   for j, c in enumerate(l)), key=lambda t: t[:2])]
    nproc = max(1, min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), 8, len(cases)))
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    seen = ctx.Value("i", 0, lock=False)
    scratch = os.environ["VERIF_SCRATCH"]
    procs = []
    for w in range(nproc):
        path = os.path.join(scratch, "part%d" % w)
        p = ctx.Process(target=worker, args=(mod, prop, tier, seed, cases, counter, path, seen, t0))
        p.start()
        procs.append((p, path))
    incon = []
    deadline = t0 + RUN_TIMEOUT[tier]
    for p, path in procs:
        while p.is_alive() and time.time() < deadline:
            p.join(1)
            if seen.value:                     # a witness is on disk: give the others a minute to finish their case
                deadline = min(deadline, max(t0 + SETTLE, time.time()) + 60)
        if p.is_alive():
            p.kill()
            p.join()
            incon.append("worker still running at the watchdog (%d s)" % (time.time() - t0))
    parts = []
    for p, path in procs:
        if os.path.exists(path):
            parts.append(pickle.load(open(path, "rb")))
        else:
            incon.append("worker died without a report (exit code %s)" % p.exitcode)
    res = merge(parts)
    res["inconclusive"] += incon
    for name in getattr(mod, "NEED", []):
        if not res["events"].get(name) and not only:
            res["inconclusive"].append("deciding monitor never reached: no '%s' event" % name)
    if len(res["nt"]) < 2 and not only:
        res["inconclusive"].append("fewer than two distinct non-trivial cases observed")

    # replay files
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    for old in os.listdir(repdir):
        if old.startswith(prop + "-"):
            os.remove(os.path.join(repdir, old))
    out = []
    for n, v in enumerate(res["violations"][:10]):
        path = os.path.join(repdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({**v, "tier": tier, "replay_cmd": "./check %s --replay %s" % (prop, path)}, f, indent=1)
        out.append((path, v))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": res["n_cases"], "distinct_nontrivial": len(res["nt"]),
                       "rule": mod.RULE, "samples": res["samples"][:6] or [{"case": cases[0]}],
                       "clauses_judged": {k: v[0] for k, v in sorted(res["rules"].items())},
                       "events_observed": dict(sorted(res["events"].items())),
                       "workloads": {l[0]["kind"]: len(l) for l in lists if l},
                       "known_finding_hits": res["known_hits"],
                       "inconclusive": [s[-300:] for s in res["inconclusive"]][:5],
                       "slowest_case_s": round(res["slow"][0], 2), "processes": nproc},
          "assumptions": getattr(mod, "ASSUME", []) + [
              "Held on the executions observed; says nothing about inputs outside the generators.",
              "Oracles trust numpy, scipy, astropy and photutils primitives named in DESIGN.md."],
          "wall_s": round(wall, 2), "violations": len(res["violations"])}
    evname = os.environ.get("VERIF_EVIDENCE", os.path.join(evdir, prop + ".json"))
    with open(evname, "w") as f:
        json.dump(ev, f, indent=1)

    known = load_known(prop)
    for k, n in sorted(res["known_hits"].items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d judgements, events %s, slowest %.1fs %s, %.1fs"
          % (prop, tier, seed, res["n_cases"], len(res["nt"]), sum(v[0] for v in res["rules"].values()),
             json.dumps(res["events"]), res["slow"][0], res["slow"][1] and res["slow"][1]["kind"], wall))
    for path, v in out:
        print("  %s: %s %s" % (v["rule"], v["msg"], json.dumps(v["witness"])[:600]))
    if out:
        print("VIOLATION property=%s replay=%s" % (prop, out[0][0]))
        return 1
    if res["inconclusive"]:
        for s in res["inconclusive"][:5]:
            print("INCONCLUSIVE property=%s %s" % (prop, s))
        return 2
    return 0

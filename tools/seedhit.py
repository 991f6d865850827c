"""seedhit.py [id[:CHECK,...] ...]: run checks (the own property's by default, quick tier) against planted bugs in scratch
copies of /repo; results go to tools/seed_results.json.  Development aid; no check reads it or seeded/."""
import sys, os, json, subprocess, shutil, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(V, "tools", "seed_results.json")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for a in ids:
    i, _, cs = a.partition(":")
    sd = V + "/seeded/" + i
    meta = json.load(open(sd + "/meta.json"))
    d = tempfile.mkdtemp(prefix="seedhit-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "-C", d + "/r", "apply", sd + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(i, "PATCH FAILS", r.stderr[:200], flush=True)
            continue
        for c in cs.split(",") if cs else [meta["property"]]:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev.json", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            o = subprocess.run([V + "/check", c, "--tier", "quick"], cwd=V, env=env, capture_output=True, text=True)
            v = [l.strip() for l in o.stdout.splitlines() if l.startswith("  ")]
            verdict = {0: "missed", 1: "caught", 2: "inconclusive"}.get(o.returncode, str(o.returncode))
            print(i, c, verdict, "%.0fs" % (time.time() - t), v[0][:160] if v else "", flush=True)
            if o.returncode == 2:
                print("   ", [l[:400] for l in o.stdout.splitlines() if "INCON" in l][:2], flush=True)
            res = json.load(open(RES)) if os.path.exists(RES) else {}
            res.setdefault(i, {})[c] = {"verdict": verdict, "clause": v[0].split(":")[0] if v else ""}
            json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seedtable -->"
res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| change | property | needs | caught by (clause) |", "|---|---|---|---|"]
n = c = 0
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = res.get(i, {})
    hit = ["%s (%s)" % (k, v["clause"]) for k, v in sorted(r.items()) if v["verdict"] == "caught"]
    n += 1
    c += bool(hit)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(hit) or "**missed**"))
s = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n%d planted changes, %d caught (quick tier, seed 1).\n\n" % (n, c) + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
print(n, c)

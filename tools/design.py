"""Writes DESIGN.md from tools/design.md, the tables and the planted bugs."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
out = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    hs = sorted({h for u in c["units"] for h in u["harness"]})
    out.append("**%s — %s.** `%s`, units %s. Enumerated: %s. Assumed: %s.\n" % (
        p["id"], p["title"], "`, `".join(hs), ", ".join(u["name"] + (" (thorough)" if u.get("thorough_only") else "") for u in c["units"]), c["rule"], "; ".join(c["assumptions"])))
fixed, open_ = [], []
for l in open(root + "/known_findings.jsonl"):
    f = json.loads(l)
    (fixed.append("- %s `%s` %s" % (f["property"], f["commit"], f["line"].split(f["commit"])[1].strip())) if f["status"] == "fixed"
     else open_.append("- %s \"%s\": %s" % (f["property"], f["key"], f["what"])))
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = {}
if os.path.exists(root + "/tools/caught.json"):
    caught = json.load(open(root + "/tools/caught.json"))
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], caught.get(d, "not tried")))
t = open(root + "/tools/design.md").read()
camp = open(root + "/tools/campaign.txt").read().strip() if os.path.exists(root + "/tools/campaign.txt") else "it is under way."
for k, v in (("PROPERTIES", "\n".join(out)), ("FIXED", "\n".join(fixed)), ("OPEN", "\n".join(open_)), ("SEEDS", "\n".join(rows)), ("CAMPAIGN", camp)):
    t = t.replace("@@%s@@" % k, v)
open(root + "/DESIGN.md", "w").write(t)

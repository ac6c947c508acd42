"""owners.py: write sa/owners.json, which property's rules examine each function (see check.py, relied)."""
import json, os, sys
SA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa")
sys.path.insert(0, SA)
sys.setrecursionlimit(20000)
import facts, rules
from spec import Ctx, Report
rules.load()
f, out = facts.facts("all"), {}
for q in ("C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C23", "C26", "C27", "C28", "C29"):
    rep = Report(q, "all")
    c = Ctx(f, "all")
    for r in rules.RULES[q]:
        r(c, rep)
    for name, site, status, detail in rep.obs:
        out.setdefault(site.split(" (src/")[0], set()).add(q)
json.dump({k: sorted(v) for k, v in sorted(out.items())}, open(SA + "/owners.json", "w"), indent=0)
print(len(out))

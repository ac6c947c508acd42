"""names.py: write sa/names.json, the private items of /repo's current tree (see sa/alias.py)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
import alias, facts
t = alias.table(facts.facts("all"))
open(alias.TABLE, "w").write(json.dumps(t, indent=0, sort_keys=True) + "\n")
print({k: len(v) for k, v in t.items()})

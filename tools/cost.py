"""Records the cost of the last runs (evidence/*.json) in tools/cost.json."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "tools", "cost.json")
d = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(V, "evidence", "*.json")):
    x = json.load(open(e))
    c = x["coverage"]
    d.setdefault(x["property"], {})[x["tier"]] = [
        c["points_enumerated"], c["transitions"], round(x["wall_s"]),
        bool(c.get("exhaustive"))]
json.dump(d, open(f, "w"), indent=1, sort_keys=True)

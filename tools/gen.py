"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "optbinning/binning/"
P = []


def p(id, mod, title, statement, over, text, why, files, mech, level_note,
      technique=None, na=None, observe=None):
    P.append(dict(id=id, mod=mod, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, na=na,
                  observe=observe or []))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"],
                        "mechanism": [{"name": a, "where": b}
                                      for a, b in q["mech"]],
                        "observe_at": q["observe"],
                        "hook_needed": None}}) + "\n")

checks, na = [], []
for q in P:
    built = q["mod"] and os.path.exists(
        os.path.join(V, "checks", q["mod"] + ".py"))
    if built and not q["na"]:
        checks.append({
            "property": q["id"],
            "quick_cmd": "bash check.sh " + q["mod"],
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + q["mod"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": q["technique"] or (
                "bounded exhaustive enumeration of executions of the real "
                "code against an independent reference model"),
            "level": "model_checking",
            "level_note": q["level_note"]})
    else:
        na.append({"property": q["id"], "reason": q["na"] or
                   "check not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh",
               "hooks": {"guard": "none", "enable": "no hooks are needed: "
                         "the checks drive the public API of the package "
                         "imported from /repo", "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md."}, f, indent=1)
print(len(checks), "checks;", len(na), "not claimed:",
      [n["property"] for n in na])

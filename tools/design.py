"""Assembles DESIGN.md."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
exec(open(os.path.join(T, "design_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
mods = {os.path.basename(f)[:3].upper(): f
        for f in glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))}
out = [open(os.path.join(T, "design_head.md")).read(), "\n## Properties\n"]
cost = json.load(open(os.path.join(T, "cost.json")))
for p in props:
    i = p["id"]
    d = {}
    for n in ast.parse(open(mods[i]).read()).body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    o, w = NOTES[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("- **Property.** %s" % p["statement"])
    out.append("- **Explored** (`%s`). %s" % (
        os.path.relpath(mods[i], V), re.sub(r"\s+", " ", d["RULE"])))
    out.append("- **Oracle.** %s." % o)
    out.append("- **Bounds/assumptions.** %s." % "; ".join(d["ASSUMPTIONS"]))
    c = cost.get(i, {})
    out.append("- **Cost.** " + "; ".join(
        "%s: %d points, %d transitions, %d s on 8 cores" % (
            t, c[t][0], c[t][1], c[t][2]) + (
            "" if c[t][3] else " (stopped by its time cap)")
        for t in ("quick", "thorough") if t in c) + ".")
    out.append("- **Beyond the tests.** %s.\n" % w)
out.append(open(os.path.join(T, "design_tail.md")).read())
out.append("\n## Planted bugs (`seeded/`)\n")
out.append("Each was written from the text of the property and the code, "
           "verified with its own demonstration, the build and the stable "
           "tests, and then run against the check of its property.\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(T, "caught.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    k = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (
        k, m["property"], m["needs"].replace("|", "/"),
        caught.get(k, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")

#!/opt/venv/bin/python
"""Writes DESIGN.md."""
import ast, json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = os.path.join(ROOT, "tools")
import sys
sys.path[:0] = [ROOT, "/repo"]
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import importlib

notes = json.load(open(os.path.join(T, "design_notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(T, "design_head.md")).read(), "\n## 4. Per property\n"]
for p in props:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    n = notes[p["id"]]
    out.append("### %s %s\n\n* **Enumerated**: %s\n* **Oracle**: %s.\n* **Bounds, quick**: %s.\n* **Bounds, thorough**: %s.\n* **Assumptions**: %s.\n* **Beyond the tests**: %s.\n" % (
        p["id"], p["title"], n[0], n[1], m.BOUNDS["quick"], m.BOUNDS["thorough"], "; ".join(m.ASSUMPTIONS) or "none", n[2]))
out.append(open(os.path.join(T, "design_tail.md")).read())
f = os.path.join(T, "seed_results.json")
if os.path.exists(f):
    r = json.load(open(f))
    out.append("\n## 8. Planted changes and the checks that catch them\n\nEach lies in `seeded/<id>`; the quick tier was run against it.\n\n| change | needs | caught by | missed by its own check |\n|---|---|---|---|\n")
    for k in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", k, "meta.json")))
        c = r.get(k, {})
        hit = sorted(x for x in c if c[x] == 1)
        miss = sorted(x for x in c if c[x] != 1 and x == meta["property"])
        out.append("| %s | %s | %s | %s |\n" % (k, meta["needs"], ", ".join(hit) or "-", ", ".join(miss) or ""))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(x.rstrip("\n") if x.startswith("|") else x for x in out).replace("|\n\n|", "|\n|"))

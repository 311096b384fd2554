"""Writes DESIGN.md from design_head.md, catalog.py, design_notes.py, the harness modules, seeded/ and design_tail.md."""
import ast, glob, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from catalog import NOT_APPLICABLE, PROPERTIES
from design_notes import NOTES


def consts(prop):
    out = {}
    for n in ast.parse(open(os.path.join(ROOT, "props", prop.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


o = open(os.path.join(HERE, "design_head.md")).read()
o += "\n## 4. Properties\n"
for p in sorted(PROPERTIES, key=lambda p: p["id"]):
    c = consts(p["id"])
    o += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], NOTES[p["id"]])
    o += "* Bounds (quick): %s\n* Bounds (thorough): %s\n" % (c["BOUNDS"]["quick"], c["BOUNDS"]["thorough"])
    for a in c["ASSUMPTIONS"]:
        o += "* Assumption: %s\n" % a
    o += "* Beyond the tests: %s\n" % p["why"]
if NOT_APPLICABLE:
    o += "\n### Not applicable\n\n"
    for k, v in NOT_APPLICABLE.items():
        o += "* %s: %s\n" % (k, v)
o += "\n" + open(os.path.join(HERE, "design_tail.md")).read()
o += "\n## 8. Planted bugs\n\nEach is in seeded/<id>/. 'Caught' is by the quick check of the property.\n\n| id | property | what it breaks | caught |\n|---|---|---|---|\n"
caught = json.load(open(os.path.join(HERE, "caught.json")))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(i, "?"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(o)

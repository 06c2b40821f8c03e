"""Append the tables (defects, planted bugs) to the hand-written part of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
mark = "## Planted bugs\n"
text = open(path).read().split(mark)[0]
out = [text + mark + "\n",
       "Each was written from a property's text and the code, in a scratch copy (`tools/plant.py`). All are caught by the quick\n"
       "check of their property, except where the last column says otherwise; \"after\" tells what was strengthened when it was\n"
       "first missed.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"]
notes = json.load(open(os.path.join(here, "tools", "planted_notes.json")))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {notes.get(n, 'yes')} |\n")
open(path, "w").write("".join(out))

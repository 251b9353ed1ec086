"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "DESIGN.md")
mark = "<!-- bugs -->\n"
head = open(d).read().split(mark)[0]
rows = []
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    rows.append((m["property"], b, m["needs"], m["what_it_breaks"]))
rows.sort()
with open(d, "w") as f:
    f.write(head + mark + "| property (its check catches the bug) | bug | needs | breaks |\n|---|---|---|---|\n")
    for r in rows: f.write("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n")

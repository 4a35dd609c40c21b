"""Writes the table of the planted bugs to the end of DESIGN.md."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "### Planted bugs\n"
rows = {}
for name in sorted(os.listdir(HERE + "/seeded")):
    with open("%s/seeded/%s/meta.json" % (HERE, name), encoding="utf-8") as f:
        meta = json.load(f)
    rows.setdefault(meta["property"], []).append(
        "%s (%s)" % (name, meta["needs"].rstrip(".")))
with open(HERE + "/DESIGN.md", encoding="utf-8") as f:
    text = f.read().split(MARK)[0].rstrip() + "\n\n" + MARK
text += ("\n%d bugs, all caught by the quick check of their property (the id"
         " and what it needs):\n\n" % sum(map(len, rows.values())))
for prop in sorted(rows):
    text += "- **%s**: %s\n" % (prop, "; ".join(rows[prop]))
with open(HERE + "/DESIGN.md", "w", encoding="utf-8") as f:
    f.write(text)

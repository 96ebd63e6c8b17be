"""Write the table of planted bugs into DESIGN.md (between the two markers)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- seeds -->", "<!-- /seeds -->"

rows = ["| bug | caught by | what it breaks | needs |",
        "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", name, "meta.json"),
              encoding="UTF-8") as fd:
        meta = json.load(fd)
    rows.append("| %s | %s | %s | %s |" % (
        name, meta["property"], meta["what_it_breaks"].replace("|", "\\|"),
        meta["needs"].replace("|", "\\|")))

path = os.path.join(ROOT, "DESIGN.md")
with open(path, encoding="UTF-8") as fd:
    text = fd.read()
head, rest = text.split(BEGIN)
tail = rest.split(END)[1]
with open(path, "w", encoding="UTF-8") as fd:
    fd.write(head + BEGIN + "\n" + "\n".join(rows) + "\n" + END + tail)

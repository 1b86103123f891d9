#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    cell = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append("| `%s`: %s | %s | %s |" % (d.name, cell(m["what_it_breaks"]), cell(m["needs"]), m["property"]))
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
p.write_text(s)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
HERE = pathlib.Path(__file__).parent
MISSED = json.loads((HERE / "missed.json").read_text())
rows = ["| bug | caught by | needs | breaks | first missed; led to |", "|---|---|---|---|---|"]
for d in sorted((HERE / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {MISSED.get(d.name, '')} |")
p = HERE / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
p.write_text(s)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only, no check uses it)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs'].replace('|', '/')} | {d.get('caught_by', d['property'])} |")
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
p.write_text(t)

"""The table of planted changes in DESIGN.md (section 6)."""

import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
MISSED = {}
for f in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(f.read_text())
    rows.append(f"| {f.parent.name} | {m['property']} | {m['needs'].replace('|', '/')} | {MISSED.get(f.parent.name, m['property'])} |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
p.write_text(s)

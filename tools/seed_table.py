"""Writes the table of the planted bugs in DESIGN.md (everything after the marker line)."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parents[1]
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
extra = json.loads((V / "tools" / "seed_results.json").read_text())
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} | {extra.get(d.name, 'not run')} |")
p = V / "DESIGN.md"
s = p.read_text()
mark = "<!-- seed table -->"
p.write_text(s[: s.index(mark)] + mark + "\n" + "\n".join(rows) + "\n")

"""Regenerates the planted-change table of DESIGN.md from seeded/*/meta.json and seeded_notes.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent
notes = json.loads((V / "seeded_notes.json").read_text())
rows = ["| change | needs | caught by | first |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    by, how = notes.get(d.name, [m["property"], "caught"])
    rows.append(f"| {d.name} | {m['needs']} | {by} | {how} |")
t = (V / "DESIGN.md").read_text()
a, b = t.index("<!-- table -->") + len("<!-- table -->"), t.index("<!-- end -->")
(V / "DESIGN.md").write_text(t[:a] + "\n" + "\n".join(rows) + "\n" + t[b:])

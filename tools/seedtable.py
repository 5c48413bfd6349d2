"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append((d["property"], m.parent.name, d["needs"], d["what_it_breaks"], d.get("caught", "")))
out = ["| property | planted bug | needs | breaks |", "|---|---|---|---|"]
for p, n, a, b, c in sorted(rows):
    out.append(f"| {p} | `{n}` | {a} | {b}{' — **' + c + '**' if c else ''} |".replace("\n", " "))
t = (root / "DESIGN.md").read_text()
i = t.index("<!-- seeds -->") + len("<!-- seeds -->")
j = t.index("<!-- end of seeds -->")
(root / "DESIGN.md").write_text(t[:i] + "\n" + "\n".join(out) + "\n" + t[j:])
print(len(rows), "planted bugs")

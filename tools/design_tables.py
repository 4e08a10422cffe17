#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
table = "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = root / "DESIGN.md"
s = p.read_text()
p.write_text(re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + table + m[2], s, flags=re.S))

#!/usr/bin/env python3
"""Writes the totals of the last runs (evidence/) into the table of DESIGN.md."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| check | parts | executions | states | transitions | seconds |", "|---|---|---|---|---|---|"]
for i in range(1, 28):
    e = json.loads((root / f"evidence/C{i:02}.json").read_text())
    parts = e["coverage"]["parts"]
    t = lambda k: sum(int(p.get(k) or 0) for p in parts)
    rows.append(f"| C{i:02} | {len(parts)} | {t('executions')} | {t('states')} | {t('transitions')} | {e['wall_s']:.0f} |")
d = root / "DESIGN.md"
s = d.read_text()
new = "<!-- totals -->\n" + "\n".join(rows) + "\n<!-- /totals -->"
s = re.sub(r"<!-- totals -->.*<!-- /totals -->", lambda m: new, s, flags=re.S)
d.write_text(s)

"""Append the table of planted bugs to DESIGN.md (development helper; no check uses it)."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
doc = (root / "DESIGN.md").read_text()
head = doc[: doc.index("## 6. Planted bugs")]
out = [head + "## 6. Planted bugs\n\n`seeded/<id>/` holds each planted change that passes the repository's tests, with its demonstration. \"Caught by\" is the quick tier, seed 1.\n",
       "| change | property | needs | caught by |", "|---|---|---|---|"]
extra = json.loads((root / "dst" / "seedtable.json").read_text()) if (root / "dst" / "seedtable.json").exists() else {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {re.sub(r'[|]', '/', m['needs'])} | {extra.get(d.name, m['property'])} |")
(root / "DESIGN.md").write_text("\n".join(out) + "\n")

"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; arguments: ids that were missed at first."""
import json
import re
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
text = (ROOT / "DESIGN.md").read_text()
stars = set(re.findall(r"(p\d\d-[\w-]+)\*", text)) | set(sys.argv[1:])
rows = {}
for d in sorted((ROOT / "seeded").iterdir()):
    prop = json.loads((d / "meta.json").read_text())["property"]
    rows.setdefault(prop, []).append(d.name + ("*" if d.name in stars else ""))
lines = [f"| {p} | {', '.join(v)} |" for p, v in sorted(rows.items())]
start = text.index("| check | catches |\n|---|---|\n") + len("| check | catches |\n|---|---|\n")
end = start
while text.startswith("| P", end):
    end = text.index("\n", end) + 1
(ROOT / "DESIGN.md").write_text(text[:start] + "\n".join(lines) + "\n" + text[end:])

"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", name, "meta.json")) as f:
        m = json.load(f)
    rows.append(f"| {name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = os.path.join(root, "DESIGN.md")
with open(path) as f:
    text = f.read()
begin, end = "<!-- planted -->\n", "<!-- /planted -->\n"
text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda _: begin + "\n".join(rows) + "\n" + end, text, flags=re.S)
with open(path, "w") as f:
    f.write(text)

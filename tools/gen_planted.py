"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ['| bug | property (caught by its check) | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = (root / 'DESIGN.md').read_text()
t = re.sub(r'(?s)<!-- planted -->.*?<!-- /planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->', t)
(root / 'DESIGN.md').write_text(t)

"""Fill the table of planted bugs in DESIGN.md: python3 -m pbt.gen_seeded"""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ['', '| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f'| {d.name} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} '
                f'| {m.get("caught", m["property"] + " quick")} |')
rows.append('')
text = (root / 'DESIGN.md').read_text()
block = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if 'SEEDED_TABLE' in text:
    text = text.replace('SEEDED_TABLE', block)
else:
    text = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: block, text, flags=re.S)
(root / 'DESIGN.md').write_text(text)

"""Writes /verif/DESIGN.md from tools/design_body.md and the planted bugs."""
import glob, json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| planted bug | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
  m = json.load(open(f))
  rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
s = open(HERE + '/tools/design_body.md').read()
open(HERE + '/DESIGN.md', 'w').write(s.replace('SEEDTABLE', '\n'.join(rows)))

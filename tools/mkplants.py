"""writes the table of planted bugs into DESIGN.md"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = HERE + '/DESIGN.md'
s = open(path).read()
i = s.index('<!-- plants -->')
open(path, 'w').write(s[:i] + '<!-- plants -->\n' + '\n'.join(rows) + '\n')

#!/usr/bin/env python3
"""Keep the table of seeded changes in DESIGN.md in step with /verif/seeded (adds rows that are missing)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
text = open('DESIGN.md').read()
head = '| change | property | needs |\n|---|---|---|\n'
a = text.index(head) + len(head)
b = text.index('\n\n', a) + 1
rows = {re.match(r'\| ([\w-]+)', r).group(1): r for r in text[a:b].splitlines()}
for f in glob.glob('seeded/*/meta.json'):
    name = f.split('/')[1]
    if name not in rows:
        m = json.load(open(f))
        rows[name] = '| %s | %s | %s |' % (name, m['property'], m['needs'])
open('DESIGN.md', 'w').write(text[:a] + ''.join(rows[k] + '\n' for k in sorted(rows)) + text[b:])
print(len(rows), 'rows')

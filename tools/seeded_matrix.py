"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.

The last column is meta.json's "caught_by" (set by hand after running the checks on the change)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '?')} |")
head = "| change | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n"
p = f'{root}/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded table begin -->', '<!-- seeded table end -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n\n' + head + '\n'.join(rows) + '\n\n' + s[j:])

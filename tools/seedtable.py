"""rewrites the table of planted changes in DESIGN.md"""
import json, os
p = '/verif/DESIGN.md'
s = open(p).read()
rows = "| change | property | needs |\n|-|-|-|\n"
for d, k in sorted((d, k) for k in ('seeded', 'planted') for d in os.listdir(f'/verif/{k}')):
    m = json.load(open(f'/verif/{k}/{d}/meta.json'))
    rows += f"| {d} | {m['property']} | {' '.join(m['needs'].split())[:150]} |\n"
a, b = s.index("<!--seeds-->\n") + 13, s.index("<!--/seeds-->")
open(p, 'w').write(s[:a] + rows + s[b:])

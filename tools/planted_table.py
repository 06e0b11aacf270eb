"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
p = '/verif/DESIGN.md'
t = open(p).read()
rows = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['property']} |")
a = t.index('| change | needs | caught by |\n|---|---|---|\n') + len('| change | needs | caught by |\n|---|---|---|\n')
b = t.index('\n\n', a)
t = t[:a] + '\n'.join(rows) + t[b:]
t = re.sub(r'^\d+ changes are kept in', f'{len(rows)} changes are kept in', t, flags=re.M)
open(p, 'w').write(t)

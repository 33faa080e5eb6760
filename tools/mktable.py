"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)"""
import glob, json, os
rows = []
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append((m['property'], f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |"))
s = open('/verif/DESIGN.md').read()
i = s.index('| id | caught by | breaks | needs |')
j = i
for line in s[i:].splitlines(True):
    if not line.startswith('|'):
        break
    j += len(line)
t = '| id | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(r for _, r in sorted(rows)) + '\n'
open('/verif/DESIGN.md', 'w').write(s[:i] + t + s[j:])

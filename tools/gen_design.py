"""DESIGN.md = design.in.md with the table of planted bugs generated from seeded/*/meta.json and known_findings.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json')); rows.append('| %s | %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
kf = json.load(open(V + '/known_findings.json'))['findings']
fx = '\n'.join('| %s | %s | %s |' % (k['property'], k['commit'], k['what'].replace('|', '/')) for k in kf)
s = open(V + '/tools/design.in.md').read().replace('@SEEDS@', '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows)).replace('@FIXES@', '| property | commit | what failed |\n|---|---|---|\n' + fx)
open(V + '/DESIGN.md', 'w').write(s)

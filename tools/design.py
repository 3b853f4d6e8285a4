#!/usr/bin/env python3
"""Renews the generated part of DESIGN.md (planted bugs and findings), below the marker line."""
import glob, json
M = '<!-- generated by tools/design.py -->\n'
s = open('/verif/DESIGN.md').read().split(M)[0]
s += M + '\n## Planted bugs and the checks that catch them\n\nEvery one compiles, passes the stable tests, and was caught by the check of its property in a trial run\n(`tools/seed.py try`, which applies the patch, runs tests, demo and check, and undoes it).\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f)); s += f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
k = [l.strip() for l in open('/verif/known_findings.txt')]
s += '\n## Genuine defects found\n\nRepaired (one `fix:` commit each):\n\n' + ''.join(f"* {l.removeprefix('fixed: property=')}\n" for l in k if l.startswith('fixed:'))
s += '\nKnown findings, not repaired (see the properties above for the reasons):\n\n' + ''.join(f'* {l}\n' for l in k if l.startswith('KF'))
open('/verif/DESIGN.md', 'w').write(s)

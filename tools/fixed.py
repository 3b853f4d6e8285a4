#!/usr/bin/env python3
"""fixed.py Cxx REV...: adds the `fixed:` lines for commits of /repo to known_findings.txt"""
import subprocess, sys
p, f = sys.argv[1], '/verif/known_findings.txt'
s = open(f).read()
for r in sys.argv[2:]:
    for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', r if '..' in r else f'{r}^!'], text=True).splitlines():
        h, m = l.split(' ', 1)
        if h not in s: s += f"fixed: property={p} {h} {m.removeprefix('fix: ')}\n"
open(f, 'w').write(s)

#!/usr/bin/env python3
"""Writes and tries planted bugs.
  from seed import seed; seed(id, prop, [(file, old, new)...], demo_rs, needs, breaks)
  seed.py try ID...        apply to /repo, build, run tests and demo and the property's check, undo
"""
import json, os, subprocess, sys
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# run in /repo after the build: compiles demo.rs against the library that was just built
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$T"' EXIT
L=$(ls -t target/debug/deps/libppt_rs-*.rlib | head -1)
rustc --edition 2021 -Cdebuginfo=0 -Aunused "$D/demo.rs" -o "$T/demo" --extern ppt_rs="$PWD/$L" -L dependency="$PWD/target/debug/deps" || exit 2
cd "$T" && TMPDIR="$T" timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def clean(): sh('git -C /repo checkout -q -- .')
def seed(id, prop, edits, demo, needs, breaks):
    assert sh('git -C /repo status --short -uno').stdout.strip() == '', 'dirty /repo'
    d = f'{V}/seeded/{id}'
    for f, a, b in edits:
        p = f'{R}/{f}'; s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    clean()
    open(d + '/demo.rs', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def trial(id, tests=True):
    d = f'{V}/seeded/{id}'; prop = json.load(open(d + '/meta.json'))['property']
    out = []
    try:
        sh('bash /opt/vp/build.sh')
        r = sh(f'bash {d}/demo.sh', cwd=R); out.append(f'demo clean {r.returncode}')
        if r.returncode: print(r.stdout[-1500:])
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(id, 'does not apply', a.stdout); return
        b = sh('bash /opt/vp/build.sh'); out.append(f'build {b.returncode}')
        if b.returncode: print(b.stdout[-1500:])
        r = sh(f'bash {d}/demo.sh', cwd=R); out.append(f'demo patched {r.returncode}')
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seed.json')
            t = json.load(open('/tmp/seed.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            bad = st - set(t['passed']); out.append(f'stable tests failing {len(bad)} {sorted(bad)[:3]}')
        c = sh(f'python3 {V}/run.py check {prop}', cwd=V)
        out.append(f'check {prop} exit {c.returncode}: ' + ' | '.join(l.strip() for l in c.stdout.splitlines() if 'VIOL' in l or l.startswith('  h_'))[:400])
        if c.returncode == 0: out.append('MISSED ' + ' / '.join(l for l in c.stdout.splitlines() if 'note' in l)[:300])
    finally:
        clean()
    print(id, '; '.join(out), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'try':
        for i in sys.argv[2:]:
            if not i.startswith('-'): trial(i, '--notests' not in sys.argv)
        sh('bash /opt/vp/build.sh')

#!/usr/bin/env python3
"""Runs the solver-based checks.

  run.py setup                     build the engine, the IR dependencies and the replay dependencies
  run.py check C10 [--tier quick|thorough] [--only h_x]
                                   regenerate the IR from /repo, execute the property's harnesses
                                   symbolically, replay counterexamples natively, write evidence
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
ENGINE = os.path.join(V, 'engine/target/release/symex')
CLI_PROPS = {'C14', 'C15', 'C29'}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)


def sh(cmd, cwd, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, base)
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stale(tdir, profile, crate):
    """cargo decides by mtime; a tree whose content changed under an old mtime is cleaned by hand."""
    stamp = os.path.join(B, os.path.basename(tdir) + '.stamp')
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != now:
        for d in glob.glob(os.path.join(tdir, profile, '.fingerprint', 'ppt-rs-*')):
            for f in glob.glob(d + '/*'):
                os.remove(f)
    return stamp, now


def mark(stamp):
    with open(stamp[0], 'w') as f:
        f.write(stamp[1])


def build_engine():
    r = sh(['cargo', 'build', '-q', '--release', '--offline'], os.path.join(V, 'engine'))
    if r.returncode:
        raise SystemExit2('engine does not build:\n' + r.stderr[-3000:])


class SystemExit2(Exception):
    pass


def build_ir(prop, tier):
    f = prop.lower()
    tdir = os.path.join(B, 'hx-cli' if prop in CLI_PROPS else 'hx')
    st = stale(tdir, 'release', 'harness')
    feats = f + (',thorough' if tier == 'thorough' else '') + (',cli' if prop in CLI_PROPS else '')
    # two runs with the same features may find the crate fresh: its IR would be that of the last features built
    ll = os.path.join(tdir, 'release/deps/hx.ll')
    try:
        os.remove(ll)
    except FileNotFoundError:
        pass
    for d in glob.glob(os.path.join(tdir, 'release/.fingerprint/hx-*')):
        for x in glob.glob(d + '/*'):
            os.remove(x)
    r = sh(['cargo', 'rustc', '-q', '--release', '--lib', '--features', feats, '--target-dir', tdir, '--offline', '--', '--emit=llvm-ir', '-Cno-vectorize-loops', '-Cno-vectorize-slp'], os.path.join(V, 'harness'))
    if r.returncode or not os.path.exists(ll):
        raise SystemExit2('harness does not build against /repo:\n' + r.stderr[-4000:])
    mark(st)
    return ll


def build_replay(prop):
    tdir = os.path.join(B, 'replay')
    st = stale(tdir, 'debug', 'replay')
    r = sh(['cargo', 'build', '-q', '--offline', '--features', prop.lower() + (',thorough' if TIER == 'thorough' else ''), '--target-dir', tdir], os.path.join(V, 'replay'))
    if r.returncode:
        raise SystemExit2('replay does not build:\n' + r.stderr[-4000:])
    mark(st)
    return os.path.join(tdir, 'debug/replay')


TIER = 'quick'


def known_findings(prop):
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KF(\d+): property=(C\d+) (.*)', line.strip())
            if m and m.group(2) == prop:
                out[int(m.group(1))] = m.group(3)
    return out


def native(exe, h, inputs):
    scratch = subprocess.run(['mktemp', '-d', '/tmp/symex-replay.XXXXXX'], stdout=subprocess.PIPE, text=True).stdout.strip()
    try:
        r = subprocess.run([exe, h] + [str(x) for x in inputs], cwd=scratch, env=dict(ENV, TMPDIR=scratch), timeout=60, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, out = -1, 'no answer within 60 s'
    finally:
        subprocess.run(['/bin/rm', '-rf', scratch])
    return rc, out


def merge(lines):
    per = {}
    for d in lines:
        h = d['harness']
        a = per.setdefault(h, dict(paths=0, killed=0, instrs=0, forks=0, asserts=0, asserts_sym=0, asserts_solver=0, certified=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0, solver_max_s=0.0, left=0, vars=0, wall=0.0, reach={}, violations=[], incomplete={}, funcs=set(), samples=[]))
        for k in ('paths', 'killed', 'instrs', 'forks', 'asserts', 'asserts_sym', 'asserts_solver', 'certified', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'solver_s', 'left'):
            a[k] += d[k]
        for k in ('solver_max_s', 'vars', 'wall'):
            a[k] = max(a[k], d[k])
        for k in ('reach', 'incomplete'):
            for n, v in d[k].items():
                a[k][n] = a[k].get(n, 0) + v
        a['violations'] += d['violations']
        a['funcs'] |= set(d['funcs'])
        a['samples'] += d['samples']
    return per


def check(prop, tier, only=None, budget=None, verbose=False):
    global TIER
    TIER = tier
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine()
    ll = build_ir(prop, tier)
    tb = time.time() - t0
    out = os.path.join(B, prop + '.jsonl')
    if os.path.exists(out):
        os.remove(out)
    budget = budget or (240 if tier == 'quick' else 3000)
    cmd = [ENGINE, ll, '--out', out, '--time', str(budget), '--jobs', str(os.cpu_count() or 4)] + (only or [])
    rb = {}

    def bg():
        try:
            rb['exe'] = build_replay(prop)
        except BaseException as e:
            rb['err'] = e
    th = threading.Thread(target=bg)
    th.start()
    try:
        r = sh(cmd, V, timeout=budget + 300)
    finally:
        th.join()
    if 'err' in rb:
        raise rb['err']
    exe = rb['exe']
    lines = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    per = merge(lines)
    names = only or sorted(set(re.findall(r'^define [^@]*@(h_c\d\d_\w+)\(', open(ll).read(), re.M)))
    ts = time.time() - t0 - tb
    kfs = known_findings(prop)
    groups = {}
    for h, a in per.items():
        for v in a['violations']:
            groups.setdefault((h, v['kind'], v['msg'], v['kf']), []).append(v)
    violations, spurious, seen_kf = [], [], {}
    unlisted = {k: g for k, g in groups.items() if not (k[3] and k[3] in kfs)}
    for k, g in groups.items():
        if k[3] and k[3] in kfs:
            seen_kf.setdefault(k[3], []).append((k, g[0]))
    nrep = 0
    for k, g in sorted(unlisted.items(), key=lambda x: (x[0][0], x[0][2])):
        hit = None
        for v in g[:6]:
            rc, txt = native(exe, k[0], v['inputs'])
            if rc in (3, 101) or rc < 0:
                hit = (v, rc, txt)
                break
        if hit:
            nrep += 1
            rp = os.path.join(V, 'evidence', 'replay', f'{prop}-{nrep}.json')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump(dict(property=prop, harness=k[0], kind=k[1], message=k[2], inputs=hit[0]['inputs'], stack=hit[0]['stack'], native_exit=hit[1], native_output=hit[2][-2000:], command=f'{exe} {k[0]} ' + ' '.join(map(str, hit[0]['inputs']))), open(rp, 'w'), indent=1)
            violations.append((rp, k, hit[2].strip().splitlines()[-1] if hit[2].strip() else ''))
        else:
            spurious.append((k, g[0]['inputs']))
    kf_lines = []
    for n in sorted(seen_kf):
        ok = any(native(exe, k[0], v['inputs'])[0] in (3, 101) for k, v in seen_kf[n][:4])
        if ok:
            kf_lines.append((n, kfs[n]))
    # passing paths replayed on the natively compiled code: the encoding and the code agree
    validated, disagree = 0, []
    for h, a in per.items():
        for smp in a['samples'][:(2 if len(per) > 12 else 3)]:
            m = re.search(r'witness inputs \[(.*)\]', smp)
            if not m or a['violations']:
                continue
            i = [int(x) for x in m.group(1).split(',') if x.strip()]
            rc, txt = native(exe, h, i)
            if rc == 0 and 'ASSUMPTION-FALSE' not in txt:
                validated += 1
            else:
                disagree.append(f'{h} {i}: exit {rc} {txt.strip()[-120:]}')
    wall = time.time() - t0
    write_evidence(prop, tier, per, names, violations, spurious, kf_lines, tb, ts, wall, validated, disagree)
    tot = lambda k: sum(a[k] for a in per.values())
    print(f'{prop} {tier}: {len(per)} harnesses, {tot("paths")} paths, {tot("instrs")} instructions, {tot("asserts")} assertions ({tot("asserts_sym")} symbolic), {tot("queries")} solver queries ({tot("solver_s"):.1f} s), build {tb:.0f} s, exploration {ts:.0f} s')
    for n in names:
        a = per.get(n)
        if a is None:
            print(f'  note: {n} gave no result')
            continue
        if verbose:
            print(f'  {n}: paths {a["paths"]} killed {a["killed"]} instrs {a["instrs"]} asserts {a["asserts"]}/{a["asserts_sym"]} queries {a["queries"]} solver {a["solver_s"]:.1f}s (max {a["solver_max_s"]:.2f}) wall {a["wall"]:.1f} reach {a["reach"]}')
        if a['left'] or a['incomplete']:
            print(f'  note: {n} not exhausted: {a["left"]} pending states, {a["incomplete"]}')
    for k, i in spurious:
        print(f'  note: counterexample of {k[0]} ({k[2]}) does not reproduce natively: {i}')
    if verbose and r.returncode:
        print(r.stderr[-1500:])
    if verbose and 'ENGINE-BUG' in r.stderr:
        print([l for l in r.stderr.splitlines() if 'ENGINE-BUG' in l][:3])
    print(f'  {validated} passing paths replayed natively')
    for d in disagree:
        print('  note: native run differs from the symbolic one: ' + d)
    for n, t in kf_lines:
        print(f'KNOWN-FINDING: property={prop} {t}')
    for rp, k, last in violations:
        print(f'  {k[0]}: {k[2]} [{last[:200]}]')
        print(f'VIOLATION property={prop} replay={rp}')
    return 1 if violations else 0


def write_evidence(prop, tier, per, names, violations, spurious, kf_lines, tb, ts, wall, validated, disagree):
    tot = lambda k: sum(a[k] for a in per.values())
    meta = json.load(open(os.path.join(V, 'bounds.json'))) if os.path.exists(os.path.join(V, 'bounds.json')) else {}
    m = meta.get(prop, {})
    funcs = sorted({f for a in per.values() for f in a['funcs'] if 'ppt_rs' in f})
    hs = {}
    for n in names:
        a = per.get(n)
        if a is None:
            hs[n] = 'no result'
            continue
        hs[n] = dict(paths=a['paths'], instructions=a['instrs'], assertions=a['asserts'], assertions_over_symbolic_values=a['asserts_sym'], assertions_decided_by_z3=a['asserts_solver'], pruned_branches_certified_by_z3=a['certified'], queries=a['queries'], solver_s=round(a['solver_s'], 2), exhausted=not a['left'] and not a['incomplete'], reach=a['reach'])
        if a['incomplete'] or a['left']:
            hs[n]['not_covered'] = {**a['incomplete'], **({'pending states at the time limit': a['left']} if a['left'] else {})}
    samples = []
    for n, a in per.items():
        for s in a['samples'][:2]:
            samples.append(f'{n}: {s}'[:300])
    for n, a in per.items():
        if not a['samples']:
            samples.append(f'{n}: {a["paths"]} paths, reach {a["reach"]}')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=tot('forks') + tot('paths'), transitions=tot('instrs'), traces_validated_against_impl=validated,
                            paths=tot('paths'), paths_cut_by_assumptions=tot('killed'),
                            rule='a state is a point where a path condition splits or ends; one path condition stands for every input that satisfies it, decided together by z3; a transition is one LLVM instruction executed symbolically; validated traces are witnesses of passing paths run on the natively compiled code',
                            samples=samples[:12] or ['no path'],
                            exhaustive=all(per.get(n) and not per[n]['left'] and not per[n]['incomplete'] for n in names),
                            explanation='symbolic execution of the LLVM IR that rustc emits for /repo, regenerated for this run; path conditions and assertions are discharged by z3 (bit-vectors)',
                            bounds=m.get('bounds', ''), outside=m.get('outside', ''), harnesses=hs,
                            solver=dict(queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), cached=tot('cached'), seconds=round(tot('solver_s'), 2), longest_s=max([a['solver_max_s'] for a in per.values()] or [0])),
                            functions_encoded=funcs[:400], functions_encoded_total=len(funcs), build_s=round(tb, 1), exploration_s=round(ts, 1),
                            known_findings=[t for _, t in kf_lines], not_reproduced=[f'{k[0]}: {k[2]}' for k, _ in spurious], native_differs=disagree[:10]),
              assumptions=m.get('assumptions', []) + [
                  'rustc and its LLVM back end compile the IR faithfully; the engine interprets it faithfully (counterexamples are replayed natively)',
                  'allocation never fails; HashMap hashing is replaced by a constant hash (iteration order is that of insertion collisions)',
              ],
              wall_s=round(wall, 1), violations=len(violations))
    p = os.path.join(V, 'evidence', prop + '.json')
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev['coverage']['functions_encoded'] = [f[-60:] for f in funcs[:150]]
        s = json.dumps(ev, indent=1)
    open(p, 'w').write(s)


def setup():
    os.makedirs(B, exist_ok=True)
    build_engine()
    build_ir('C10', 'quick')
    if os.path.exists(os.path.join(V, 'harness/src/c14.rs')):
        build_ir('C14', 'quick')
    build_replay('C10')
    print('setup done')
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        return setup()
    if a and a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        only = [x for x in a[2:] if x.startswith('h_')] or None
        budget = int(a[a.index('--time') + 1]) if '--time' in a else None
        return check(a[1], tier, only, budget, '-v' in a)
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit2 as e:
        print(e)
        sys.exit(2)

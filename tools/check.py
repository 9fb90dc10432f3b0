#!/usr/bin/env python3
"""check.py Cxx: decides one property on /repo's current tree.

1. proof:   extracts the functions from /repo, splices in the contracts and has
            Verus discharge every obligation the property rests on (proof.py);
2. search:  runs the real crate on generated inputs against an independent
            oracle: it supplies failing inputs, stands in (bounded, labelled so)
            for what the verifier cannot reach, and tests the trusted contracts.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import json, os, subprocess, sys, time, shutil, fcntl, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
PROP = sys.argv[1]
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2: TIER = sys.argv[2]
START = time.time()
TARGET = os.path.join(V, 'target')
BUILD = os.path.join(V, 'build')
BIN = os.path.join(TARGET, 'debug', 'kpdb-harness')
SECS = {'quick': 25, 'thorough': 420}[TIER]
LONG = {'quick': 90, 'thorough': 240}[TIER]

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

def build_harness():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
        r = sh(['cargo', 'build', '--offline', '--manifest-path', os.path.join(V, 'harness/Cargo.toml')], env=env)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print('the harness does not build against /repo', file=sys.stderr)
        sys.exit(2)

def search(secs, seed, first=0, tag='run'):
    """Runs generated cases on the real code. Returns the harness' report."""
    out = os.path.join(BUILD, PROP, tag + '.json')
    save = os.path.join(V, 'replays', PROP)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out): os.unlink(out)
    cmd = [BIN, 'run', PROP, '--seed', str(seed), '--secs', str(secs), '--out', out, '--save', save, '--from', str(first)]
    r = sh(cmd, timeout=secs + 300)
    if os.path.exists(out):
        return json.load(open(out))
    # the process died: find the case one at a time
    prog = os.path.join(BUILD, PROP, 'progress')
    n, t0 = first, time.time()
    while time.time() - t0 < 200:
        r = sh([BIN, 'run', PROP, '--seed', str(seed), '--secs', '150', '--out', out, '--threads', '1',
                '--progress', prog, '--from', str(n)], timeout=500)
        if os.path.exists(out):
            return json.load(open(out))
        k = int(open(prog).read())
        r2 = sh([BIN, 'case', PROP, '--seed', str(seed), '--n', str(k), '--save', save], timeout=200)
        if r2.returncode != 0:
            return dict(property=PROP, seed=seed, wall_s=0, evaluations=k - first, distinct_nontrivial=0, samples=[],
                        found=k, what='the process dies: status %d, %s' % (r2.returncode, r.stderr[-300:]), files=[])
        n = k + 1
    return dict(property=PROP, seed=seed, wall_s=0, evaluations=0, distinct_nontrivial=0, samples=[], found=None,
                what='the harness died without a repeatable case')

def violation(replay, words=''):
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    path = os.path.join(V, 'replays', PROP + '.json')
    json.dump(replay, open(path, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s%s' % (PROP, path, words))

def known():
    """Recorded findings: re-shown, never a reason to fail."""
    f = os.path.join(V, 'known_findings.txt')
    lines = []
    for l in open(f):
        if l.startswith('finding: property=%s ' % PROP):
            lines.append(l[len('finding: '):].strip())
    out = []
    for l in lines:
        if 'deep-nesting' in l:
            r = sh([BIN, 'deep', '100000'], timeout=120)
            if r.returncode == 0: continue
            print('KNOWN-FINDING: ' + l)
            out.append(l)
    return out

def main():
    try:
        import proof
    except ImportError:
        proof = None
    os.makedirs(os.path.join(BUILD, PROP), exist_ok=True)
    P = proof.run(PROP, TIER) if proof else dict(status='none', obligations=0, discharged=0, functions=[], trusted=[], unproved=[], dropped=[])
    build_harness()
    for l in P.get('log', []): print(l)
    R = search(SECS, SEED)
    viol = 0
    if R['found'] is None and P['status'] in ('failed', 'undecided'):
        print('an obligation failed; searching longer for an input that shows it' if P['status'] == 'failed'
              else 'the proof is undecided; searching longer')
        R2 = search(LONG, SEED + 1000003, tag='long')
        for k in ('evaluations', 'distinct_nontrivial'): R2[k] += R[k]
        R2['samples'] = R['samples']
        R = R2
    if R['found'] is not None:
        viol = 1
        violation(dict(property=PROP, kind='failing input', what=R['what'], seed=R['seed'], case=R['found'], files=R.get('files', []),
                       command='%s case %s --seed %d --n %d' % (BIN, PROP, R['seed'], R['found']),
                       failed_obligations=P.get('failed', [])))
        print(R['what'])
    elif P['status'] == 'failed':
        viol = 1
        violation(dict(property=PROP, kind='failed obligation', obligations=P['failed'], verifier_output=P.get('output', ''),
                       command=P.get('checker_cmd', '')), ' no-failing-input-found')
        for f in P['failed']: print(f)
    # samples of what the contracts assume about the crates /repo uses
    out = os.path.join(BUILD, PROP, 'assumed.json')
    if os.path.exists(out): os.unlink(out)
    sh([BIN, 'run', 'T00', '--seed', str(SEED), '--secs', str({'quick': 2, 'thorough': 30}[TIER]), '--out', out], timeout=300)
    T = json.load(open(out)) if os.path.exists(out) else dict(evaluations=0, distinct_nontrivial=0, found=None)
    if T['found'] is not None:
        print('an assumption about a crate does not hold: ' + T['what'])
    kf = known()
    import levels
    lv = levels.LEVEL[PROP]
    proved = P['status'] in ('proved', 'failed') and T['found'] is None
    level = lv['level'] if proved else 'exploration'
    cov = dict(
        evaluations=R['evaluations'], distinct_nontrivial=R['distinct_nontrivial'],
        rule=lv['rule'], samples=R['samples'] or ['none'],
    )
    if proved:
        cov.update(obligations=P['obligations'], discharged=P['discharged'], checker_cmd=P['checker_cmd'], trusted_base=P['trusted'],
                   functions_under_contract=P['functions'], functions_not_proved_this_run=P['unproved'], solver=P.get('solver', {}),
                   vacuity=P.get('vacuity', {}), extraction_drops=P['dropped'])
    elif proof:
        cov.update(proof_status=P['status'], proof_note=P.get('note', ''))
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - START, 2),
              assumptions=lv['assumptions'] + P.get('assumptions', []), violations=viol)
    ev['coverage']['assumed_contracts_sampled'] = dict(cases=T['evaluations'], kinds=T['distinct_nontrivial'],
        what='xml-rs, rust-crypto, base64, hex, flate2, chrono, uuid, byteorder and std::io, each against what contracts/prelude.rs assumes of it',
        refuted=T.get('what') if T['found'] is not None else None)
    if kf: ev['coverage']['known_findings_seen'] = kf
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', PROP + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: proof %s (%d of %d obligations), %d cases run, %.0f s' %
          (PROP, P['status'], P['discharged'], P['obligations'], R['evaluations'], time.time() - START))
    sys.exit(1 if viol else 0)
main()

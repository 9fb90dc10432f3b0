"""Deductive part: extract /repo's functions with their contracts, run Verus,
say for one property whether every obligation it rests on was discharged.

Outcome per function under contract:
  proved      Verus accepted the body against the contract
  failed      a named obligation was refused although the function still has the
              shape (loops, closures, anchors, callees) its contract was written for
  undecided   it could not be checked this run: outside Verus' language, an anchor
              or loop of the contract is gone, a new helper without contract is
              called, or the solver gave up. Never a violation by itself; the
              bounded search decides.
"""
import json, os, re, subprocess, time, fcntl, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'
TARGET = os.path.join(V, 'target')
EXTRACT = os.path.join(TARGET, 'release', 'extract')
VERUS = ['verus', '--multiple-errors', '20', '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json']
# Two solver configurations: the document reader's functions (a struct of 31 fields
# behind &mut) do well with case splits in the default order, all others with Z3's
# relevancy order. What a function is refused under its own configuration is tried
# once more under the other; an obligation is discharged if either run accepts it.
FAST, SLOW = ['--smt-option', 'smt.case_split=0'], []
APART = ('format::kdb2_xml_reader',)
BASE = os.path.join(V, 'contracts', 'baseline.json')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['cargo', 'build', '--offline', '--quiet', '--release', '--manifest-path', os.path.join(V, 'extract/Cargo.toml')],
               env=dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true'))
    if r.returncode: raise RuntimeError('the extractor does not build: ' + r.stderr[-2000:])

def extract(d, stubs, reach=False):
    env = dict(os.environ, STUB_UNLISTED='1')
    if reach: env['REACH'] = '1'
    if os.path.exists(BASE):
        env['NAMES'] = os.path.join(d, 'names')
        with open(env['NAMES'], 'w') as f:
            for n, b in json.load(open(BASE)).items(): f.write(n + '\t' + ' '.join(b.get('names', [])) + '\t' + '\x01'.join(b.get('heads', [])) + '\n')
    k, j = os.path.join(d, 'k.rs'), os.path.join(d, 'k.json')
    for f in (k, j):
        if os.path.exists(f): os.unlink(f)
    cmd = [EXTRACT, SRC, os.path.join(V, 'contracts'), os.path.join(V, 'contracts/prelude.rs'), k, j]
    if stubs: cmd += ['--stub', ','.join(sorted(stubs))]
    r = sh(cmd, env=env)
    if r.returncode or not os.path.exists(j): raise RuntimeError('extraction fails: ' + r.stderr[-1500:])
    return json.load(open(j))

# Modules of lemmas about the contracts only, and the properties that rest on them.
LEMMAS = {'roundtrip': ('C01', 'C08', 'C14', 'C18'), 'order': ('C18',)}

def groups(d, prop=None):
    """The modules of k.rs, as verus options: those checked apart, and all others."""
    tops, subs = [], {}
    for l in open(os.path.join(d, 'k.rs')):
        m = re.match(r'pub mod (\w+) \{ // (\S+)', l)
        if not m: continue
        f = m.group(2)
        if f == m.group(1) + '.rs' or f == m.group(1) + '/mod.rs': tops.append(m.group(1))
        else: subs.setdefault(f.rsplit('/', 1)[0], []).append(m.group(1))
    apart = [x for x in APART if x.split('::')[1] in subs.get(x.split('::')[0], [])]
    rest = ['--verify-root', '--verify-module', 'vx']
    for x in tops:
        if any(a.startswith(x + '::') for a in apart):
            rest += ['--verify-only-module', x]
            for s in subs.get(x, []):
                if prop and any(s.startswith(k) and prop not in v for k, v in LEMMAS.items()): continue
                if x + '::' + s not in apart: rest += ['--verify-module', x + '::' + s]
        else: rest += ['--verify-module', x]
    return [y for x in apart for y in ('--verify-only-module', x)], rest

def verus1(d, extra, timeout):
    try:
        r = sh(VERUS + list(extra) + ['k.rs'], cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], 'timeout'
    errs = []
    for l in r.stderr.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('level') in ('error', 'error: internal compiler error') and e.get('spans'):
            errs.append(e)
        elif e.get('level', '').startswith('error') and not e['message'].startswith(('aborting', 'could not')):
            errs.append(e)
    try: res = json.loads(r.stdout)
    except ValueError: res = None
    return res, errs, r.stderr

def verus(d, timeout=400, other=False, prop=None):
    a, b = groups(d, prop)
    ways = [(a, FAST), (b, SLOW)] if not other else [(a, SLOW), (b, FAST)]
    ways = [(m, w) for m, w in ways if m]
    out = [None] * len(ways)
    def go(i): out[i] = verus1(d, ways[i][0] + ways[i][1] + ['--num-threads', '6'], timeout)
    th = [threading.Thread(target=go, args=(i,)) for i in range(len(ways))]
    for x in th: x.start()
    for x in th: x.join()
    errs, seen = [], set()
    for o in out:
        for e in o[1]:
            k = (e['message'], json.dumps(e.get('spans')))
            if k not in seen: seen.add(k); errs.append(e)
    raw = '\n'.join(o[2] for o in out)
    if any(o[0] is None for o in out): return None, errs, raw
    if any('verified' not in o[0].get('verification-results', {}) for o in out):
        return next(o[0] for o in out if 'verified' not in o[0].get('verification-results', {})), errs, raw
    res = out[0][0]
    for o in out[1:]:
        for k in ('verified', 'errors'): res['verification-results'][k] += o[0]['verification-results'][k]
        if o[0]['verification-results'].get('encountered-vir-error'): res['verification-results']['encountered-vir-error'] = True
        try: res['times-ms']['smt']['total'] += o[0]['times-ms']['smt']['total']
        except (KeyError, TypeError): pass
    return res, errs, raw

def where(info, e):
    """The functions the spans of a message lie in (primary span first)."""
    sp = sorted(e['spans'], key=lambda s: not s['is_primary'])
    out = []
    for s in sp:
        if not s['file_name'].endswith('k.rs'): continue
        for f in info['fns']:
            a, b = f['lines']
            if a <= s['line_start'] <= b and f not in out: out.append(f)
    return out

PROOF_MSG = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
             'possible arithmetic', 'possible division', 'decreases not satisfied', 'could not prove termination', 'loop invariant',
             'possible bit shift', 'unreachable', 'requirement not met', 'cannot show')
GIVE_UP = ('rlimit', 'Resource limit', 'timed out', 'canceled')

def trusted_list():
    """What the prelude and the contracts assume."""
    out = []
    files = ['prelude.rs'] + sorted(f for f in os.listdir(os.path.join(V, 'contracts')) if f.endswith('.vc'))
    for fn in files:
        t = open(os.path.join(V, 'contracts', fn)).read()
        n = dict(external_body=len(re.findall(r'verifier::external_body', t)), axioms=len(re.findall(r'\baxiom fn\b', t)),
                 assume_specification=len(re.findall(r'\bassume_specification\b', t)), uninterp=len(re.findall(r'\buninterp spec fn\b', t)),
                 assume=len(re.findall(r'\bassume\(|\badmit\(', t)), nodec=len(re.findall(r'exec_allows_no_decreases_clause', t)))
        if any(n.values()): out.append('%s: %s' % (fn, ', '.join('%d %s' % (v, k) for k, v in n.items() if v)))
    return out

def lemmas(d, prop):
    out = []
    t = open(os.path.join(d, 'k.rs')).read().splitlines()
    for i, l in enumerate(t):
        m = re.match(r'\s*pub (broadcast )?proof fn (\w+)', l)
        if m:
            c = ' '.join(t[max(0, i - 3):i])
            if re.search(r'///[^/]*\b%s\b' % prop, c): out.append(m.group(2))
    return out

def run(prop, tier):
    t0 = time.time()
    d = os.path.join(V, 'build', prop, 'proof')
    os.makedirs(d, exist_ok=True)
    none = dict(status='undecided', obligations=0, discharged=0, functions=[], trusted=[], unproved=[], dropped=[], failed=[], log=[])
    try:
        build()
        base = json.load(open(BASE))
        stubs, why, log = set(), {}, []
        res = errs = raw = info = None
        for rnd in range(12):
            info = extract(d, stubs)
            res, errs, raw = verus(d, prop=prop)
            if res is None and not errs: return dict(none, note='Verus gives no answer: ' + raw[-600:])
            bad = [e for e in errs if not e['message'].startswith(PROOF_MSG) and not any(g in e['message'] for g in GIVE_UP)]
            vr = (res or {}).get('verification-results', {})
            # (a compile error ends the run before anything is verified)
            vir = vr.get('encountered-vir-error') or not vr.get('verified') and not vr.get('errors')
            if not vir or not errs: break
            new = set()
            for e in (bad or errs):
                fs = [f for f in where(info, e) if f['status'] in ('verified', 'lost')]
                for f in fs[:1]:
                    new.add(f['name'])
                    why[f['name']] = e['message'].splitlines()[0][:200]
            if not new - stubs:
                return dict(none, note='outside the verifier: ' + '; '.join(e['message'].splitlines()[0] for e in (bad or errs)[:4]))
            stubs |= new
        else:
            return dict(none, note='still outside the verifier after stubbing ' + ', '.join(sorted(stubs)))
    except Exception as x:
        return dict(none, note=str(x)[-1500:])

    if errs:
        try:
            # (without the modules of lemmas, unless one of them was refused)
            r2, e2, _ = verus(d, other=True, prop='-' if all(where(info, e) or e['message'].startswith('aborting') for e in errs) else prop)
            if r2 and 'verified' in r2.get('verification-results', {}):
                def places(e): return {f['name'] for f in where(info, e)} or {e['message'].splitlines()[0] + str(sorted(s['line_start'] for s in e['spans']))}
                still = set().union(*[places(e) for e in e2]) if e2 else set()
                before = len(errs)
                errs = [e for e in errs if e['message'].startswith('aborting') or places(e) & still]
                if len(errs) < before: log.append('accepted by the second solver configuration: %d messages of the first' % (before - len(errs)))
        except Exception as x: log.append('second solver run: %s' % x)
    known = {f for f in base}
    unlisted = {f['name'].split('::')[-1] for f in info['fns'] if f['name'] not in known}
    gone = [n for n in base if base[n]['status'] == 'verified' and n not in {f['name'] for f in info['fns']}]
    by = {f['name']: f for f in info['fns']}
    state = {}
    for f in info['fns']:
        if f['status'] in ('verified', 'lost'): state[f['name']] = 'proved'
    for n in stubs: state[n] = 'undecided'
    failed, outside = [], []
    for e in errs:
        if e['message'].startswith('aborting'): continue
        fs = where(info, e)
        if not fs:
            outside.append(e['message'].splitlines()[0]); continue
        giveup = any(g in e['message'] for g in GIVE_UP)
        # the function whose body is being checked
        body = fs[0]
        if e['message'].startswith(('precondition', 'requirement')) or len(fs) > 1:
            # primary span is the call for preconditions; spans in the callee's contract name the clause
            inb = [f for f in fs if f['status'] in ('verified', 'lost')]
            body = inb[0] if inb else fs[0]
            prim = [s for s in e['spans'] if s['is_primary']]
            for f in fs:
                if f['status'] in ('verified', 'lost') and any(f['lines'][0] <= s['line_start'] <= f['lines'][1] for s in prim): body = f; break
        n = body['name']
        b = base.get(n)
        reason = None
        if giveup: reason = 'the solver gave up'
        elif not e['message'].startswith(PROOF_MSG): reason = 'outside the verifier: ' + e['message'].splitlines()[0][:200]
        elif body['status'] == 'lost': reason = 'anchors of its contract are gone: ' + body['note']
        elif b is None: reason = 'not in the baseline'
        elif b['skel'] != body['skel']: reason = 'its loops or closures changed (%s, was %s)' % (body['skel'], b['skel'])
        elif set(body['calls']) & unlisted: reason = 'it calls the new function ' + ', '.join(sorted(set(body['calls']) & unlisted))
        elif set(body['calls']) & {s.split('::')[-1] for s in stubs}: reason = 'it calls a function that could not be checked'
        if reason:
            state[n] = 'undecided'; why[n] = reason
            continue
        if state.get(n) == 'undecided': continue
        state[n] = 'failed'
        # which clause, whose property
        tags, clause = None, ''
        for s in e['spans']:
            for f in info['fns']:
                for ln, txt, pr in f['clauses']:
                    if s['line_start'] <= ln <= s['line_end']:
                        clause = txt
                        if pr and f is body: tags = pr
        props = tags or body['props']
        at = [s for s in e['spans'] if s['is_primary']] or e['spans']
        failed.append(dict(function=n, file=body['file'], line=body['line'], obligation=e['message'].splitlines()[0], clause=clause,
                           text=' | '.join(t['text'].strip() for s in e['spans'] for t in s['text'][:2])[:400], properties=props))
    # a lemma that no longer holds depends on constants of the code, or on nothing: undecided
    mine = [f for f in info['fns'] if prop in f['props'] and (f['status'] in ('verified', 'lost') or f['name'] in stubs)]
    fm = [x for x in failed if prop in x['properties']]
    unproved = [dict(function=f['name'], reason=why.get(f['name'], '')) for f in mine if state.get(f['name']) == 'undecided']
    unproved += [dict(function=n, reason='no longer there') for n in gone if prop in base[n]['props']]
    omitted = [dict(function=f['name'], reason=f['note'] or 'outside the verifier\'s reach; bounded search only') for f in info['fns']
               if prop in f['props'] and f['status'] in ('omitted', 'dropped', 'trusted')]
    lem = lemmas(d, prop)
    def weight(f): return 1 + len([c for c in f['clauses'] if not c[1].strip() in ('ensures', 'requires')])
    ob = sum(weight(f) for f in mine) + len(lem)
    dis = sum(weight(f) for f in mine if state.get(f['name']) == 'proved') + (0 if outside else len(lem))
    if fm:
        for x in {x['function'] for x in fm}: dis += max(0, weight(by[x]) - len([y for y in fm if y['function'] == x]))
    vr = (res or {}).get('verification-results', {})
    times = (res or {}).get('times-ms', {})
    vac = {}
    if tier == 'thorough' and not fm:
        vac = reach(prop, d, stubs, info)
    status = 'failed' if fm else ('undecided' if (outside or unproved or not mine) else 'proved')
    for u in unproved: log.append('not proved this run: %s (%s)' % (u['function'], u['reason']))
    for o in outside: log.append('not proved this run: ' + o)
    return dict(status=status, obligations=ob, discharged=dis,
                functions=['%s (%s:%d): %s' % (f['name'], f['file'], f['line'], state.get(f['name'])) for f in mine] + ['lemma ' + l for l in lem],
                trusted=trusted_list() + ['extraction rule ' + x for x in info['rules']] +
                        ['contract assumed, body not verified: %s (%s)' % (o['function'], o['reason']) for o in omitted],
                unproved=unproved + omitted, dropped=info['drops'],
                checker_cmd='verus --multiple-errors 20 --triggers-mode silent build/%s/proof/k.rs, format::kdb2_xml_reader with --smt-option smt.case_split=0 (extracted from /repo/src by target/release/extract)' % prop,
                solver=dict(back_end='Verus %s with its Z3' % ((res or {}).get('verus', {}).get('version', '?')),
                            verified_items_whole_crate=vr.get('verified'), errors_whole_crate=vr.get('errors'),
                            smt_ms=times.get('smt', {}).get('total') if isinstance(times.get('smt'), dict) else times.get('smt'),
                            wall_s=round(time.time() - t0, 1)),
                vacuity=vac, failed=['%(function)s (%(file)s:%(line)d): %(obligation)s: %(clause)s %(text)s' % x for x in fm],
                output=json.dumps(fm), every=failed, states=state, why=why, log=log, note='; '.join(outside),
                assumptions=[])

def reach(prop, d, stubs, info):
    """assert(false) put at the start of every body and loop must be refused everywhere."""
    d2 = os.path.join(d, 'reach')
    os.makedirs(d2, exist_ok=True)
    try:
        extract(d2, stubs, reach=True)
        res, errs, raw = verus(d2, prop=prop)
    except Exception as x:
        return dict(error=str(x)[-300:])
    t = open(os.path.join(d2, 'k.rs')).read().splitlines()
    want = {i + 1 for i, l in enumerate(t) if '/*REACH*/' in l}
    got = {s['line_start'] for e in errs if e['message'].startswith('assertion failed') for s in e['spans']}
    return dict(points=len(want), refused=len(want & got), vacuous=[t[x - 3].strip()[:80] for x in sorted(want - got)][:10])

def baseline():
    build()
    d = os.path.join(V, 'build', 'baseline')
    os.makedirs(d, exist_ok=True)
    if os.path.exists(BASE): os.unlink(BASE)
    info = extract(d, set())
    json.dump({f['name']: dict(skel=f['skel'], status=f['status'], props=f['props'], names=f['names'], heads=f['heads']) for f in info['fns']}, open(BASE, 'w'), indent=0, sort_keys=True)
    print(len(info['fns']), 'functions')

if __name__ == '__main__':
    import sys
    if sys.argv[1] == 'baseline': baseline()
    else:
        r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick')
        print(json.dumps(r, indent=1))

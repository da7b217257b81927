#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property-id>

1. builds the obligation harness (/verif/checks) against /repo's current working tree and runs
   it: contracts of the real, compiled, generic code instantiated with traced field elements;
2. where the property has Verus units, extracts the named functions from /repo's current source
   (tools/extract), attaches the contracts and lets Verus discharge every obligation;
3. writes evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines.
"""
import json, os, subprocess, sys, time, threading
V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get('VERIF_TARGET') or os.path.join(V, 'target')
sys.path.insert(0, os.path.join(V, 'tools'))
import table

def known():
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l[len('finding:'):].split(' | ')[0].split() if '=' in x)
                key = l.split('key=<', 1)[1].split('>', 1)[0]
                what = l.split('>', 1)[1].strip(' |')
                out[(f['property'], key)] = what
    return out

def env():
    e = dict(os.environ)
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True)
    if r.returncode == 0:
        for kv in r.stdout.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                e[k.decode()] = v.decode(errors='replace')
    for k in ('VERIF_SEED', 'VERIF_TIER', 'VERIF_BUDGET'):
        if k in os.environ:
            e[k] = os.environ[k]
    e['CARGO_TARGET_DIR'] = TARGET
    e.pop('RUSTFLAGS', None)
    return e

def main():
    pid = sys.argv[1]
    t0 = time.time()
    spec = table.CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    e = env()
    e['VERIF_SEED'] = str(seed)
    e['VERIF_TIER'] = tier
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    vres = {}
    th = None
    if spec.get('verus'):
        import verusrun
        def go():
            try:
                vres['r'] = verusrun.run(spec['verus'], V, e)
            except Exception as ex:
                import traceback
                vres['r'] = {'units': [], 'error': traceback.format_exc()}
        th = threading.Thread(target=go)
        th.start()
    # harness
    H = {'obligations': [], 'violations': [], 'notes': [], 'paths': 0, 'conditions': 0, 'samples': [], 'shapes': []}
    if spec.get('features') is not None:
        cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(V, 'checks', 'Cargo.toml'), '--features', ' '.join(spec['features'])]
        r = subprocess.run(cmd, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:])
            print('ERROR: the obligation harness does not build against /repo (lost anchor); no verdict')
            return 2
        out = os.path.join(TARGET, pid + '.json')
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run([os.path.join(TARGET, 'debug', 'vchecks'), pid, out], env=e, capture_output=True, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            print('ERROR: the harness did not finish')
            return 2
        if not os.path.exists(out):
            sys.stderr.write(r.stderr[-4000:])
            print('ERROR: the harness gave no result (exit %s)' % r.returncode)
            return 2
        H = json.load(open(out))
        if H.get('harness_panic'):
            H['violations'].append({'obligation': 'the code under contract does not panic on honest inputs', 'key': 'panic', 'shape': (H['shapes'] or [''])[-1], 'detail': H['harness_panic'], 'seed': seed})
    if th:
        th.join()
    viol = []
    for v in H['violations']:
        v['kind'] = 'failing-input'
        viol.append(v)
    vunits = []
    if th:
        R = vres['r']
        if R.get('error'):
            H['notes'].append('verus step unavailable: ' + R['error'][-600:])
        vunits = R['units']
        for u in vunits:
            H['notes'] += u.get('notes', [])
            for f in u['failed']:
                viol.append({'obligation': f['name'], 'key': f['name'], 'shape': 'all sizes (Verus)', 'detail': f['output'], 'kind': 'proof', 'unit': u['name'], 'seed': seed})
    kf = known()
    new, old = [], {}
    for v in viol:
        k = (pid, v['key'])
        if k in kf:
            old[k] = kf[k]
        else:
            new.append(v)
    for (p, k), what in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (p, what))
    tot = sum(o['instances'] for o in H['obligations'])
    dis = sum(o['discharged'] for o in H['obligations'])
    vtot = sum(u['obligations'] for u in vunits)
    vdis = sum(u['discharged'] for u in vunits)
    by = {}
    for o in H['obligations']:
        for k, n in o['by'].items():
            by[k] = by.get(k, 0) + n
    byname = {'Normal': 'polynomial normal form (exact, fixed shape)', 'Pit': 'polynomial identity at a random point of the path (error < 2^-200, fixed shape, bounded)', 'Ground': 'complete evaluation / ground run (bounded)', 'Rank': 'Jacobian rank at a random point (bounded)', 'Det': 'uniqueness propagation over the emitted constraints (exact, fixed shape)'}
    cov = {
        'obligations': vtot + by.get('Normal', 0) + by.get('Det', 0),
        'discharged': (vdis + by.get('Normal', 0) + by.get('Det', 0)) if not new else max(0, vdis + by.get('Normal', 0) + by.get('Det', 0) - len(new)),
        'checker_cmd': 'python3 run.py ' + pid,
        'trusted_base': table.TRUSTED + spec.get('trusted', []),
        'explanation': spec['explanation'],
        'verus': [{k: u[k] for k in ('name', 'functions', 'obligations', 'discharged', 'solver_s', 'status', 'drops', 'assumptions')} for u in vunits],
        'harness_obligation_instances': tot,
        'harness_instances_discharged': dis,
        'discharged_by': {byname.get(k, k): n for k, n in by.items()},
        'contracts': H['obligations'],
        'bounded_shapes': H['shapes'][:80],
        'paths': H['paths'],
        'branch_conditions_seen': H['conditions'],
        'functions_under_contract': spec.get('functions', []),
        'samples': H['samples'],
        'notes': H['notes'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': table.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    # vacuity guard
    if not new and (tot == 0 and vtot == 0):
        print('ERROR: no obligation was generated')
        return 2
    miss = [n for n in spec.get('require', []) if not any(n in o['name'] for o in H['obligations'])]
    if miss and not new:
        print('ERROR: contracts without any obligation: %s' % miss)
        return 2
    if new:
        new.sort(key=lambda v: v['kind'] != 'failing-input')
        rp = os.path.join(V, 'replay', '%s.json' % pid)
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s' % (seed, tier, pid), 'violations': new}, open(rp, 'w'), indent=1)
        v = new[0]
        print('failed obligation: %s [%s]\n  %s' % (v['obligation'], v.get('shape'), str(v['detail'])[:1500]))
        suffix = '' if v['kind'] == 'failing-input' else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, suffix))
        return 1
    print('OK %s: %d contract obligations by Verus, %d/%d harness obligation instances, %d paths, %.1fs' % (pid, vdis, dis, tot, H['paths'], time.time() - t0))
    return 0
sys.exit(main())

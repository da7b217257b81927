#!/usr/bin/env python3
"""Deductive verification of functions extracted from /repo's current source.

A unit (verus/<unit>.vspec) lists functions of /repo with their contracts.  Every run
  1. extract/ (syn) parses /repo's source and prints each function body in Verus' dialect,
  2. the contracts, invariants and hints of the unit are attached at structural anchors,
  3. Verus discharges every obligation; a second file (the same contracts, bodies `assert(false)`)
     must fail everywhere: that is the vacuity guard.
A function that cannot be extracted, whose signature or loop structure no longer matches, or that
Verus cannot process is a lost anchor: its contract is not decided (noted, never an alarm).
"""
import json, os, re, subprocess, sys, time, difflib, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ring
REPO = os.environ.get('VERIF_REPO', '/repo')

OBLIG = [
    (re.compile(r'postcondition not satisfied'), 'postcondition'),
    (re.compile(r'precondition not (satisfied|met)'), 'precondition'),
    (re.compile(r'invariant not satisfied|loop invariant not'), 'loop invariant'),
    (re.compile(r'assertion failed'), 'assertion'),
    (re.compile(r'possible arithmetic (under|over)flow|underflow/overflow'), 'arithmetic overflow'),
    (re.compile(r'possible division by zero'), 'division by zero'),
    (re.compile(r'possible bit shift'), 'bit shift range'),
    (re.compile(r'decreases not satisfied'), 'termination'),
    (re.compile(r'unreachable'), 'unreachable code'),
    (re.compile(r'recommendation not met'), None),
]
RLIMIT = re.compile(r'[Rr]esource limit|rlimit|timed? ?out|did not complete')

def parse_unit(V, name, cache={}):
    if name in cache:
        return cache[name]
    u = {'name': name, 'prelude': [], 'types': {}, 'text': [], 'fns': [], 'assume': [], 'cfg': {}, 'items': []}
    cur = None      # current function
    sink = None     # list of lines being filled
    for raw in open(os.path.join(V, 'verus', name + '.vspec')):
        l = raw.rstrip('\n')
        if l.startswith('@#'):
            continue
        if not l.startswith('@'):
            if sink is not None:
                sink.append(l)
            continue
        w = l[1:].split(None, 1)
        k, a = w[0], (w[1] if len(w) > 1 else '')
        sink = None
        if k == 'unit':
            pass
        elif k == 'prelude':
            u['prelude'] += a.split()
        elif k == 'types' and cur is None:
            for x in a.split(' ; '):
                s, t = x.split('=', 1)
                u['types'][s.strip()] = t.strip()
        elif k == 'text':
            sink = []
            u['text'].append(sink)
        elif k == 'include':
            u['text'].append(open(os.path.join(V, 'verus', 'lib', a)).read().split('\n'))
        elif k == 'ring':
            u['text'].append(ring.lemma(a).split('\n'))
        elif k == 'stubs':
            # contracts of another unit's functions, relied on here and discharged there
            un, ids = a.split()[0], a.split()[1:]
            su = parse_unit(V, un)
            for f in su['fns']:
                if ids and f['id'] not in ids:
                    continue
                u['text'].append((f['wrap'].split('\n') if f['wrap'] else []) + ['#[verifier::external_body]'] + f['header'] + ['{ unimplemented!() }'] + (['}'] if f['wrap'] else []))
            u['assume'].append('contracts discharged in the unit %s: %s' % (un, ', '.join(ids) if ids else 'all of its functions'))
        elif k == 'assume':
            u['assume'].append(a)
        elif k == 'item':
            u['items'].append(tuple(a.split()))
        elif k == 'fn':
            cur = {'id': a, 'name': a, 'file': '', 'impl': '', 'at': {}, 'cfg': {'types': dict(u['types']), 'refs': [], 'vals': [], 'slices': [], 'methods': dict(u['cfg'].get('methods', {})), 'calls': dict(u['cfg'].get('calls', {})), 'ops': dict(u['cfg'].get('ops', {})), 'macros': dict(u['cfg'].get('macros', {})), 'scalar': u.get('scalar', ['F']), 'circuit': u.get('circuit', False), 'arrays': u.get('arrays', False), 'assign': u.get('assign', False), 'clones': u.get('clones', False), 'inline': u.get('inline', False), 'lazy': list(u.get('lazy', [])), 'cs': ['cs']}, 'header': [], 'wrap': '', 'public': True}
            u['fns'].append(cur)
        elif k in ('method', 'call', 'op', 'macro'):
            s, t = a.split(None, 1)
            kk = {'method': 'methods', 'call': 'calls', 'op': 'ops', 'macro': 'macros'}[k]
            if cur is None:
                u['cfg'].setdefault(kk, {})[s] = t
            else:
                cur['cfg'][kk][s] = t
        elif k == 'from':
            un, fn = a.split('.')
            if un == name:
                src = [f for f in u['fns'] if f['id'] == fn][0]
            else:
                src = [f for f in parse_unit(V, un)['fns'] if f['id'] == fn][0]
            keep = cur['id']
            types = dict(cur['cfg']['types'])
            new = json.loads(json.dumps(src))
            new['id'] = keep
            new['cfg']['types'].update(types)
            cur.clear()
            cur.update(new)
        elif k == 'closure':
            cur['closure'] = int(a)
        elif k in ('file', 'impl', 'name', 'wrap'):
            cur[k] = a
        elif k == 'type':
            s, t = a.split('=', 1)
            (u['types'] if cur is None else cur['cfg']['types'])[s.strip()] = t.strip()
        elif k in ('refs', 'vals', 'slices'):
            cur['cfg'][k] += a.split()
        elif k == 'selfarg':
            cur['cfg']['selfarg'] = a
        elif k == 'circuit':
            u['circuit'] = True
        elif k in ('arrays', 'assign', 'clones', 'inline'):
            u[k] = True
        elif k == 'lazy':
            u.setdefault('lazy', []).extend(a.split())
        elif k == 'scalar':
            u['scalar'] = a.split()
        elif k == 'header':
            sink = cur['header'] = []
        elif k == 'inv':
            sink = cur['at'].setdefault('inv' + a, [])
        elif k == 'at':
            sink = cur['at'].setdefault(a, [])
        elif k == 'cl':
            sink = cur['at'].setdefault('cl' + a, [])
        elif k == 'reset':
            cur['at'].pop(a, None)
        else:
            raise Exception('%s: @%s' % (name, k))
    cache[name] = u
    return u

def build_extractor(V, env):
    t = os.environ.get('VERIF_TARGET') or os.path.join(V, 'target')
    e = dict(env)
    e['CARGO_TARGET_DIR'] = os.path.join(t, 'ext')
    r = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(V, 'extract', 'Cargo.toml')], env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise Exception('extractor: ' + r.stderr[-2000:])
    return os.path.join(t, 'ext', 'debug', 'vextract')

def extract(binp, fns, renames=None):
    q = {'fns': [{'id': f['id'], 'file': os.path.join(REPO, f['file']), 'impl': f['impl'], 'name': f['name'], 'closure': f.get('closure'), 'cfg': f['cfg'], 'rename': (renames or {}).get(f['id'], [])} for f in fns]}
    r = subprocess.run([binp], input=json.dumps(q), capture_output=True, text=True)
    if r.returncode != 0:
        raise Exception('extractor failed: ' + r.stderr[-1000:])
    return {f['id']: f for f in json.loads(r.stdout)['fns']}

def items(binp, u):
    q = {'fns': [], 'items': [{'file': os.path.join(REPO, f), 'name': n} for f, n in u['items']]}
    r = subprocess.run([binp], input=json.dumps(q), capture_output=True, text=True)
    return {x['name']: x['def'] for x in json.loads(r.stdout)['items']}

def align(rec, cur):
    """current binding i is given the recorded name of the binding it corresponds to"""
    out = [None] * len(cur)
    sm = difflib.SequenceMatcher(None, rec, cur, autojunk=False)
    for tag, a0, a1, b0, b1 in sm.get_opcodes():
        if tag == 'equal' or (tag == 'replace' and a1 - a0 == b1 - b0):
            for i in range(a1 - a0):
                out[b0 + i] = rec[a0 + i]
    # a name of our own that a new local happens to carry is left alone
    return out

def prelude(V, u):
    o = ['use vstd::prelude::*;', 'use vstd::arithmetic::power::pow;', '#[allow(unused_imports)] use vstd::arithmetic::power2::pow2;', 'verus! {']
    for p in u['prelude']:
        o.append(open(os.path.join(V, 'verus', 'prelude', p + '.rs')).read())
    for t in u['text']:
        o.append('\n'.join(t))
    return '\n'.join(o)

def fill(f, ex):
    """attach the annotations; returns (text, missing anchors)"""
    body = ex['body']
    used = set()
    def rep(m):
        k = m.group(1)
        if k.startswith('cl'):
            n, params = k.split('|', 1)
            used.add(n)
            if n in f['at']:
                return '\n'.join(f['at'][n])
            return '|%s|' % params
        a = f['at'].get(k)
        if a is None:
            return ''
        used.add(k)
        t = '\n'.join(a)
        if k.startswith('inv') or k.startswith('winv'):
            return t
        return t
    body = re.sub(r'/\*@([^@]*)@\*/', rep, body)
    miss = [k for k in f['at'] if k not in used]
    return body, miss

def assemble(V, u, bodies, external):
    """returns (text, [(fn id, first line, last line)])"""
    txt = prelude(V, u)
    lines = txt.split('\n')
    rng = []
    for f in u['fns']:
        a = len(lines) + 1
        h = '\n'.join(f['header'])
        if f['wrap']:
            lines += f['wrap'].split('\n')
        if f['id'] in external:
            lines += ('#[verifier::external_body]\n' + re.sub(r'#\[verifier::(loop_isolation|rlimit|spinoff_prover|nonlinear)[^\]]*\]\n?', '', h) + '\n{ unimplemented!() }').split('\n')
        else:
            lines += ('#[verifier::loop_isolation(false)]\n' + h + '\n{\n' + bodies[f['id']] + '\n}').split('\n')
        if f['wrap']:
            lines.append('}')
        rng.append((f['id'], a, len(lines)))
    lines += ['} // verus!', 'fn main() {}']
    return '\n'.join(lines), rng

def canary(V, u):
    txt = prelude(V, u)
    lines = txt.split('\n')
    rng = []
    for f in u['fns']:
        a = len(lines) + 1
        h = '\n'.join(f['header'])
        if f['wrap']:
            lines += f['wrap'].split('\n')
        lines += (h + '\n{ proof { assert(false); } vpanic() }').split('\n')
        if f['wrap']:
            lines.append('}')
        rng.append((f['id'], a, len(lines)))
    lines += ['} // verus!', 'fn main() {}']
    return '\n'.join(lines), rng

def verus(path, extra=(), threads=8, timeout=400):
    t0 = time.time()
    e = {k: v for k, v in os.environ.items() if not k.startswith('RUSTUP_TOOLCHAIN') and not k.startswith('RUSTFLAGS') and k not in ('CARGO_TARGET_DIR',)}
    try:
        r = subprocess.run(['verus', path, '--output-json', '--error-format=json', '--time-expanded', '--multiple-errors', '4', '--num-threads', str(threads)] + list(extra), capture_output=True, text=True, timeout=timeout, env=e, cwd=os.path.dirname(path))
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return {'ok': False, 'timeout': True, 'diags': [], 'json': {}, 's': time.time() - t0}
    diags = []
    for l in err.split('\n'):
        l = l.strip()
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get('level', '').startswith('error') and not d.get('message', '').startswith('aborting due to'):
                diags.append(d)
    try:
        j = json.loads(out[out.index('{'):])
    except Exception:
        j = {}
    return {'ok': bool(j.get('verification-results', {}).get('success')), 'timeout': False, 'diags': diags, 'json': j, 's': time.time() - t0, 'stderr': err}

def classify(d, rng):
    """(fn id or None, kind, rendered); kind None: not an obligation"""
    msg = d.get('message', '')
    spans = d.get('spans', [])
    kind = None
    if RLIMIT.search(msg):
        kind = 'rlimit'
    else:
        for r, k in OBLIG:
            if r.search(msg):
                kind = k
                break
    def fn_at(s):
        for i, a, b in rng:
            if a <= s['line_start'] <= b:
                return i
        return None
    order = spans
    if kind == 'precondition':
        order = [s for s in spans if 'failed precondition' not in (s.get('label') or '')] + spans
    else:
        order = [s for s in spans if s.get('is_primary')] + spans
    fn = None
    for s in order:
        fn = fn_at(s)
        if fn:
            break
    return fn, kind, d.get('rendered', msg)

def smt_s(j):
    try:
        return j['times-ms']['smt']['total'] / 1000.0
    except Exception:
        return 0.0

def run_unit(V, name, env, binp, outdir, verbose=False):
    u = parse_unit(V, name)
    res = {'name': name, 'functions': [], 'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'status': '', 'drops': [], 'assumptions': list(u['assume']), 'failed': [], 'notes': []}
    anchors = {}
    ap = os.path.join(V, 'verus', name + '.anchors.json')
    if os.path.exists(ap):
        anchors = json.load(open(ap))
    ex = extract(binp, u['fns'])
    renames = {}
    external = {}
    rec = anchors.get('#items', {})
    now = items(binp, u)
    changed = [k for k in now if k in rec and rec[k] != now[k]]
    if changed:
        for f in u['fns']:
            external[f['id']] = 'the definition of %s changed' % changed
    for f in u['fns']:
        x = ex[f['id']]
        if not x['ok']:
            external[f['id']] = x['err']
            continue
        a = anchors.get(f['id'])
        if a is None:
            continue
        if a['sig'] != x['sig']:
            external[f['id']] = 'signature changed: %s' % x['sig']
        elif a['loops'] != len(x['loops']) or a['closures'] != x['closures']:
            external[f['id']] = 'loop structure changed: %s' % x['loops']
        elif a['bindings'] != x['bindings']:
            renames[f['id']] = align(a['bindings'], x['bindings'])
    if renames:
        ex2 = extract(binp, [f for f in u['fns'] if f['id'] in renames], renames)
        for k, v in ex2.items():
            if v['ok']:
                ex[k] = v
    bodies = {}
    for f in u['fns']:
        if f['id'] in external:
            continue
        b, miss = fill(f, ex[f['id']])
        if miss:
            external[f['id']] = 'annotations without an anchor: %s' % miss
            continue
        bodies[f['id']] = b
    path = os.path.join(outdir, name + '.rs')
    cres = {}
    def go_canary():
        t, rng = canary(V, u)
        p = os.path.join(outdir, name + '_canary.rs')
        open(p, 'w').write(t)
        r = verus(p, threads=2)
        hit = set()
        for d in r['diags']:
            fn, k, _ = classify(d, rng)
            if k == 'assertion' and fn:
                hit.add(fn)
        cres['missing'] = [f['id'] for f in u['fns'] if f['id'] not in hit]
        cres['s'] = smt_s(r['json'])
        cres['diags'] = [d.get('rendered', '') for d in r['diags'][:3]]
    th = threading.Thread(target=go_canary)
    th.start()
    failed = {}
    for attempt in range(8):
        t, rng = assemble(V, u, bodies, external)
        open(path, 'w').write(t)
        if attempt == 0 and os.environ.get('VERUS_KEEP'):
            open(os.environ['VERUS_KEEP'], 'w').write(t)
        r = verus(path, ['--rlimit', '30'])
        res['solver_s'] += smt_s(r['json'])
        if r['timeout']:
            res['status'] = 'inconclusive: time limit'
            break
        bad = {}
        failed = {}
        outside = []
        for d in r['diags']:
            fn, kind, txt = classify(d, rng)
            if kind is None or kind == 'rlimit':
                if fn:
                    bad.setdefault(fn, ('rlimit' if kind else 'unsupported') + ': ' + txt[:300])
                else:
                    outside.append(txt)
            elif fn is None:
                outside.append(txt)
            else:
                failed.setdefault(fn, []).append((kind, txt))
        bad = {k: v for k, v in bad.items() if k not in external}
        if bad:
            external.update(bad)
            continue
        if outside:
            res['status'] = 'inconclusive: ' + outside[0][:400]
            failed = {}
        break
    # an obligation counts as failed only if it fails again with another seed and a larger limit
    if failed:
        again = None
        for seed in ('7', '23'):
            t, rng = assemble(V, u, bodies, external)
            r = verus(path, ['--rlimit', '60', '--smt-option', 'smt.random_seed=' + seed])
            res['solver_s'] += smt_s(r['json'])
            got = set()
            lim = set()
            for d in r['diags']:
                fn, kind, txt = classify(d, rng)
                if fn and kind == 'rlimit':
                    lim.add(fn)
                elif fn:
                    got.add(fn)
            for f in list(failed):
                if f in lim:
                    external[f] = 'rlimit'
                    failed.pop(f)
                elif f not in got:
                    failed.pop(f)
            if not failed:
                break
    th.join()
    vr = r['json'].get('verification-results', {}) if not r.get('timeout') else {}
    nv, ne = vr.get('verified', 0), vr.get('errors', 0)
    for f in u['fns']:
        st = 'verified'
        if f['id'] in external:
            st = 'not decided: ' + external[f['id']]
            res['notes'].append('%s::%s %s' % (name, f['id'], st))
        elif f['id'] in failed:
            st = 'FAILED'
        elif res['status']:
            st = res['status']
        x = ex[f['id']]
        res['functions'].append({'fn': f['id'], 'source': '%s:%s %s' % (f['file'], x.get('line', '?'), f['impl'] or ''), 'status': st})
        for dr in x.get('drops', []):
            if dr not in res['drops']:
                res['drops'].append(dr)
    if not res['status']:
        res['obligations'] = nv + ne
        res['discharged'] = nv if failed or ne == 0 else nv
        res['status'] = 'failed' if failed else ('verified' if not external else 'partly decided')
    if cres.get('missing'):
        # contradictory preconditions: nothing this unit says counts
        res['notes'].append('%s: vacuity guard: `false` is provable (or not attempted) under the contract of %s %s' % (name, cres['missing'], cres.get('diags')))
        res['status'] = 'vacuous'
        res['discharged'] = 0
        failed = {}
    for fn, l in failed.items():
        f = [x for x in u['fns'] if x['id'] == fn][0]
        for kind, txt in l:
            res['failed'].append({'name': '%s (%s): %s' % (fn, f['file'], kind), 'output': txt})
    return res

def run(units, V, env, verbose=False):
    t = os.environ.get('VERIF_TARGET') or os.path.join(V, 'target')
    out = os.path.join(t, 'verus')
    os.makedirs(out, exist_ok=True)
    binp = build_extractor(V, env)
    R = {}
    def go(n):
        try:
            R[n] = run_unit(V, n, env, binp, out)
        except Exception:
            import traceback
            R[n] = {'name': n, 'functions': [], 'obligations': 0, 'discharged': 0, 'solver_s': 0, 'status': 'unavailable', 'drops': [], 'assumptions': [], 'failed': [], 'notes': [traceback.format_exc()[-800:]]}
    ts = [threading.Thread(target=go, args=(n,)) for n in units]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    return {'units': [R[n] for n in units]}

def record(V, names, env):
    binp = build_extractor(V, env)
    for n in names:
        u = parse_unit(V, n)
        ex = extract(binp, u['fns'])
        a = {}
        for f in u['fns']:
            x = ex[f['id']]
            if not x['ok']:
                print(n, f['id'], x['err'])
                continue
            a[f['id']] = {'sig': x['sig'], 'loops': len(x['loops']), 'closures': x['closures'], 'bindings': x['bindings']}
        a['#items'] = items(binp, u)
        json.dump(a, open(os.path.join(V, 'verus', n + '.anchors.json'), 'w'), indent=1, sort_keys=True)

if __name__ == '__main__':
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ)
    if sys.argv[1] == 'record':
        record(V, sys.argv[2:], env)
    elif sys.argv[1] == 'show':
        binp = build_extractor(V, env)
        u = parse_unit(V, sys.argv[2])
        for k, x in extract(binp, [f for f in u['fns'] if len(sys.argv) < 4 or f['id'] in sys.argv[3:]]).items():
            print('==', k, x.get('sig'), x.get('loops'), x.get('bindings'))
            print(x.get('body') or x.get('err'))
    else:
        R = run(sys.argv[1:], V, env)
        for u in R['units']:
            print(u['name'], u['status'][:1500], u['discharged'], '/', u['obligations'], '%.1fs' % u['solver_s'])
            for f in u['functions']:
                if f['status'] != 'verified' and f['status'] != u['status']:
                    print('   ', f['fn'], f['status'])
            for n in u['notes']:
                print('   note', n[:1500])
            for f in u['failed']:
                print('   FAIL', f['name'])
                print(f['output'])

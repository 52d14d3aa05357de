#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       run the failing case of a replay file again
   check.py --setup             build everything once
   check.py --baseline          rewrite spec/baseline.json (structure of the contracted functions of the current tree)"""
import json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JV_REPO', '/repo')
B = os.path.join(V, '.build')
JV = os.path.join(B, 'harness/debug/jv')
NODELIB = os.path.join(B, 'harness/debug/libjinja_lsp_nodejs.so')
VX = os.path.join(B, 'extract/debug/vx')
MAP = json.load(open(os.path.join(V, 'spec/map.json')))
RL = ['--rlimit', '30']

def sh(cmd, cwd=V, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace') + '\ntimeout'

def cargo(cwd, target, args=(), flags=None):
    env = {'CARGO_TARGET_DIR': os.path.join(B, target), 'CARGO_NET_OFFLINE': 'true'}
    if flags: env['RUSTFLAGS'] = flags
    return sh(['cargo', 'build', '--offline', *args], cwd, env, 850)

def build_extract(): return cargo(os.path.join(V, 'extract'), 'extract')
def build_harness(node):
    r = cargo(os.path.join(V, 'harness'), 'harness', (), '--cfg jinja_verif')
    if r[0] == 0 and node:
        before = sh(['git', '-C', REPO, 'status', '--porcelain'])[1]
        r = cargo(REPO, 'harness', ('-p', 'jinja-lsp-nodejs', '--locked'), '--cfg jinja_verif')
        assert sh(['git', '-C', REPO, 'status', '--porcelain'])[1] == before
    return r

# ------------------------------------------------------------------------------------------------ proofs
def verus(src, d, probe):
    t = time.time()
    rc, out, err = sh(['verus', src, '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json', *(['--multiple-errors', '2'] if not probe else []), *RL], d, timeout=600)
    res = {'rc': rc, 'wall': time.time() - t, 'errors': [], 'json': {}}
    try: res['json'] = json.loads(out)
    except Exception: pass
    for l in err.splitlines():
        try: m = json.loads(l)
        except Exception: continue
        if m.get('level') == 'error' and m.get('spans'): res['errors'].append(m)
    res['stderr'] = err
    return res

def fn_at(funcs, line):
    for f in funcs:
        if f.get('lines') and f['lines'][0] <= line <= f['lines'][1]: return f['name']
    return None

RESOURCE = ('rlimit', 'Resource limit', 'resource limit', 'timed out', 'canceled')
def blame(funcs, m):
    """the contracted functions an error lies in: bodies first, a contract only if nothing else"""
    names = []
    for s in sorted(m['spans'], key=lambda s: not s['is_primary']):
        n = fn_at(funcs, s['line_start'])
        if n and n not in names: names.append(n)
    if m['message'].startswith('precondition') and names: return names[:1]
    return names

def run_unit(u, d, base):
    """extract the unit's functions from the current tree and verify them; functions outside the verifier's reach are set aside"""
    skip, log = [], []
    src, js = os.path.join(d, u + '.rs'), os.path.join(d, u + '.json')
    for attempt in range(12):
        rc, out, err = sh([VX, REPO, os.path.join(V, 'spec', u + '.vt'), src, js, *sum((['--skip', s] for s in skip), [])])
        if rc != 0: return {'unit': u, 'status': 'undecided', 'why': 'extraction failed: ' + (out + err)[-800:], 'functions': {}, 'skip': skip}
        x = json.load(open(js))
        fs = x['functions']
        bad = []
        for f in fs:
            if f['mode'] in ('skipped', 'extern'): continue
            b = base.get(u, {}).get(f['name'])
            shape = [f['nloops'], f.get('kinds')]
            if f['mode'] != 'verified' or f['errs'] or f['nloops'] != f['want_loops'] or (b is not None and b != shape):
                if f['name'] not in skip: bad.append((f['name'], f['mode'] + ' ' + '; '.join(map(str, f['errs'])) + f' loops {shape} expected {b}'))
        if bad:
            new = [n for n, _ in bad if n not in skip]
            log += bad
            if not new: return {'unit': u, 'status': 'undecided', 'why': str(bad), 'functions': {}, 'skip': skip}
            skip += new
            lost = [f['name'] for f in fs if f['mode'] == 'lost']
            if all(n in lost for n in new) and attempt > 2: pass
            continue
        r = verus(os.path.basename(src), d, False)
        vr = r['json'].get('verification-results', {})
        comp = vr.get('encountered-vir-error') or not vr or any(m.get('code') for m in r['errors']) or (r['errors'] and not vr.get('verified') and not vr.get('errors'))
        if comp:
            names = []
            for m in r['errors']:
                for n in blame(fs, m):
                    if n not in skip and n not in names: names.append(n)
            if not names: return {'unit': u, 'status': 'undecided', 'why': 'not accepted by the verifier: ' + '\n'.join(m.get('rendered') or '' for m in r['errors'])[:1500] + r['stderr'][-300:] if not r['errors'] else '\n'.join(m.get('rendered') or '' for m in r['errors'])[:1500], 'functions': {}, 'skip': skip}
            log += [(n, 'outside the accepted subset: ' + (r['errors'][0]['message'])) for n in names]
            skip += names
            continue
        failed, other = {}, []
        for m in r['errors']:
            res = any(k in m['message'] for k in RESOURCE)
            ns = blame(fs, m)
            if not ns: other.append(m.get('rendered') or m['message'])
            for n in ns[:1] if not res else ns:
                failed.setdefault(n, []).append(('resource ' if res else '') + (m.get('rendered') or m['message']))
        fun = {}
        for f in fs:
            n = f['name']
            if n in skip or f['mode'] == 'skipped': fun[n] = 'not proved: ' + '; '.join(w for m, w in log if m == n)
            elif f['mode'] == 'extern': fun[n] = 'contract used'
            elif n in failed: fun[n] = 'undecided' if all(e.startswith('resource ') for e in failed[n]) else 'failed'
            else: fun[n] = 'proved'
        txt = open(src).read()
        smt = r['json'].get('times-ms', {}).get('smt', {})
        return {'unit': u, 'status': 'ran', 'functions': fun, 'failed': failed, 'other': other, 'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0), 'skip': skip, 'log': log,
                'theorems': re.findall(r'proof fn (theorem_\w+)', txt), 'smt_ms': smt.get('total', 0), 'wall_s': round(r['wall'], 2), 'assumed': assumed(txt), 'items': fs, 'rules': x['rules']}
    return {'unit': u, 'status': 'undecided', 'why': 'too many functions outside the accepted subset: ' + str(log)[:1500], 'functions': {}, 'skip': skip}

def assumed(txt):
    """everything in the verified text that is taken without proof"""
    out, lines = [], txt.split('\n')
    for i, l in enumerate(lines):
        if 'external_body' in l or 'assume_specification' in l or re.search(r'\baxiom\b', l) or re.search(r'\b(admit|assume)\s*\(', l) or 'external_type' in l or 'uninterp' in l:
            for k in lines[i:i + 4]:
                m = re.search(r'\b(?:fn|struct|enum)\s+(\w+)|assume_specification[^\[]*\[([^\]]*)\]', k)
                if m: out.append((m.group(1) or m.group(2)).strip()); break
    return sorted(set(out))

def probe(u, d, names, skip):
    """an assertion of false at the start of every contracted function: it must fail, else the contract or an assumption is contradictory"""
    src, js = os.path.join(d, u + '_probe.rs'), os.path.join(d, u + '_probe.json')
    rc, _, _ = sh([VX, REPO, os.path.join(V, 'spec', u + '.vt'), src, js, '--probe', 'start', *sum((['--skip', s] for s in skip), [])])
    if rc != 0: return None
    fs = json.load(open(js))['functions']
    r = verus(os.path.basename(src), d, True)
    vr = r['json'].get('verification-results', {})
    if not vr or vr.get('encountered-vir-error') or not (vr.get('verified') or vr.get('errors')): return None
    hit = set()
    for m in r['errors']:
        for n in blame(fs, m): hit.add(n)
    return [n for n in names if n not in hit]

# ------------------------------------------------------------------------------------------------ bounded stand-ins
def bounded(prop, tier, seed, d, budget):
    cfg = MAP[prop].get('bounded') or {}
    w = cfg.get('workers', 6)
    cases = cfg.get('cases', [60000, 2000000])[0 if tier == 'quick' else 1]
    fixed = cfg.get('fixed', 1200)
    def one(i):
        st = os.path.join(d, f'state{i}')
        rc, out, err = sh([JV, 'run', prop, '--from', str(i), '--step', str(w), '--fixed', str(fixed), '--cases', str(cases), '--seed', str(seed), '--time', str(budget), '--state', st], d,
                          {'JV_NODE': NODELIB, 'TMPDIR': d, 'VERIF_TIER': tier}, budget + 120)
        try: return json.loads(out.strip().split('\n')[-1])
        except Exception:
            try: s = int(open(st).read().split()[0])
            except Exception: s = None
            return {'violation': {'seed': s, 'what': f'the process died (status {rc}) {err[-400:]}', 'input': None} if s is not None else None, 'broken': None if s is not None else err[-800:], 'cases': 0, 'distinct': 0, 'nontrivial': 0, 'skipped': 0, 'samples': []}
    with ThreadPoolExecutor(w) as ex: return list(ex.map(one, range(w)))

def known(prop):
    f = os.path.join(V, 'known-findings.txt')
    out = {}
    for l in open(f):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

# ------------------------------------------------------------------------------------------------ one check
def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = MAP[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    d = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=B)
    try: return check_in(prop, cfg, tier, seed, d, t0)
    finally: shutil.rmtree(d, ignore_errors=True)

def check_in(prop, cfg, tier, seed, d, t0):
    node = bool(cfg.get('node'))
    with ThreadPoolExecutor(2) as ex:
        fx, fh = ex.submit(build_extract), ex.submit(build_harness, node)
        rx, rh = fx.result(), fh.result()
    if rx[0] != 0: print(rx[2][-3000:]); print('the extractor does not build'); return 2
    base = json.load(open(os.path.join(V, 'spec/baseline.json'))) if os.path.exists(os.path.join(V, 'spec/baseline.json')) else {}
    mine = cfg['functions']          # unit -> names
    t1 = time.time()
    with ThreadPoolExecutor(6) as ex: units = list(ex.map(lambda u: run_unit(u, d, base), mine))
    with ThreadPoolExecutor(6) as ex:
        pr = list(ex.map(lambda r: probe(r['unit'], d, [n for n, s in r['functions'].items() if s == 'proved' and not next(f for f in r['items'] if f['name'] == n).get('derived')], r['skip']) if r['status'] == 'ran' else None, units))
    proof_s = time.time() - t1
    notes, failed, nproved, want, fun_out, notproved = [], [], 0, 0, [], []
    obligations = discharged = 0
    trusted = set()
    proved_somewhere = {n for r in units for n, s in r['functions'].items() if s == 'proved'}
    for r, p in zip(units, pr):
        for n in mine[r['unit']]:
            want += 1
            s = r['functions'].get(n, 'not proved: ' + r.get('why', 'not found')[:300])
            if s == 'proved' and p and n in p: s = 'not proved: its contract is vacuous'
            fun_out.append(f"{n}: {s} ({r['unit']})")
            if s == 'proved': nproved += 1
            elif s == 'failed': failed.append((r['unit'], n, r['failed'][n]))
            else: notproved.append(f'{n}: {s}')
        if r['status'] == 'ran':
            obligations += r['verified'] + r['errors']; discharged += r['verified']
            trusted |= {f"{a} (assumed, unit {r['unit']})" for a in r['assumed'] if not any(a == n.split('::')[-1] for n, s in r['functions'].items() if s == 'contract used')}
            for n, s in r['functions'].items():
                if s == 'contract used' and n not in proved_somewhere: trusted.add(f'contract of {n}, discharged by other checks')
            if r['other']: notes.append('lemmas not accepted: ' + '\n'.join(r['other'])[:600])
        else: notes.append(f"unit {r['unit']}: {r['why'][:600]}"); obligations += len(mine[r['unit']])
    for n in notproved: notes.append('not proved on this tree, left to the bounded cases: ' + n)
    # bounded cases
    budget = (25 if tier == 'quick' else 400)
    if rh[0] == 0:
        bs = bounded(prop, tier, seed, d, budget)
        kn = sh([JV, 'known', prop], d, {'JV_NODE': NODELIB, 'TMPDIR': d}, 120)
    else:
        bs, kn = [], None
        notes.append('the cases do not build against this tree: ' + '\n'.join(l for l in rh[2].splitlines() if l.startswith('error'))[:800])
    viol = next((b['violation'] for b in bs if b.get('violation')), None)
    for b in bs:
        if b.get('broken'): notes.append('cases ended early: ' + b['broken'])
    listed, kfound = known(prop), []
    if kn is not None:
        try: kr = json.loads(kn[1].strip().split('\n')[-1])['known']
        except Exception: kr = []; viol = viol or {'seed': None, 'what': f'the recorded findings end the process (status {kn[0]})', 'input': 'jv known ' + prop}
        for k in kr:
            if k['fails'] and k['id'] in listed: kfound.append(k)
            elif k['fails'] and not viol: viol = {'seed': None, 'what': f"finding {k['id']} is not listed: {k['what']}", 'input': k['what']}
    for k in kfound: print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    rc = 0
    rep = os.path.join(B, 'replay', f'{prop}.json')
    nviol = 0
    if viol:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        json.dump({'property': prop, 'seed': viol['seed'], 'what': viol['what'], 'input': viol['input'], 'failed_obligations': [{'unit': u, 'function': n, 'verifier': e} for u, n, e in failed],
                   'replay': f'python3 {V}/tools/check.py --replay {rep}'}, open(rep, 'w'), indent=1)
        print('input:', json.dumps(viol['input'])[:2000]); print(viol['what'][:2000])
        for u, n, e in failed: print(f'obligation of {n} (unit {u}) not discharged')
        print(f'VIOLATION property={prop} replay={rep}')
        rc, nviol = 1, 1
    elif failed:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        json.dump({'property': prop, 'seed': None, 'what': 'obligations not discharged', 'failed_obligations': [{'unit': u, 'function': n, 'verifier': e} for u, n, e in failed]}, open(rep, 'w'), indent=1)
        for u, n, e in failed: print(f'obligation of {n} (unit {u}) not discharged:\n' + e[0][:1500])
        print(f'VIOLATION property={prop} replay={rep} no-failing-input-found')
        rc, nviol = 1, len(failed)
    elif rh[0] != 0 and (notproved or not mine):
        print('\n'.join(notes)); print('neither the proofs nor the cases could decide this tree'); rc = 2
    ev = sum(b['cases'] for b in bs)
    cov = {'functions_under_contract': fun_out, 'functions_proved': nproved, 'functions_wanted': want,
           'theorems_over_the_contracts': [f"{t} ({r['unit']})" for r in units if r['status'] == 'ran' and not r['other'] for t in r.get('theorems', [])],
           'obligations': obligations, 'discharged': discharged, 'checker_cmd': 'verus <unit>.rs --triggers-mode silent --rlimit 30 (units extracted from /repo on this run: ' + ', '.join(mine) + ')' if mine else 'none',
           'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_ms': sum(r.get('smt_ms', 0) for r in units), 'proof_wall_s': round(proof_s, 1),
           'trusted_base': sorted(trusted) + cfg.get('trusted', []),
           'vacuity_probes': {r['unit']: {'functions': len([1 for s in r['functions'].values() if s == 'proved']), 'vacuous': p} for r, p in zip(units, pr)},
           'extraction_rewrites': {r['unit']: r.get('rules') for r in units if r['status'] == 'ran'},
           'bounded_not_proved': {'what': cfg.get('bounded_what', ''), 'evaluations': ev, 'skipped_as_outside_the_property': sum(b.get('skipped', 0) for b in bs)},
           'evaluations': ev, 'distinct_nontrivial': sum(b['nontrivial'] for b in bs), 'rule': cfg.get('rule', ''), 'samples': [s for b in bs for s in b['samples']][:3],
           'known_findings_met': [k['id'] for k in kfound], 'notes': notes}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol},
              open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    for n in notes: print('note:', n[:400])
    print(f"{prop}: {nproved}/{want} functions proved, {discharged}/{obligations} obligations discharged, {ev} cases, {round(time.time() - t0, 1)} s")
    return rc

def baseline():
    build_extract()
    us = sorted({u for p in MAP.values() for u in p['functions']})
    d = tempfile.mkdtemp(dir=B)
    out = {}
    for u in us:
        sh([VX, REPO, os.path.join(V, 'spec', u + '.vt'), f'{d}/{u}.rs', f'{d}/{u}.json'])
        out[u] = {f['name']: [f['nloops'], f.get('kinds')] for f in json.load(open(f'{d}/{u}.json'))['functions'] if f['mode'] == 'verified'}
    json.dump(out, open(os.path.join(V, 'spec/baseline.json'), 'w'), indent=1, sort_keys=True)
    shutil.rmtree(d)

def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        os.makedirs(B, exist_ok=True)
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(lambda f: f(), [build_extract, lambda: build_harness(True)]))
        for r in rs:
            if r[0] != 0: print(r[2][-3000:])
        return max(abs(r[0]) for r in rs)
    if a[:1] == ['--baseline']: baseline(); return 0
    if a[:1] == ['--replay']:
        j = json.load(open(a[1]))
        print(j['what'])
        for f in j.get('failed_obligations', []): print(f"obligation of {f['function']} (unit {f['unit']}):\n" + '\n'.join(f['verifier']))
        if j.get('seed') is None: print(json.dumps(j.get('input'))); return 1
        r = build_harness(bool(MAP[j['property']].get('node')))
        if r[0] != 0: print(r[2][-3000:]); return 2
        rc, out, err = sh([JV, 'case', j['property'], str(j['seed'])], '/tmp', {'JV_NODE': NODELIB}, 120)
        print(out, err)
        return 0 if rc == 0 else 1
    return check(a[0])
sys.exit(main())

#!/usr/bin/env python3
"""check.py <ID>: decide one property on /repo's current working tree.

1. extract the functions under contract from /repo and let Verus discharge
   every obligation (props/<ID>/*.rs);
2. run the bounded contract check of the same contracts on the compiled crate
   (drivers/<name>), which covers the glue the verifier does not see and is
   where a failing obligation is replayed;
3. verdict, evidence/<ID>.json, exit 0 / exit 1 + VIOLATION line."""
import os, sys, json, time, subprocess, re, threading, signal, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx

TOOLCHAIN = '1.92.0'
TARGET = os.environ.get('VERIF_TARGET', os.path.join(VERIF, '.build', 'target'))
WORK = os.path.join(VERIF, '.build', 'work')

def sh_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e.pop('CARGO_PROFILE_DEV_OPT_LEVEL', None)
    return e

# ---------------------------------------------------------------- drivers
class Driver:
    def __init__(self, name):
        self.name, self.err, self.bin = name, None, None
        self.dir = os.path.join(VERIF, 'drivers', name)
        self.secs = 0
    def build(self):
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=self.dir, env=sh_env(),
                           capture_output=True, text=True)
        self.secs = time.time() - t
        if p.returncode:
            self.err = (p.stderr or p.stdout)[-6000:]
        else:
            self.bin = os.path.join(TARGET, 'debug', 'drv-' + self.name)
    def run(self, pid, tier, seed, budget):
        out = os.path.join(WORK, f'{pid}.drv.json')
        tr = os.path.join(WORK, f'{pid}.trace')
        for f in (out, tr):
            if os.path.exists(f): os.remove(f)
        def go(extra):
            env = dict(sh_env(), **extra)
            env['RUST_BACKTRACE'] = '0'
            try:
                return subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$0" "$@"', self.bin, 'run', pid, tier, str(seed), out],
                                      env=env, capture_output=True, text=True, timeout=budget)
            except subprocess.TimeoutExpired:
                return None
        p = go({})
        if p is not None and os.path.exists(out):
            return json.load(open(out))
        if p is not None and p.returncode in (2, 3):
            return dict(error="driver error: " + p.stderr[-600:])
        # died without a report (abort, stack overflow, memory): find the case
        p2 = go({'DRV_TRACE': tr})
        if os.path.exists(out):
            return json.load(open(out))
        case = open(tr).read() if os.path.exists(tr) else ''
        how = 'ran out of its time budget' if p2 is None else f'process ended with status {p2.returncode}: ' + p2.stderr[-600:]
        if not case:
            return dict(error=how)
        idx, _, desc = case.partition('\n')
        return dict(evaluations=int(idx), distinct=0, samples=[], rule='', exhaustive=False,
                    violations=[dict(index=int(idx), desc=desc, what='the call never returned: ' + how)])

# ---------------------------------------------------------------- verus
def run_verus(path, rlimit, extra=()):
    t = time.time()
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '20', '--rlimit', str(rlimit),
           '--triggers-mode', 'silent', '--no-report-long-running', '--error-format=json', *extra]
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), env=env, timeout=600)
    except subprocess.TimeoutExpired:
        return dict(cmd=' '.join(cmd), ok=False, verified=0, errors=[], compile=['verus timed out'], wall=600, smt_ms=0, fns=[])
    res = {}
    m = p.stdout.find('{')
    try: res = json.loads(p.stdout[m:])
    except Exception: res = {}
    errs, comp = [], []
    for line in p.stderr.split('\n'):
        line = line.strip()
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except Exception: continue
        if d.get('level') != 'error' or 'aborting due to' in d.get('message', ''): continue
        errs.append(dict(msg=d['message'], spans=[(s['line_start'], s['line_end'], s.get('label') or '', s.get('is_primary')) for s in d.get('spans', [])], text=d.get('rendered', '')))
    vr = res.get('verification-results', {})
    fns = []
    smt = 0
    for mod in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in mod.get('function-breakdown', []):
            fns.append((f.get('function'), f.get('time', 0), f.get('rlimit', 0), f.get('success')))
            smt += f.get('time', 0)
    ok = bool(vr.get('success')) and vr.get('errors', 1) == 0
    return dict(cmd=' '.join(cmd), ok=ok, verified=vr.get('verified', 0), nerr=vr.get('errors'), errors=errs,
                vir=bool(vr.get('encountered-vir-error')) or 'verified' not in vr or (not ok and not vr.get('errors')), wall=time.time() - t, smt_ms=smt, fns=fns,
                raw=p.stderr[-4000:])

PROOF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
              'possible arithmetic underflow/overflow', 'decreases not satisfied', 'possible division by zero',
              'could not show termination', 'loop invariant', 'unreached', 'possible bit shift', 'constructed value may fail',
              'forall', 'recommendation', 'type invariant', 'index out of', 'unable to prove', 'failed', 'cannot show')
def is_resource(msg):
    return 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'canceled' in msg or 'timed out' in msg

def proof(pid, spec, cfg, rep):
    """-> 'proved' | 'failed' | 'undecided'"""
    path = os.path.join(VERIF, 'props', pid, spec)
    text = open(path).read()
    name = spec[:-3]
    os.makedirs(WORK, exist_ok=True)
    r = dict(spec=spec)
    rep['specs'].append(r)
    try:
        out, ex = vx.build(text)
        vac, exv = vx.build(text, {'vacuity': True})
    except vx.AnchorLost as e:
        r.update(status='undecided', why=f'anchor lost: {e}')
        return
    f1 = os.path.join(WORK, f'{pid}_{name}.rs'); open(f1, 'w').write(out)
    f2 = os.path.join(WORK, f'{pid}_{name}_vac.rs'); open(f2, 'w').write(vac)
    box = {}
    th = threading.Thread(target=lambda: box.update(v=run_verus(f2, cfg.get('rlimit', 30)))); th.start()
    v = run_verus(f1, cfg.get('rlimit', 30))
    th.join()
    if not v['ok'] and not v['vir'] and v['errors'] and any(is_resource(e['msg']) for e in v['errors']):
        v = run_verus(f1, cfg.get('rlimit', 30) * 6, ['-V', 'spinoff-all'])
    bl = {}
    bp = os.path.join(VERIF, 'props', pid, name + '.skel.json')
    if os.path.exists(bp): bl = json.load(open(bp))
    r.update(verified=v['verified'], smt_ms=v['smt_ms'], wall=round(v['wall'], 1), cmd=v['cmd'], file=f1,
             functions=[dict(path=f['path'], name=f['name'], sha=f['sha'], contract=f['spec'], rewrites=f['rewrites']) for f in ex.fns],
             types=[dict(path=t['path'], name=t['name'], rewrites=t['rewrites']) for t in ex.types],
             dropped=sorted(ex.dropped), trusted=vx.trusted_scan(out))
    # vacuity: assert(false) at the head of every contracted function must fail
    want = sum(1 for f in exv.fns if f['spec'])
    vv = box['v']
    hit = set()
    vl = vac.split('\n')
    for e in vv['errors']:
        for (a, b, lab, prim) in e['spans']:
            m = re.search(r'/\*VACUITY (.*?)\*/', vl[a-1] if a - 1 < len(vl) else '')
            if m and 'assertion failed' in e['msg']: hit |= {f['first_line'] for f in exv.fns if f['first_line'] <= a <= f['last_line']}
            if is_resource(e['msg']):
                # gave up refuting `false` in this function: not shown vacuous
                hit |= {f['first_line'] for f in exv.fns if f['spec'] and f['first_line'] <= a <= f['last_line']}
    r['vacuity'] = dict(contracted=want, reachable=len(hit))
    if v['ok'] and v['verified'] > 0:
        if len(hit) < want:
            r.update(status='undecided', why=f'vacuity check: only {len(hit)} of {want} contracted functions have a satisfiable precondition')
        else:
            r.update(status='proved')
        return
    if v['vir'] or not v['errors'] or all(is_resource(e['msg']) for e in v['errors']):
        r.update(status='undecided', why='; '.join(e['msg'] for e in v['errors'])[:1500] or v.get('raw', '')[-800:])
        lost = [x for f in ex.fns for x in f['lost']]
        if lost: r['why'] = 'anchors lost: ' + '; '.join(lost)[:600] + '; ' + r['why']
        return
    # genuine obligations failed: where?
    failed, changed = [], False
    for e in v['errors']:
        where = []
        for (a, b, lab, prim) in e['spans']:
            for f in ex.fns:
                if f['first_line'] <= a <= f['last_line'] and f['name'] not in where: where.append(f['name'])
        failed.append(dict(obligation=e['msg'], functions=where, detail=e['text'][:1500]))
    names = {n for f in failed for n in f['functions']}
    for f in ex.fns:
        old = bl.get(f['path'] + ' :: ' + f['name'])
        if f['lost'] or (old is not None and old['skeleton'] != f['skeleton']):
            if not names or f['name'] in names: changed = True
    r.update(status='failed', failed=failed, shape_changed=changed, lost=[x for f in ex.fns for x in f['lost']])

def bless(pid):
    cfg = json.load(open(os.path.join(VERIF, 'props', pid, 'prop.json')))
    for spec in cfg.get('specs', []):
        out, ex = vx.build(open(os.path.join(VERIF, 'props', pid, spec)).read())
        json.dump({f['path'] + ' :: ' + f['name']: dict(skeleton=f['skeleton'], sha=f['sha']) for f in ex.fns},
                  open(os.path.join(VERIF, 'props', pid, spec[:-3] + '.skel.json'), 'w'), indent=1, sort_keys=True)

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    if '--bless' in sys.argv: return bless(pid)
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    cfg = json.load(open(os.path.join(VERIF, 'props', pid, 'prop.json')))
    os.makedirs(WORK, exist_ok=True)
    rep = dict(specs=[])
    drv = Driver(cfg['driver']) if cfg.get('driver') else None
    box = {}
    def drive():
        drv.build()
        if drv.err: return
        box['r'] = drv.run(pid, tier, seed, cfg.get('budget', 240) * (3 if tier == 'thorough' else 1))
    th = None
    if drv:
        th = threading.Thread(target=drive); th.start()
    pts = [threading.Thread(target=proof, args=(pid, s, cfg, rep)) for s in cfg.get('specs', [])]
    for p in pts: p.start()
    for p in pts: p.join()
    if th: th.join()
    rep['specs'].sort(key=lambda r: r['spec'])
    d = box.get('r') or {}
    statuses = [r.get('status', 'undecided') for r in rep['specs']]
    viol = None
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay = os.path.join(VERIF, 'replays', pid + '.json')
    if os.path.exists(replay): os.remove(replay)
    known = known_findings(pid)
    fresh, seen = [], []
    for v in d.get('violations', []):
        k = next((k for k in known if re.search(k['match'], v['what'] + ' @ ' + v['desc'])), None)
        (seen if k else fresh).append((k, v))
    shown = {}
    for k, v in seen: shown.setdefault(k['id'], (k, v))
    for k in known:
        if k['id'] in shown:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    failed = [r for r in rep['specs'] if r.get('status') == 'failed']
    if fresh:
        viol = dict(property=pid, kind='failing-input', driver=cfg['driver'], tier=tier, seed=seed,
                    cases=[v for _, v in fresh][:5],
                    failed_obligations=[f for r in failed for f in r.get('failed', [])],
                    how=f'{VERIF}/tools/replay.sh {replay}')
        line = f'VIOLATION property={pid} replay={replay}'
    elif failed and any(not r['shape_changed'] for r in failed):
        viol = dict(property=pid, kind='failed-obligation',
                    failed_obligations=[f for r in failed for f in r.get('failed', [])],
                    verifier=[r['cmd'] for r in failed])
        line = f'VIOLATION property={pid} replay={replay} no-failing-input-found'
    if viol:
        json.dump(viol, open(replay, 'w'), indent=1)
    obligations = sum((r.get('verified') or 0) + len(r.get('failed', [])) for r in rep['specs'])
    discharged = sum((r.get('verified') or 0) for r in rep['specs'])
    allproved = bool(statuses) and all(s == 'proved' for s in statuses)
    assume = list(cfg.get('assumptions', []))
    for r in rep['specs']:
        for t in r.get('trusted', []): assume.append(f"{r['spec']}: {t}")
        for f in r.get('functions', []):
            for (a, b, n) in f['rewrites']: assume.append(f"{r['spec']}: extraction rewrites `{a}` to `{b}` in {f['name']} ({n}x)")
        for f in r.get('types', []):
            for (a, b, n) in f['rewrites']: assume.append(f"{r['spec']}: extraction rewrites `{a}` to `{b}` in type {f['name']} ({n}x)")
    level = cfg.get('level', 'proof') if allproved or not statuses else 'other'
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd='; '.join(r.get('cmd', '') for r in rep['specs']) or (f'{drv.bin} run {pid} {tier} {seed}' if drv else ''),
               trusted_base=['Verus 0.2026.09.13 (rustc front end, VIR/AIR encoding, vstd)', 'Z3 as shipped with Verus', 'tools/vx.py extraction'] + cfg.get('trusted', []),
               functions_under_contract=[f"{f['path']} :: {f['name']} (source hash {f['sha']})" for r in rep['specs'] for f in r.get('functions', []) if f['contract']],
               back_end='Verus/Z3', solver_ms=sum(r.get('smt_ms', 0) for r in rep['specs']),
               proof_status=[dict(spec=r['spec'], status=r.get('status'), why=r.get('why'), verified_units=r.get('verified'),
                                  vacuity=r.get('vacuity'), wall_s=r.get('wall')) for r in rep['specs']],
               extraction_drops=sorted({x for r in rep['specs'] for x in r.get('dropped', [])}))
    if drv:
        cov['bounded_contract_check'] = dict(label='BOUNDED, not counted as proved', driver=cfg['driver'], build_s=round(drv.secs, 1),
            bound=d.get('rule', ''), evaluations=d.get('evaluations', 0), distinct_nontrivial=d.get('distinct', 0),
            error=d.get('error') or (('driver does not build against this tree: ' + drv.err[-400:]) if drv.err else None))
        cov['evaluations'] = d.get('evaluations', 0)
        cov['distinct_nontrivial'] = d.get('distinct', 0)
        cov['rule'] = d.get('rule', '')
        cov['samples'] = d.get('samples', [])[:8]
    expl = []
    for r in rep['specs']:
        if r.get('status') == 'undecided': expl.append(f"{r['spec']}: proof not redone ({r.get('why')}); only the bounded contract check decided this run")
        if r.get('status') == 'failed' and r.get('shape_changed') and not viol:
            expl.append(f"{r['spec']}: the function's control structure changed and its annotations no longer fit ({len(r['failed'])} obligations open); only the bounded contract check decided this run")
    cov['explanation'] = '; '.join(expl) or 'every obligation discharged; bounded contract check agrees'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume,
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if '-v' in sys.argv or '--verbose' in sys.argv:
        print(json.dumps(rep, indent=1)[:6000]); print(json.dumps(d, indent=1)[:3000]); print(drv.err if drv else '')
    print(f"{pid}: proof {'/'.join(statuses) or 'none'}; {discharged}/{obligations} verified units; bounded cases {d.get('evaluations', 0)}"
          f"{' (driver error: ' + str(d.get('error') or (drv.err or '')[-300:]) + ')' if drv and (d.get('error') or drv.err) else ''}; {time.time()-t0:.1f}s")
    if expl: print('note: ' + cov['explanation'][:600])
    if viol:
        print(line)
        sys.exit(1)
    sys.exit(0)

main()

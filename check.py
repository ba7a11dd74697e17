#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]   decides one property by contract-based deductive verification of /repo's current source."""
import os, sys, time, json, shutil, tempfile, threading, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import driver, props
from driver import ExtractionError

ASSUME = ['doubles are treated as mathematical reals in the proof (constants below 2^-48 in magnitude are 0); the native contract runs use IEEE doubles with a relative tolerance',
          'integers are mathematical; the code under contract is assumed not to overflow its integer types',
          'LLVM 18 front end and the -O1 scalar pipeline preserve the meaning of the source',
          'allocation does not fail; no two live objects overlap']
TRUST = ['clang 18 front end + LLVM IR -O1 pipeline', 'VC generator /verif/lib (symexec, loopcut, models)', 'z3 4.8 (python), z3-new, cvc5', 'polynomial normaliser /verif/lib/expr.py']
def log(*a): print(*a, flush=True)

def main():
    pid = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    P = props.PROPS[pid]; work = tempfile.mkdtemp(prefix='vc_' + pid + '_')
    try: rc = check(pid, P, tier, seed, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, P, tier, seed, work, t0):
    replaydir = os.path.join(V, 'evidence', 'replay'); os.makedirs(replaydir, exist_ok=True)
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == pid] if os.path.exists(os.path.join(V, 'known_findings.json')) else []
    units = P['units']; budget = 640 if tier == 'quick' else 3000
    # native contract binaries are built while the proof runs
    bins = {}; errs = {}
    def build(u):
        b = f'{work}/{u.src}{u.tag}.bin'; rc, o, e = driver.compile_native(u, b)
        if rc: errs[(u.src, u.tag)] = e
        else: bins[(u.src, u.tag)] = b
    ths = [threading.Thread(target=build, args=(u,)) for u in units if u.native]
    for th in ths: th.start()
    results = []; extraction = []
    for u in units:
        if u.opts.get('native_only'): continue
        left = budget - (time.time() - t0)
        u.opts['wall'] = max(20, min(u.opts.get('wall', 500), left)); u.opts['prove_time'] = max(20, min(u.opts.get('prove_time', 400), left))
        try:
            for r in driver.verify_unit(u, work): results.append((u, r))
        except ExtractionError as e: extraction.append((u, str(e)))
    for th in ths: th.join()
    failed = []; unproved = []; nobl = ndis = 0; backends = {}; solver = 0.0; fns = set(); names = {}; covers = {}; broken = []; houd = {}; cuts = []; cused = {}
    hs = []
    for u, r in results:
        if not r['ok']:
            broken.append((u, r['h'], r['err'], r.get('tb', ''))); continue
        fns |= set(r['called']); houd = {k: houd.get(k, 0) + v for k, v in r['houdini'].items()}; cuts += r['cuts']
        for k, v in r['contracts_used'].items(): cused[k] = cused.get(k, 0) + v
        covers.update(r['covers']); n = 0
        for o in r['obls']:
            nobl += 1; n += 1
            if o.get('stats'):
                solver += o['stats'].get('solver_s', 0)
                for k, v in o['stats'].items():
                    if k not in ('solver_s', 'decide'): backends[k] = backends.get(k, 0) + v
            if o['status'] == 'proved': ndis += 1
            else: failed.append((u, r['h'], o))
            names[o['name']] = names.get(o['name'], 0) + 1
        hs.append(dict(harness=r['h'], obligations=n, paths=r['paths'], seconds=round(r['t'], 2)))
        if n == 0 or not r['covers'] and r['paths'] == 0: broken.append((u, r['h'], 'vacuous: no obligation or no completed path', ''))
    # ---- native runs of the same contracts on the real code (supporting; also the replay oracle)
    nat = {}; natfail = []; natcases = 0
    jobs = []
    for u in units:
        b = bins.get((u.src, u.tag))
        if not u.native: continue
        if b is None:
            extraction.append((u, 'native: ' + errs.get((u.src, u.tag), '')[:2000])); continue
        for h in u.names(): jobs.append((u, h, b))
    def go(u, h, b, mode='search', n=None, mf='-', tm=None, sd=None):
        k = 0 if tier == 'quick' else 1
        return driver.native(b, h, mode, seed if sd is None else sd, n or u.native_n[k], mf, tm or (25 if tier == 'quick' else 240))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        futs = [(u, h, pool.submit(go, u, h, b)) for u, h, b in jobs]
        for u, h, f in futs:
            st, o = f.result(); nat[h] = (st, o)
            if st in ('fail', 'hang'): natfail.append((u, h, st, o))
            elif st == 'ok': natcases += int(o.split('done ')[1].split()[0])
            else: extraction.append((u, f'native {h}: {o}'))
    # ---- failed obligations: replay the verifier's model, then search around it
    viol = []
    seenh = set()
    for u, h, st, o in natfail: viol.append((u, h, o.split('\n')[0] if st == 'fail' else 'does not terminate', o, 'native contract run')); seenh.add(h)
    pend = [(u, h, o) for u, h, o in failed if o['status'] != 'skipped' and h not in seenh]
    byh = {}
    for u, h, o in pend: byh.setdefault(h, []).append((u, o))
    nofail = []
    for h, l in byh.items():
        u = l[0][0]; b = bins.get((u.src, u.tag)); hit = None
        if b:
            tries = [o for _, o in l if o['status'] == 'cex'][:6]
            for i, o in enumerate(tries):
                mf = f'{work}/m{i}'; open(mf, 'w').write('\n'.join(f'{k} {float(v)!r}' for k, v in (o['model'] or {}).items() if ' ' not in k) + '\n')
                for mode, n in (('replay', 1), ('near', 20000)):
                    st, out = driver.native(b, h, mode, seed, n, mf, 15)
                    if st in ('fail', 'hang'): hit = (o, out); break
                if hit: break
            if not hit:
                with ThreadPoolExecutor(8) as pool:
                    for st, out in pool.map(lambda sd: go(u, h, b, n=400000, tm=45, sd=sd), range(seed + 1000, seed + 1008)):
                        if st in ('fail', 'hang') and not hit: hit = (l[0][1], out)
        if hit: viol.append((u, h, hit[1].split('\n')[0], hit[1], f"obligation '{hit[0]['name']}' failed, input found on the real code"))
        else: nofail.append((u, h, l))
    # ---- verdict
    broken += [(u, '-', e, '') for u, e in extraction]
    level = P.get('level', 'proof'); rc = 0
    bounded = sorted({h for _, h, _, _ in broken})
    def replay_file(u, h, txt, obl):
        f = f'{replaydir}/{pid}_{h}.txt'
        open(f, 'w').write(f'property {pid}\nharness {h} ({u.src})\nre-run: python3-vt {V}/check.py {pid}\n\n{txt}\n\n' + (json.dumps(obl, indent=1, default=str) if obl else ''))
        return f
    nk = 0
    for k in known: pass
    out = []
    for u, h, first, txt, why in viol:
        f = replay_file(u, h, f'{why}\n{txt}', [o for _, hh, o in failed if hh == h][:3])
        out.append(f'VIOLATION property={pid} replay={f}'); log(f'[{h}] {why}: {first}')
    for u, h, l in nofail:
        o = l[0][1]
        f = replay_file(u, h, f"failed obligation: {o['name']} ({o['status']})\nverifier: {o.get('info') or 'counter-model found'}\n", [x for _, x in l][:5])
        out.append(f'VIOLATION property={pid} replay={f} no-failing-input-found'); log(f"[{h}] obligation '{o['name']}' is not provable any more ({o['status']})")
    if out: rc = 1
    elif broken:
        # parts the verifier could not process: never counted as proved
        for u, h, e, tb in broken: log(f'UNDECIDED [{h}] {u.src}: {e[:400]}')
        okn = all(nat.get(h, ('none',))[0] == 'ok' for _, h, _, _ in broken)
        if okn: log('bounded stand-in: the contracts of the undecided parts held on all native runs (not a proof)')
        else: rc = 2
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(out),
              assumptions=ASSUME + P.get('assume', []),
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd=f'python3-vt {V}/check.py {pid} {tier}', trusted_base=TRUST + P.get('trusted', []),
                            obligation_names=names, backends=backends, solver_seconds=round(solver, 2), functions_under_contract=sorted(set(x for x in fns if not x.startswith(('std::', '__gnu', 'void std::', 'operator', 'Eigen')) and 'Eigen::' not in x))[:200] + P.get('functions', []),
                            harnesses=hs, loops_cut_with_invariants=sorted(set(cuts)), callee_contracts_used=cused, invariant_candidates=houd, reachability=covers,
                            bounded_standins=P.get('bounded', []) + [f'{h}: {e[:200]}' for _, h, e, _ in broken],
                            evaluations=natcases, rule='supporting, not counted as proof: contract-directed native executions of the real code; distinct random inputs that satisfied every precondition'))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known: log(f"KNOWN-FINDING: property={pid} {k['what']}")
    for l in out: log(l)
    log(f'{pid}: {ndis}/{nobl} obligations discharged, {natcases} native contract runs, {time.time()-t0:.1f}s' + ('' if rc == 0 else f' -> exit {rc}'))
    return rc
main()

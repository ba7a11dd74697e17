"""One verification unit: compile the harness together with the real sources, generate verification conditions, discharge them,
replay failures natively."""
import os, sys, subprocess, time, json, re, hashlib, multiprocessing as mp, tempfile, shutil, resource, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
INC = ['-I', f'{VERIF}/stubs', '-I', f'{VERIF}/harness', '-I', REPO, '-I', '/usr/include/eigen3']
BASE = ['-std=c++17', '-DNDEBUG', '-w', '-ffp-contract=off', '-fno-access-control', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_STATIC_ASSERT_DUMMY']
SYMF = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-math-errno', '-fno-threadsafe-statics', '-fno-signed-zeros',
        '-include', f'{VERIF}/harness/vc_noext.h', '-fno-builtin-printf', '-S', '-emit-llvm']
NATF = ['-O1', '-DVC_NATIVE', '-g1', '-rdynamic', '-fno-math-errno']
class ExtractionError(Exception): pass

def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr

class Unit:
    def __init__(u, src, flags=(), contracts=(), opts=None, harnesses=None, noinline=(), keep=(), native_n=(3000, 60000), native=True, omp=False, timeout=20, bounded=(), tag=''):
        u.src, u.flags, u.contracts, u.opts, u.harnesses, u.noinline = src, list(flags), list(contracts), dict(opts or {}), harnesses, list(noinline)
        u.native_n = native_n; u.native = native; u.omp = omp; u.timeout = timeout; u.bounded = set(bounded); u.tag = tag
    @property
    def path(u): return f'{VERIF}/harness/{u.src}'
    def names(u):
        t = open(u.path).read()
        return [h for h in re.findall(r'VC_HARNESS\((\w+)\)', t) if u.harnesses is None or h in u.harnesses]

def compile_native(u, out):
    cmd = ['clang++'] + BASE + NATF + (['-fopenmp'] if u.omp else []) + u.flags + INC + [u.path, f'{VERIF}/harness/native_rt.cpp', '-o', out, '-ldl']
    return run(cmd)
def compile_ir(u, out):
    cmd = ['clang++'] + BASE + SYMF + u.flags + INC + [u.path, '-o', out]
    return run(cmd)

PIPE = 'default<O1>'
def load_ir(u, path):
    import llvmir
    m = llvmir.Module(path)
    keepers = [re.compile(r) for r, _ in u.contracts] + [re.compile(r) for r in u.noinline]
    if keepers:
        names = [(f, n) for f, n in m.fn_refs()]
        dem = subprocess.run(['c++filt'], input='\n'.join(n for _, n in names), capture_output=True, text=True).stdout.split('\n')
        for (f, n), d in zip(names, dem):
            if any(k.search(d) for k in keepers):
                m.add_attr(f, 'noinline'); 
                try: m.rem_attr(f, 'alwaysinline')
                except Exception: pass
    m.run_passes(u.opts.get('pipe', PIPE)); m.load()
    return m

def execute(u, m, h):
    import symexec as X
    ex = X.Exec(m, [(r, t) for r, t in u.contracts], u.opts)
    fn = m.fn('vc_h_' + h)
    if fn is None: raise ExtractionError(f'harness {h} not in IR')
    st = X.State()
    st = X.run_ctors(ex, st)
    ex.call_fn(st, fn, [])
    res = ex.explore(st)
    ex.nret = sum(1 for k, _ in res if k == 'ret'); ex.nend = sum(1 for k, _ in res if k == 'end')
    return ex

def _work(args):
    """child process: execute + prove one harness; everything happens in the child so that term tables stay local"""
    u, irpath, h, nproc, q, verbose = args
    t0 = time.time()
    try:
        import symexec as X, smt
        m = load_ir(u, irpath)
        ex = execute(u, m, h)
        t1 = time.time()
        obls = dedup(ex)
        res = prove_all(ex, obls, u, nproc)
        q.put(dict(h=h, ok=True, t_exec=t1 - t0, t=time.time() - t0, paths=ex.nret, ended=ex.nend, obls=res, called=sorted(ex.dem(n) for n in ex.called if not n.startswith('vc_h_')),
                   contracts_used={ex.dem(k): v for k, v in ex.contract_used.items()}, covers={k: len(v) for k, v in ex.covers.items()}, assumptions=sorted(ex.assumptions),
                   houdini=dict(ex.houdini), cuts=[f'{ex.dem(a)} loop {b}' for (a, b), v in ex.loops_done.items() if v == 'cut']))
    except BaseException as e:
        q.put(dict(h=h, ok=False, err=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-3000:], t=time.time() - t0))

def dedup(ex):
    seen = {}; out = []
    for o in ex.obls:
        k = (o.name, o.goal if not isinstance(o.goal, bool) else o.goal, frozenset(o.pc))
        if k in seen: seen[k] += 1; continue
        seen[k] = 1; out.append(o)
    return out
def _prove_slice(args):
    obls, i, n, timeout, q, stop = args
    import smt
    for k in smt.STATS: smt.STATS[k] = 0
    out = []
    for j in range(i, len(obls), n):
        o = obls[j]; t = time.time()
        if stop.value >= 4: out.append((j, 'skipped', 'stopped after earlier failures', 0)); continue
        try: st, by = smt.prove(o.pc, o.goal, timeout)
        except Exception as e: st, by = 'unknown', repr(e)[:200]
        if st == 'cex': stop.value += 4
        elif st != 'proved': stop.value += 1
        out.append((j, st, by, time.time() - t))
    q.put((out, dict(smt.STATS)))
def prove_all(ex, obls, u, nproc):
    import smt
    res = [None] * len(obls)
    n = max(1, min(nproc, len(obls)))
    stats = dict(smt.STATS)
    stop = mp.get_context('fork').Value('i', 0)
    if n == 1:
        q = _LocalQ(); _prove_slice((obls, 0, 1, u.timeout, q, stop)); parts = [q.v]
    else:
        ctx = mp.get_context('fork'); q = ctx.Queue()
        ps = [ctx.Process(target=_prove_slice, args=((obls, i, n, u.timeout, q, stop),)) for i in range(n)]
        for p in ps: p.start()
        parts = []
        import queue as Q
        end = time.time() + u.opts.get('prove_time', 700)
        while len(parts) < n:
            try: parts.append(q.get(timeout=2))
            except Q.Empty:
                if all(not p.is_alive() for p in ps) and q.empty(): break
                if time.time() > end: break
        for p in ps:
            if p.is_alive() and len(parts) < n: p.terminate()
            p.join(5)
    for out, st in parts:
        for k, v in st.items(): stats[k] = stats.get(k, 0) + v
        for j, s, by, t in out: res[j] = (s, by, t)
    r = []
    for o, x in zip(obls, res):
        s, by, t = x if x else ('unknown', 'worker lost', 0)
        r.append(dict(name=o.name, kind=o.kind, fn=o.fn, status=s, by=by if s == 'proved' else None, model=clean(by) if s == 'cex' else None, t=round(t, 3),
                      info=by if s in ('unknown', 'skipped') else None, goal=str(fmt(o.goal))[:600] if s != 'proved' else None, pc=[str(fmt(f))[:300] for f in o.pc[:60]] if s != 'proved' else None))
    ex_stats.append(stats)
    for x in r: x.setdefault('stats', None)
    if r: r[0]['stats'] = stats
    return r
ex_stats = []
class _LocalQ:
    def put(s, v): s.v = v
def clean(m):
    return {k: v for k, v in (m or {}).items()} if isinstance(m, dict) else {}
def fmt(f):
    if isinstance(f, bool): return f
    op = {'eq': '== 0', 'ne': '!= 0', 'lt': '< 0', 'le': '<= 0'}
    if f[0] in op: return f'{f[1]} {op[f[0]]}'
    if f[0] in ('and', 'or'): return '(' + f' {f[0]} '.join(str(fmt(x)) for x in f[1]) + ')'
    return str(f)

def verify_unit(u, work, nproc=8, verbose=False, par=None, only=None):
    """-> list of per-harness results"""
    ir = f'{work}/{u.src}{u.tag}.ll'
    rc, o, e = compile_ir(u, ir)
    if rc: raise ExtractionError('the contract unit does not compile against the current source:\n' + e[:3000])
    hs = [h for h in u.names() if only is None or h in only]
    ctx = mp.get_context('fork'); q = ctx.Queue()
    par = par or min(len(hs), nproc)
    per = max(1, nproc // max(1, par))
    results = []; pend = list(hs); running = {}
    import queue as Q
    tmax = u.opts.get('wall', 800)
    def spawn():
        while pend and len(running) < par:
            h = pend.pop(0)
            p = ctx.Process(target=_work, args=((u, ir, h, per, q, verbose),)); p.start(); running[h] = (p, time.time())
    spawn()
    while running:
        try:
            r = q.get(timeout=1)
            results.append(r); p, _ = running.pop(r['h']); p.join(10); spawn(); continue
        except Q.Empty: pass
        for h, (p, t) in list(running.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty(): running.pop(h); results.append(dict(h=h, ok=False, err=f'worker died rc={p.exitcode}', t=time.time() - t)); spawn()
            elif time.time() - t > tmax:
                p.terminate(); running.pop(h); results.append(dict(h=h, ok=False, err='time budget exhausted', t=time.time() - t)); spawn()
    return results

def native(binary, h, mode, seed, n, modelfile='-', tmax=30):
    try: rc, o, e = run([binary, h, mode, str(seed), str(n), modelfile, str(tmax)], timeout=tmax + 60)
    except subprocess.TimeoutExpired: return ('hang', '')
    if o.startswith('FAIL'): return ('fail', o)
    if o.startswith('OK'): return ('ok', o)
    return ('error', f'rc={rc} {o[:200]} {e[:200]}')

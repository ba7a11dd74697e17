"""Discharging obligations: linear abstraction (fast), polynomial identity reduction, and a portfolio of z3 / nlsat / cvc5."""
import z3, subprocess, os, tempfile, time, threading
from fractions import Fraction
import expr as E
from expr import Poly, ATOMS, Not, And, Or

STATS = dict(linear=0, algebra=0, z3=0, nlsat=0, cvc5=0, z3_nl=0, solver_s=0.0, decide=0, trivial=0)
_zc = {}
def zconst(i):
    v = _zc.get(i)
    if v is None:
        a = ATOMS[i]
        v = z3.Int(f'a{i}') if a.sort == 'I' else z3.Real(f'a{i}')
        _zc[i] = v
    return v
def znum(c, real):
    if isinstance(c, Fraction): return z3.Q(c.numerator, c.denominator)
    return z3.RealVal(c) if real else z3.IntVal(c)
_zm = {}
def monovar(m):
    """opaque variable for a non-linear monomial"""
    v = _zm.get(m)
    if v is None:
        isI = all(ATOMS[i].sort == 'I' for i, _ in m)
        nm = 'm' + '_'.join(f'{i}.{e}' for i, e in m)
        v = z3.Int(nm) if isI else z3.Real(nm)
        _zm[m] = v
    return v
_zp = {}
def zpoly(p, linear):
    key = (p, linear)
    r = _zp.get(key)
    if r is not None: return r
    real = not E.isint(p)
    ts = []
    for m, c in p.t.items():
        if not m: ts.append(znum(c, real)); continue
        if linear and (len(m) > 1 or m[0][1] > 1): v = monovar(m)
        else:
            v = None
            for i, e in m:
                x = zconst(i)
                if real and ATOMS[i].sort == 'I': x = z3.ToReal(x)
                for _ in range(e): v = x if v is None else v * x
        if real and v.sort() == z3.IntSort(): v = z3.ToReal(v)
        ts.append(v if c == 1 else znum(c, real) * v)
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _zp[key] = r
    return r
_cl = {}
def cleared(p):
    """relations between integers are stated with integer coefficients"""
    if E.isint(p): return p
    r = _cl.get(p)
    if r is None:
        r = p
        if all(ATOMS[i].sort == 'I' for m in p.t for i, _ in m):
            from math import lcm
            d = 1
            for c in p.t.values(): d = lcm(d, Fraction(c).denominator)
            r = E.scale(p, d)
        _cl[p] = r
    return r
_zfc = {}
def zform(f, linear=False):
    if f is True or f is False or f[0] == 'z': return zform0(f, linear)
    k = (f, linear)
    r = _zfc.get(k)
    if r is None: r = _zfc[k] = zform0(f, linear)
    return r
def zform0(f, linear=False):
    if f is True: return z3.BoolVal(True)
    if f is False: return z3.BoolVal(False)
    k = f[0]
    if k == 'z': return f[1]
    if k in ('eq', 'ne', 'lt', 'le'):
        z = zpoly(cleared(f[1]), linear); zero = z3.RealVal(0) if z.sort() == z3.RealSort() else z3.IntVal(0)
        return {'eq': lambda: z == zero, 'ne': lambda: z != zero, 'lt': lambda: z < zero, 'le': lambda: z <= zero}[k]()
    if k == 'and': return z3.And(*[zform(x, linear) for x in f[1]])
    if k == 'or': return z3.Or(*[zform(x, linear) for x in f[1]])
    raise ValueError(f)

BASEFACTS = []         # callables: atom id -> list of formulas (facts about an atom kind)
def atom_facts(i):
    a = ATOMS[i]; fs = []
    me = E.atomp(i)
    if a.kind == 'sqrt':
        p = a.args[0]
        sq = Poly({((i, 2),): 1})
        fs.append(('ge0sqrt', p, i))
    elif a.kind == 'idiv':
        p, k = a.args
        fs.append(E.le(E.scale(me, k), p)); fs.append(E.lt(p, E.add(E.scale(me, k), k)))
    elif a.kind in ('sin', 'cos'):
        fs.append(E.le(me, 1)); fs.append(E.le(-1, me))
    for g in BASEFACTS: fs += g(i)
    return fs
_zfa = {}
def zfacts(ids, linear=False):
    k = (frozenset(ids), linear)
    r = _zfa.get(k)
    if r is None: r = _zfa[k] = zfacts0(k[0], linear)
    return r
def zfacts0(ids, linear=False):
    out = []
    trig = {}
    ufs = {}
    for i in ids:
        a = ATOMS[i]
        for f in atom_facts(i):
            if isinstance(f, tuple) and f and f[0] == 'ge0sqrt':
                p = f[1]; v = zconst(i)
                zp_ = zpoly(p, linear) if isinstance(p, Poly) else znum(p, True)
                out.append(v >= 0)
                sq = monovar(((i, 2),)) if linear else v * v
                if i in E.REDUCE or not isinstance(p, Poly): out.append(sq == zp_)
                else: out.append(z3.Implies(zp_ >= 0, sq == zp_))
                if isinstance(p, Poly): out.append(z3.Implies(zp_ > 0, v > 0))
            else: out.append(zform(f, linear))
        if a.kind == 'inv':
            p = a.args[0]
            if linear:
                zp_ = zpoly(p, True); v = zconst(i)
                if len(p.t) == 1:
                    (m, c), = p.t.items(); prod = monovar(E.mmul(m, ((i, 1),)))
                    out.append(z3.Implies(zp_ != 0, prod == znum(Fraction(1) / c, True)))
                out.append(z3.Implies(zp_ > 0, v > 0)); out.append(z3.Implies(zp_ < 0, v < 0))
            else:
                zp_ = zpoly(p, False); v = zconst(i)
                out.append(z3.Implies(zp_ != 0, zp_ * v == 1))
        if a.kind in ('sin', 'cos'): trig.setdefault(a.args, {})[a.kind] = i
        if a.kind in ('sel', 'uf'): ufs.setdefault((a.kind, a.sort, a.args[0], len(a.args)), []).append(i)
        elif a.kind == 'sum':
            ufs.setdefault((a.kind, a.sort, a.args[1], 3, skel(a.args[2])), []).append(i)
            n = a.args[0]
            if E.sum_nonneg(i):
                out.append(z3.Implies(zform(E.le(0, n), linear), zconst(i) >= 0))
                C = indbound(a.args[2])
                if a.sort == 'I' and C is not None: out.append(z3.Implies(zform(E.lt(0, n), linear), zform(E.le(bodyat(a, 0), E.atomp(i)), linear)))
                if C is not None: out.append(z3.Implies(zform(E.le(0, n), linear), zform(E.le(E.atomp(i), E.scale(n, C)) if isinstance(n, Poly) else E.le(E.atomp(i), n * C), linear)))
        elif a.kind == 'ind':
            v = zconst(i); c = zform(a.args[0], linear)
            out.append(z3.If(c, v == 1, v == 0))
    for arg, d in trig.items():
        if len(d) == 2:
            s, c = d['sin'], d['cos']
            if linear: out.append(monovar(((s, 2),)) + monovar(((c, 2),)) == 1)
            else: out.append(zconst(s) * zconst(s) + zconst(c) * zconst(c) == 1)
    for k, l in ufs.items():
        if len(l) > 60: continue
        for x in range(len(l)):
            for y in range(x):
                ax, ay = ATOMS[l[x]].args, ATOMS[l[y]].args
                if k[0] == 'sum': conds = uf_eq_conds((ax[0], ax[2]), (ay[0], ay[2])) if not bound_in(ax[2], ay[2]) else (uf_eq_conds(ax[:1], ay[:1]) if ax[2] == ay[2] else None)
                else: conds = uf_eq_conds(ax[1:], ay[1:])
                if k[0] == 'sum' and ax[2] == ay[2] and E.sum_nonneg(l[x]):
                    C = indbound(ax[2])
                    for (p, u), (q, w) in (((ax[0], l[x]), (ay[0], l[y])), ((ay[0], l[y]), (ax[0], l[x]))):
                        f = E.le(p, q)
                        if f is False: continue
                        last = E.add(E.atomp(u), bodyat(ATOMS[u], p))
                        out.append(z3.Implies(zform(E.lt(p, q), linear), zform(E.le(last, E.atomp(w)), linear)))
                        out.append(z3.Implies(zform(f, linear), z3.And(zconst(u) <= zconst(w), zform(E.le(E.sub(E.atomp(w), E.atomp(u)), E.scale(E.sub(q, p), C) if isinstance(E.sub(q, p), Poly) else E.sub(q, p) * C), linear)) if C is not None else zconst(u) <= zconst(w)))
                if conds is None: continue
                out.append(z3.Implies(z3.And(*[zform(c, linear) for c in conds]) if conds else z3.BoolVal(True), zconst(l[x]) == zconst(l[y])))
    return out
def skel(p): return p
def bodyat(a, p):
    b = next(iter(E.bvar(a.args[1]).atoms()))
    return E.subst(a.args[2], {b: p})
def indbound(p):
    """upper bound of one term of a sum of indicators"""
    if not isinstance(p, Poly) or not all(c >= 0 and all(ATOMS[j].kind == 'ind' for j, _ in m) for m, c in p.t.items()): return None
    return sum(p.t.values())
def bound_in(a, b): return True
def uf_eq_conds(xs, ys):
    cs = []
    for x, y in zip(xs, ys):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                r = uf_eq_conds(x, y)
                if r is None: return None
                cs += r
            else: return None
        elif isinstance(x, (Poly, int, Fraction)) and isinstance(y, (Poly, int, Fraction)):
            f = E.eq(x, y)
            if f is False: return None
            if f is not True: cs.append(f)
        elif x != y: return None
    return cs

def closure(fs):
    s = set()
    for f in fs: s |= E.fatoms(f)
    return withterms(s)
_wt = {}
def withterms(s):
    """for every sum of indicators also the next term"""
    ext = None
    for i in s:
        a = ATOMS[i]
        if a.kind != 'sum' or a.sort != 'I': continue
        r = _wt.get(i)
        if r is None:
            r = set()
            if indbound(a.args[2]) is not None:
                for x in (0, a.args[0]):
                    b = bodyat(a, x)
                    if isinstance(b, Poly): r = r | E.fatoms(('le', b))
            _wt[i] = r
        if r: ext = r if ext is None else ext | r
    return s | ext if ext else s

_dc = {}
def check_linear(fs, timeout=1500):
    """True = proved unsatisfiable in the linear abstraction"""
    key = frozenset(f for f in fs)
    r = _dc.get(key)
    if r is not None: return r
    t = time.time()
    s = z3.SolverFor('ALL') if False else z3.Solver()
    s.set('timeout', timeout)
    cr, sr, za = s.ctx.ref(), s.solver, z3.Z3_solver_assert
    for f in fs: za(cr, sr, zform(f, True).ast)
    for g in zfacts_and(closure(fs)): za(cr, sr, g.ast)
    # squares of anything are non-negative
    for m in {m for f in fs for m in evenmonos(f)}: za(cr, sr, (monovar(m) >= 0).ast)
    r = s.check() == z3.unsat
    STATS['solver_s'] += time.time() - t; STATS['decide'] += 1
    _dc[key] = r
    return r
_zand = {}
def zfacts_and(ids):
    k = frozenset(ids); r = _zand.get(k)
    if r is None:
        l = zfacts(k, True); r = _zand[k] = [z3.And(*l)] if len(l) > 1 else l
    return r
_em = {}
def evenmonos(f):
    r = _em.get(f)
    if r is None: r = _em[f] = [m for p in polys(f) for m in p.t if m and all(e % 2 == 0 for _, e in m)]
    return r
def polys(f):
    if isinstance(f, bool): return []
    if f[0] in ('eq', 'ne', 'lt', 'le'): return [f[1]]
    if f[0] in ('and', 'or'): return [p for x in f[1] for p in polys(x)]
    return []

def relevant(pc, goal):
    """cone of influence by shared atoms"""
    at = withterms(set(E.fatoms(goal))); out = []; rest = [(f, E.fatoms(f)) for f in pc]
    ch = True
    while ch:
        ch = False; nr = []
        for f, a in rest:
            if not a or (a & at) or f[0] == 'z': out.append(f); at |= withterms(a); ch = True
            else: nr.append((f, a))
        rest = nr
    return out

# ---------------------------------------------------------------- algebra
def prove_zero(p, pc, depth=0):
    """p == 0 from: inv(q)*q = 1 (q != 0 proved from pc), sqrt, sin^2+cos^2, and the linear use of pc equalities"""
    if not isinstance(p, Poly): return p == 0
    # squares of square roots whose argument is non-negative here
    for i in sorted({j for m in p.t for j, e in m if e > 1}):
        a = ATOMS[i]
        if a.kind == 'sqrt' and isinstance(a.args[0], Poly) and i not in E.REDUCE and depth < 8 and nonneg_pc(a.args[0], pc):
            out = 0
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                base = tuple((j, f) if j != i else (j, e % 2) for j, f in m if j != i or e % 2)
                out = E.add(out, E.mul(Poly({base: c}) if base else c, E.power(a.args[0], e // 2)))
            p = E.reduce_sq(out)
            if not isinstance(p, Poly): return p == 0
    # eliminate inverses, innermost last
    for _ in range(40):
        invs = [i for i in p.atoms() if ATOMS[i].kind == 'inv']
        if not invs: break
        # choose an inverse whose atom is not inside another inverse's argument present
        i = max(invs)
        q = ATOMS[i].args[0]
        if not nonzero(q, pc): return False
        k = max(e for m in p.t for j, e in m if j == i)
        out = 0
        for m, c in p.t.items():
            e = dict(m).get(i, 0)
            base = tuple((j, f) for j, f in m if j != i)
            term = E.mul(Poly({base: c}) if base else c, E.power(q, k - e))
            out = E.add(out, term)
        p = E.reduce_sq(out)
        if not isinstance(p, Poly): return p == 0
    # sin^2 -> 1 - cos^2
    tr = {}
    for i in p.atoms():
        a = ATOMS[i]
        if a.kind == 'sin':
            j = E.atom('cos', 'R', a.args)
            tr[i] = j
    if tr:
        out = 0
        for m, c in p.t.items():
            q = c
            for i, e in m:
                if i in tr and e > 1:
                    f = E.sub(1, Poly({((tr[i], 2),): 1}))
                    q = E.mul(q, E.mul(E.power(f, e // 2), Poly({((i, 1),): 1}) if e % 2 else 1))
                else: q = E.mul(q, Poly({((i, e),): 1}))
            out = E.add(out, q)
        p = out
        if not isinstance(p, Poly): return p == 0
    # equalities of the path condition that define one atom linearly with constant coefficient
    for f in pc:
        if not isinstance(f, bool) and f[0] == 'eq':
            q = f[1]
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    if i in p.atoms() and all(i not in dict(m2) or m2 == m for m2 in q.t) and not any(i in ATOMS[j].deps for j in q.atoms()) and depth < 6:
                        r = E.scale(E.sub(q, Poly({m: c})), Fraction(-1) / c)
                        p2 = subst_top(p, i, r)
                        if prove_zero(p2, [g for g in pc if g is not f], depth + 1): return True
                        break
    # quadratic rewriting rules x^2 -> ... from the path condition (e.g. unit vectors: |n|^2 = 1)
    rules = []
    for f in pc:
        if not isinstance(f, bool) and f[0] == 'eq':
            q = f[1]
            sq = [m for m in q.t if len(m) == 1 and m[0][1] == 2]
            if sq:
                m = max(sq); i = m[0][0]
                if all(dict(m2).get(i, 0) == 0 or m2 == m for m2 in q.t):
                    rules.append((i, E.scale(E.sub(q, Poly({m: q.t[m]})), Fraction(-1) / q.t[m])))
    if rules:
        used = set(); rl = {}
        for i, r in rules:
            if i not in rl and not (isinstance(r, Poly) and (r.atoms() & set(rl))): rl[i] = r
        for _ in range(30):
            if not isinstance(p, Poly): break
            hit = False; out = 0
            for m, c in p.t.items():
                q = Poly({m: c}) if m else c
                for i, e in m:
                    if e > 1 and i in rl:
                        base = tuple((j, g) for j, g in m if j != i)
                        q = E.mul(Poly({base: c}) if base else c, E.mul(Poly({((i, e - 2),): 1}) if e > 2 else 1, rl[i]))
                        hit = True; break
                out = E.add(out, q)
            p = out
            if not hit: break
        if not isinstance(p, Poly): return p == 0
    return False
_nnpc = {}
def nonneg_pc(p, pc):
    k = (p, tuple(pc))
    if k not in _nnpc: _nnpc[k] = prove(list(pc), E.le(0, p), 3)[0] == 'proved'
    return _nnpc[k]
def subst_top(p, i, r):
    out = 0
    for m, c in p.t.items():
        e = dict(m).get(i, 0)
        base = tuple((j, f) for j, f in m if j != i)
        out = E.add(out, E.mul(Poly({base: c}) if base else c, E.power(r, e)))
    return E.reduce_sq(out)
_nz = {}
def nonzero(q, pc):
    f = ('eq', E._norm_eq(q)) if isinstance(q, Poly) else (q == 0)
    if f is False: return True
    if f is True: return False
    key = (f, frozenset(pc))
    if key in _nz: return _nz[key]
    if any(g == Not(f) for g in pc): r = True
    elif check_linear(relevant(pc, f) + [f]): r = True
    else: r = prove_nl(relevant(pc, f), Not(f), 3)[0] == 'proved'
    _nz[key] = r
    return r

# ---------------------------------------------------------------- non-linear portfolio
def smt2(fs, model=True):
    s = z3.Solver()
    ids = closure(fs)
    for f in fs: s.add(zform(f, False))
    for g in zfacts(ids, False): s.add(g)
    return s
def _run(cmd, text, timeout, res, key, ev):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(text)
    try:
        pr = subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        res.setdefault('_procs', []).append(pr)
        try: out, _ = pr.communicate(timeout=timeout + 2)
        except subprocess.TimeoutExpired: pr.kill(); out = ''
        first = out.strip().split('\n')[0] if out.strip() else ''
        if first in ('sat', 'unsat'):
            res[key] = (first, out)
            ev.set()
    finally:
        os.unlink(f.name)
        res['_n'] = res.get('_n', 0) + 1
        if res['_n'] == res['_total']: ev.set()
Z3NEW = 'z3-new'
def prove_nl(pc, goal, timeout):
    """-> ('proved', backend) | ('cex', model text) | ('unknown', None)"""
    t0 = time.time()
    fs = list(pc) + [Not(goal)]
    s = smt2(fs)
    s.set('timeout', int(min(timeout, 2) * 1000))
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    if r == z3.unsat: STATS['z3'] += 1; return ('proved', 'z3')
    if r == z3.sat:
        return ('cex', model_of(s.model(), closure(fs)))
    if timeout <= 2: return ('unknown', None)
    body = s.to_smt2().replace('(check-sat)', '')
    hasint = 'Int)' in body
    jobs = {'nlsat': ([Z3NEW, '-smt2', f'-T:{int(timeout)}'], body + '\n(check-sat-using qfnra-nlsat)\n'),
            'z3_nl': ([Z3NEW, '-smt2', f'-T:{int(timeout)}'], body + '\n(check-sat)\n'),
            'cvc5': (['cvc5', '--nl-cov', '--lang=smt2', f'--tlimit={int(timeout*1000)}'], '(set-logic QF_UFNIRA)\n' .replace('QF_UFNIRA', 'QF_NIRA' if hasint else 'QF_NRA') + '\n'.join(l for l in body.split('\n') if not l.startswith('(set-info')) + '\n(check-sat)\n')}
    res = {'_total': len(jobs)}; ev = threading.Event(); ths = []
    for k, (cmd, text) in jobs.items():
        th = threading.Thread(target=_run, args=(cmd, text, timeout, res, k, ev)); th.start(); ths.append(th)
    ev.wait(timeout + 5)
    for pr in res.get('_procs', []):
        if pr.poll() is None: pr.kill()
    for th in ths: th.join()
    STATS['solver_s'] += time.time() - t0
    for k in jobs:
        if k in res and res[k][0] == 'unsat': STATS[k] += 1; return ('proved', k)
    for k in jobs:
        if k in res and res[k][0] == 'sat':
            # get a model with the python nlsat
            s2 = z3.Tactic('qfnra-nlsat').solver() if not hasint else z3.Solver()
            s2.set('timeout', int(timeout * 1000))
            for a in s.assertions(): s2.add(a)
            try:
                if s2.check() == z3.sat: return ('cex', model_of(s2.model(), closure(fs)))
            except z3.Z3Exception: pass
            return ('cex', {})
    return ('unknown', None)
def model_of(m, ids):
    out = {}
    for i in ids:
        a = ATOMS[i]
        try:
            v = m.eval(zconst(i), model_completion=False)
            if z3.is_algebraic_value(v): v = v.approx(20)
            if z3.is_rational_value(v): out[a.name] = v.numerator_as_long() / v.denominator_as_long()
            elif z3.is_int_value(v): out[a.name] = v.as_long()
        except Exception: pass
    return out

def prove(pc, goal, timeout=20):
    """decide pc |- goal.  -> (status, backend/model)"""
    if goal is True: STATS['trivial'] += 1; return ('proved', 'trivial')
    if goal is not False and goal[0] == 'and':
        last = None
        for g in goal[1]:
            last = prove(pc, g, timeout)
            if last[0] != 'proved': return last
        return last
    if goal is not False and goal in pc: STATS['trivial'] += 1; return ('proved', 'path')
    pc, goal = fold_ind(pc, goal)
    if goal is True: STATS['linear'] += 1; return ('proved', 'path')
    c = split_lit(pc, goal)
    if c is not None:
        a = prove(list(pc) + [c], goal, timeout)
        if a[0] != 'proved': return a
        return prove(list(pc) + [Not(c)], goal, timeout)
    pc2, goal2 = subst_eqs(pc, goal)
    if goal2 is not goal and not isinstance(goal2, bool): pc2, goal2 = fold_ind(pc2, goal2)
    if goal2 is not goal:
        if goal2 is True: STATS['linear'] += 1; return ('proved', 'path')
        r = prove1(pc2, goal2, timeout)
        if r[0] == 'proved': return r
    return prove1(pc, goal, timeout)
def split_lit(pc, goal):
    """an integer equality on which an indicator of the goal depends and which the path condition leaves open"""
    if isinstance(goal, bool): return None
    for i in sorted(E.fatoms(goal)):
        if ATOMS[i].kind != 'ind' or any(ATOMS[j].kind == 'sym' and ATOMS[j].name.startswith('b~') for j in ATOMS[i].deps): continue
        c = ATOMS[i].args[0]
        for f in (c[1] if c[0] == 'and' else (c,)):
            if f[0] == 'ne': f = Not(f)
            if f[0] == 'eq' and E.isint(f[1]) and all(ATOMS[j].kind == 'sym' for j in f[1].atoms()) and f not in pc and Not(f) not in pc: 
                if check_linear(relevant(pc, f) + [Not(f)]) or check_linear(relevant(pc, f) + [f]): continue
                return f
    return None
def subst_eqs(pc, goal):
    """integer symbols defined by an equality of the path condition are replaced everywhere (also inside array reads)"""
    if isinstance(goal, bool): return pc, goal
    g0 = goal
    for _ in range(8):
        hit = None
        for f in pc:
            if isinstance(f, bool) or f[0] != 'eq' or not isinstance(f[1], Poly) or not E.isint(f[1]): continue
            q = f[1]
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and ATOMS[m[0][0]].kind == 'sym' and ATOMS[m[0][0]].sort == 'I':
                    i = m[0][0]
                    r = E.scale(E.sub(q, Poly({m: c})), -1 / Fraction(c))
                    if isinstance(r, Poly) and i in r.alldeps(): continue
                    d = E.fatoms(goal)
                    if i in d: hit = (i, r, f); break
            if hit: break
        if not hit: break
        i, r, f0 = hit
        if not isinstance(r, Poly): r = int(r)
        cache = {}
        goal = E.fsubst(goal, {i: r}, cache)
        pc = [E.fsubst(f, {i: r}, cache) for f in pc if f is not f0]
        pc = [f for f in pc if f is not True]
        if any(f is False for f in pc) or goal is True: return [], True
        if goal is False: break
    return (pc, goal) if goal != g0 else (pc, g0)
def prove1(pc, goal, timeout):
    if isinstance(goal, tuple) and goal[0] in ('eq', 'le', 'lt') and isinstance(goal[1], Poly) and any(ATOMS[i].kind == 'ind' for i in goal[1].atoms()):
        g = {'eq': E.eq, 'le': E.le, 'lt': E.lt}[goal[0]](E.tidy(goal[1]), 0)
        if g is True: return ('proved', 'algebra')
        goal = g
    rel = relevant(pc, goal) if goal is not False else list(pc)
    if any(isinstance(f, tuple) and has_z(f) for f in rel + [goal]):
        return prove_z(list(pc), goal, timeout)
    if check_linear(rel + [Not(goal)], 4000): STATS['linear'] += 1; return ('proved', 'z3-linear')
    if goal is not False and goal[0] == 'eq':
        try:
            if prove_zero(goal[1], rel): STATS['algebra'] += 1; return ('proved', 'algebra')
        except E.Blowup: pass
    r = prove_nl(rel, goal, timeout)
    if r[0] != 'proved' and len(rel) < len(pc):
        # the rest of the path condition may be contradictory by itself (infeasible path)
        if check_linear(list(pc)): return ('proved', 'z3-linear')
        r2 = prove_nl(list(pc), goal, timeout)
        if r2[0] == 'proved' or (r2[0] == 'cex'): return r2
        if r[0] == 'cex' : return ('unknown', None)
    return r
def fold_ind(pc, goal):
    """indicators whose condition is decided by the path condition are replaced by their value"""
    done = set()
    for _ in range(6):
        if isinstance(goal, bool): break
        ids = {i for i in E.fatoms(goal) if ATOMS[i].kind == 'ind' and i not in done and not any(ATOMS[j].kind == 'sym' and ATOMS[j].name.startswith('b~') for j in ATOMS[i].deps)}
        if not ids: break
        mp = {}
        for i in sorted(ids):
            done.add(i); c = ATOMS[i].args[0]
            if c in pc or check_linear(relevant(pc, c) + [Not(c)]): mp[i] = 1
            elif Not(c) in pc or check_linear(relevant(pc, c) + [c]): mp[i] = 0
        if mp:
            goal = E.fsubst(goal, mp); pc = [f for f in (E.fsubst(f, mp) for f in pc) if f is not True]
            if any(f is False for f in pc): return [], True
    return pc, goal
def has_z(f):
    if isinstance(f, bool): return False
    if f[0] == 'z': return True
    if f[0] in ('and', 'or'): return any(has_z(x) for x in f[1])
    return False
def prove_z(pc, goal, timeout):
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    fs = list(pc) + [Not(goal)]
    for f in fs: s.add(zform(f, False))
    for g in zfacts(closure(fs), False): s.add(g)
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    if r == z3.unsat: STATS['z3'] += 1; return ('proved', 'z3-bv')
    if r == z3.sat:
        m = s.model(); out = model_of(m, closure(fs))
        for d in m.decls():
            try:
                v = m[d]
                if z3.is_bv_value(v): out[d.name()] = v.as_signed_long()
            except Exception: pass
        return ('cex', out)
    return ('unknown', None)

def quadratic(p):
    """symmetric matrix of a polynomial of degree <= 2 (last row/column: homogenising variable)"""
    if any(sum(e for _, e in m) > 2 for m in p.t): return None
    ids = sorted(p.atoms()); ix = {i: k for k, i in enumerate(ids)}; n = len(ids)
    M = [[Fraction(0)] * (n + 1) for _ in range(n + 1)]
    for m, c in p.t.items():
        l = [ix[i] for i, e in m for _ in range(e)]
        l += [n] * (2 - len(l))
        M[l[0]][l[1]] += Fraction(c) / 2; M[l[1]][l[0]] += Fraction(c) / 2
    return M
def psd(M):
    n = len(M); M = [r[:] for r in M]
    for k in range(n):
        if M[k][k] < 0: return False
        if M[k][k] == 0:
            if any(M[k][j] != 0 for j in range(k + 1, n)): return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                for j in range(k, n): M[i][j] -= f * M[k][j]
    return True
_nn = {}
def nonneg(p):
    if p in _nn: return _nn[p]
    if all(c >= 0 and all(e % 2 == 0 for _, e in m) for m, c in p.t.items()): r = True
    elif quadratic(p) is not None: r = psd(quadratic(p))
    else:
        f = ('lt', E._norm_ineq(p))
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', 2000)
        s.add(zform(f))
        for g in zfacts(closure([f])): s.add(g)
        try: r = s.check() == z3.unsat
        except z3.Z3Exception: r = False
    _nn[p] = r
    return r
E.NONNEG_HOOK[0] = nonneg

"""Canonical terms: multivariate polynomials over atoms (symbols, sqrt, inverse, uninterpreted functions, array reads) with
rational coefficients, and formulas over polynomial comparisons.  Everything is immutable and hash-consed by structure."""
from fractions import Fraction

ATOMS = []            # id -> Atom
_ATOM_IX = {}         # key -> id

import os
DEBUG = bool(os.environ.get('ATOMDBG'))
class Atom:
    __slots__ = ('id', 'kind', 'sort', 'args', 'name', 'deps')
    def __repr__(a): return a.name

def atom(kind, sort, args, name=None):
    key = (kind, sort, args)
    i = _ATOM_IX.get(key)
    if i is not None: return i
    a = Atom(); a.id = len(ATOMS); a.kind = kind; a.sort = sort; a.args = args
    a.name = name or f'{kind}!{a.id}'
    if DEBUG and name is None: a.name = f'{kind}({", ".join(map(str, args))})'
    deps = set()
    for x in args:
        deps |= _deps(x)
    a.deps = frozenset(deps)
    ATOMS.append(a); _ATOM_IX[key] = a.id
    return a.id
def _deps(x):
    if isinstance(x, Poly):
        d = set()
        for m in x.t:
            for (i, e) in m: d.add(i); d |= ATOMS[i].deps
        return d
    if isinstance(x, tuple):
        d = set()
        for y in x: d |= _deps(y)
        return d
    return set()
FORM = ('eq', 'ne', 'lt', 'le', 'and', 'or')

class Poly:
    __slots__ = ('t', '_h', '_s')
    def __init__(p, t): p.t = t; p._h = None; p._s = None
    def __hash__(p):
        if p._h is None: p._h = hash(frozenset(p.t.items()))
        return p._h
    def __eq__(p, o): return isinstance(o, Poly) and p.t == o.t
    def __ne__(p, o): return not p == o
    def __repr__(p):
        r = []
        for m, c in sorted(p.t.items(), key=lambda x: x[0]):
            s = '*'.join(ATOMS[i].name + (f'^{e}' if e > 1 else '') for i, e in m)
            r.append(f'{c}*{s}' if s and c != 1 else (s or str(c)))
        return ' + '.join(r) if r else '0'
    def atoms(p):
        return {i for m in p.t for i, _ in m}
    def alldeps(p):
        s = set()
        for i in p.atoms(): s.add(i); s |= ATOMS[i].deps
        return s

def isconst(x): return not isinstance(x, Poly)
def sym(name, sort): return Poly({((atom('sym', sort, (name,), name), 1),): 1})
def atomp(i): return Poly({((i, 1),): 1})
_fresh = [0]
TAUS = [()]          # iteration numbers of the enclosing cut loops: an arbitrary value made in a loop may differ per iteration
def fresh(prefix, sort):
    _fresh[0] += 1
    if TAUS[0]: return uf(f'{prefix}#{_fresh[0]}', sort, *TAUS[0])
    return sym(f'{prefix}#{_fresh[0]}', sort)
def mk(t):
    """normalise a term dict: constants become python numbers"""
    if not t: return 0
    if len(t) == 1 and () in t: return _num(t[()])
    return Poly(t)
def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c
def terms(x):
    if isinstance(x, Poly): return x.t
    return {(): x} if x != 0 else {}
def known_nn(a):
    return a._s is True if isinstance(a, Poly) else a >= 0
def add(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return _num(a + b)
    r = _add(a, b)
    if isinstance(r, Poly) and known_nn(a) and known_nn(b): r._s = True
    return r
def _add(a, b):
    if not isinstance(a, Poly): a, b = b, a
    if not isinstance(b, Poly) and b == 0: return a
    t = dict(a.t)
    for m, c in terms(b).items():
        v = t.get(m, 0) + c
        if v == 0: del t[m]
        else: t[m] = v
    return mk(t)
def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b))
def scale(a, k):
    if not isinstance(a, Poly): return _num(a * k)
    if k == 0: return 0
    if k == 1: return a
    return Poly({m: _num(c * k) for m, c in a.t.items()})
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for i, e in m2: d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))
REDUCE = {}      # atom id of a square root -> its (non-negative) argument
CANCEL = {}      # atom id of an inverse -> atom id it cancels with (only when proved non-zero unconditionally)
def mul(a, b):
    r = _mul(a, b)
    if isinstance(r, Poly) and r._s is None and ((known_nn(a) and known_nn(b)) or (isinstance(a, Poly) and a == b)):
        r._s = True
    return r
def _mul(a, b):
    if not isinstance(a, Poly): return scale(b, a)
    if not isinstance(b, Poly): return scale(a, b)
    t = {}
    need = False
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v == 0: t.pop(m, None)
            else: t[m] = v
    if len(t) > 60000: raise Blowup()
    if REDUCE:
        for m in t:
            for i, e in m:
                if e > 1 and i in REDUCE: need = True; break
            if need: break
    r = mk(t)
    return reduce_sq(r) if need else r
class Blowup(Exception): pass
def reduce_sq(p):
    if not isinstance(p, Poly): return p
    out = {}
    res = 0
    rest = {}
    for m, c in p.t.items():
        hit = None
        for i, e in m:
            if e > 1 and i in REDUCE: hit = (i, e); break
        if hit is None: rest[m] = c
        else:
            i, e = hit
            base = tuple((j, f) if j != i else (j, e % 2) for j, f in m if j != i or e % 2)
            q = Poly({base: c}) if base else c
            x = REDUCE[i]
            for _ in range(e // 2): q = mul(q, x)
            res = add(res, q)
    return add(mk(rest), res)
def power(a, n):
    r = 1
    for _ in range(n): r = mul(r, a)
    return r
def lin_const(p):
    return p.t.get((), 0) if isinstance(p, Poly) else p
def subst(p, mp, cache=None):
    """substitute atoms (id -> value) everywhere, also inside atom arguments"""
    if cache is None: cache = {}
    if not isinstance(p, Poly): return p
    ids = set(mp)
    if not (p.alldeps() & ids): return p
    r = 0
    for m, c in p.t.items():
        q = c
        for i, e in m:
            q = mul(q, power(subst_atom(i, mp, ids, cache), e))
        r = add(r, q)
    return r
REBUILD = {}   # atom kind -> function(args, sort, name) re-creating a normalised term
def subst_atom(i, mp, ids, cache):
    if i in mp: return mp[i]
    if i in cache: return cache[i]
    a = ATOMS[i]
    if not (a.deps & ids): r = atomp(i)
    else:
        args = tuple(subst_any(x, mp, cache) for x in a.args)
        f = REBUILD.get(a.kind)
        r = f(args, a.sort) if f else atomp(atom(a.kind, a.sort, args))
    cache[i] = r
    return r
def subst_any(x, mp, cache):
    if isinstance(x, Poly): return subst(x, mp, cache)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in FORM: return fsubst(x, mp, cache)
        return tuple(subst_any(y, mp, cache) for y in x)
    return x

# ---- term constructors
NONNEG_HOOK = [lambda p: False]
def sqrt(p):
    if not isinstance(p, Poly):
        if p < 0: return fresh('nan', 'R')
        import math
        p = Fraction(p)
        n, d = math.isqrt(p.numerator), math.isqrt(p.denominator)
        if n * n == p.numerator and d * d == p.denominator: return _num(Fraction(n, d))
    i = atom('sqrt', 'R', (p,))
    if i not in REDUCE and i not in _SQ_TRIED:
        _SQ_TRIED.add(i)
        if (not isinstance(p, Poly)) or p._s or NONNEG_HOOK[0](p): REDUCE[i] = p
    r = atomp(i); r._s = True
    return r
_SQ_TRIED = set()
def inv(p):
    if not isinstance(p, Poly):
        if p == 0: return fresh('div0', 'R')
        return _num(Fraction(1) / p)
    # pull out the constant content so that 1/(2a) and 1/a share an atom
    c = content(p)
    if c != 1:
        return scale(inv(scale(p, Fraction(1) / c)), Fraction(1) / c)
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if len(m) > 1 or m[0][1] > 1:      # 1/(a*b) = (1/a)*(1/b)   (both sides unconstrained where undefined)
            r = Fraction(1) / k
            for i, e in m: r = mul(r, power(inv(atomp(i)), e))
            return r
        i = m[0][0]
        a = ATOMS[i]
        if a.kind == 'inv': pass
    return atomp(atom('inv', 'R', (p,)))
def div(a, b): return mul(a, inv(b))
def content(p):
    """leading coefficient in a fixed monomial order"""
    m = max(p.t, key=lambda m: (sum(e for _, e in m), m))
    return p.t[m]
REBUILD['sqrt'] = lambda args, sort: sqrt(args[0])
REBUILD['inv'] = lambda args, sort: inv(args[0])
def sin(p):
    if not isinstance(p, Poly) and p == 0: return 0
    a = acos_arg(p)
    if a is not None: return sqrt(sub(1, mul(a, a)))     # acos takes values in [0, pi]
    return atomp(atom('sin', 'R', (p,)))
def cos(p):
    if not isinstance(p, Poly) and p == 0: return 1
    a = acos_arg(p)
    if a is not None: return a
    return atomp(atom('cos', 'R', (p,)))
def acos_arg(p):
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'acos': return ATOMS[m[0][0]].args[0]
    return None
REBUILD['sin'] = lambda args, sort: sin(args[0])
REBUILD['cos'] = lambda args, sort: cos(args[0])
def uf(name, sort, *args):
    return atomp(atom('uf', sort, (name,) + tuple(args)))
def isint(x):
    if not isinstance(x, Poly): return not isinstance(x, Fraction) or x.denominator == 1
    return all(ATOMS[i].sort == 'I' for i in x.atoms()) and all(not isinstance(c, Fraction) or c.denominator == 1 for c in x.t.values())
def floordiv(p, k):
    if not isinstance(p, Poly): return p // k
    if k == 1: return p
    if all(c % k == 0 for c in p.t.values()): return Poly({m: c // k for m, c in p.t.items()})
    # split off the divisible part: floor((k*q + r)/k) = q + floor(r/k)
    q = {m: c // k for m, c in p.t.items() if c // k != 0}
    r = {m: c % k for m, c in p.t.items() if c % k != 0}
    rp = mk(r)
    if not isinstance(rp, Poly): return add(mk(q), rp // k)
    return add(mk(q), atomp(atom('idiv', 'I', (rp, k))))
REBUILD['idiv'] = lambda args, sort: floordiv(args[0], args[1])

# ---- indicators and sums
def Ind(f):
    """1 if f else 0"""
    if f is True: return 1
    if f is False: return 0
    # canonical in equalities: [p != 0] = 1 - [p == 0]
    if f[0] == 'ne': return sub(1, Ind(('eq', f[1])))
    if f[0] == 'and' and len(f[1]) <= 4:
        for g in f[1]:
            if g[0] == 'ne':
                rest = And(*[h for h in f[1] if h is not g])
                return sub(Ind(rest), Ind(And(rest, ('eq', g[1]))))
    if f[0] == 'and' and all(g[0] in ('eq', 'le', 'lt', 'ne') and isinstance(g[1], Poly) for g in f[1]):
        k = sorted(f[1], key=lambda g: (g[0], sorted((m, float(c)) for m, c in g[1].t.items())))
        f = ('and', tuple(k)) if isinstance(f[1], tuple) else ('and', type(f[1])(k))
    return atomp(atom('ind', 'I', (f,)))
REBUILD['ind'] = lambda args, sort: Ind(fsubst1(args[0]))
def fsubst1(f): return f
def bvar(d): return sym(f'b~{d}', 'I')
def bdepth(p):
    d = 0
    for i in p.alldeps() if isinstance(p, Poly) else ():
        n = ATOMS[i].name
        if ATOMS[i].kind == 'sym' and n.startswith('b~'): d = max(d, int(n[2:]))
    return d
def Sum(n, tid, body):
    """sum of body(t) for t = 0 .. n-1 (extended to negative n by the recurrence)"""
    if not isinstance(body, Poly): return mul(n, body)
    if tid not in body.alldeps(): return mul(n, body)
    # a bound variable one above those inside
    d = bdepth(body) + 1
    b = bvar(d); bid = next(iter(b.atoms()))
    return sum_(n, bid, subst(body, {tid: b}))
def tidy(p):
    """y*[y <= 0 and C] = y*[y < 0 and C]"""
    if not isinstance(p, Poly): return p
    for m, c in p.t.items():
        ys = {i for i, e in m if ATOMS[i].kind != 'ind'}
        if not ys or len(ys) == len(m): continue
        for i, e in m:
            a = ATOMS[i]
            if a.kind != 'ind': continue
            fs = a.args[0][1] if a.args[0][0] == 'and' else (a.args[0],)
            new = []; ch = False; zero = False; sg = {}
            for f in fs:
                if f[0] in ('le', 'eq', 'lt') and isinstance(f[1], Poly) and len(f[1].t) == 1:
                    (mm, cc), = f[1].t.items()
                    if len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in ys:
                        if f[0] == 'eq': zero = True; break
                        s = sg.setdefault(mm[0][0], cc > 0)
                        if s != (cc > 0): zero = True; break
                        if f[0] == 'le': f = ('lt', f[1]); ch = True
                new.append(f)
            if zero or ch:
                rest = tuple(x for x in m if x[0] != i)
                q = sub(p, Poly({m: c}))
                if not zero: q = add(q, mul(Poly({rest: c}), Ind(And(*new))))
                return tidy(q)
    return p
def sum_(n, bid, body):
    body = tidy(body)
    if not isinstance(body, Poly) or bid not in body.alldeps(): return mul(n, body)
    if not isinstance(n, Poly):
        r = 0
        if abs(n) <= 64:
            for k in range(n): r = add(r, subst(body, {bid: k}))
            for k in range(n, 0): r = sub(r, subst(body, {bid: k}))
            return r
    k = lin_const(n) if isinstance(n, Poly) else 0
    r = 0
    for m, c in body.t.items():
        inn = []; out = c
        outm = []
        for i, e in m:
            if i == bid or bid in ATOMS[i].deps: inn.append((i, e))
            else: outm.append((i, e))
        coef = Poly({tuple(outm): c}) if outm else c
        inn = tuple(inn)
        if not inn: r = add(r, mul(n, coef)); continue
        r = add(r, mul(coef, sum1(n, bid, inn)))
    return r
def sum1(n, bid, m):
    """sum of one monomial in which every factor depends on the bound variable"""
    term = Poly({m: 1})
    if m == ((bid, 1),): return scale(mul(n, sub(n, 1)), Fraction(1, 2))
    # indicator of an equation that fixes the bound variable
    for i, e in m:
        a = ATOMS[i]
        if a.kind == 'ind':
            fs = a.args[0][1] if a.args[0][0] == 'and' else (a.args[0],)
            for f in fs:
                if f[0] == 'eq':
                    q = f[1]; cf = q.t.get(((bid, 1),))
                    if cf in (1, -1):
                        rest = add(q, Poly({((bid, 1),): -cf}))
                        if isinstance(rest, Poly) and (bid in rest.alldeps() or not isint(rest)): continue
                        ev = scale(rest, -cf)
                        mm = tuple((j, x) for j, x in m if j != i)
                        v = subst(Poly({mm: 1}), {bid: ev}) if mm else 1
                        g = And(*[fsubst(h, {bid: ev}) for h in fs if h is not f])
                        return sub(mul(Ind(And(le(0, ev), lt(ev, n), g)), v), mul(Ind(And(le(n, ev), lt(ev, 0), g)), v))
    k = lin_const(n)
    if isinstance(n, Poly) and k != 0 and isinstance(k, int) and abs(k) <= 8:
        n0 = sub(n, k); r = sum1(n0, bid, m)
        if k > 0:
            for j in range(k): r = add(r, subst(term, {bid: add(n0, j)}))
        else:
            for j in range(k, 0): r = sub(r, subst(term, {bid: add(n0, j)}))
        return r
    return atomp(atom('sum', 'I' if isint(term) else 'R', (n, bid_depth(bid), term)))
def bid_depth(bid): return int(ATOMS[bid].name[2:])
def resum(args, sort):
    n, d, term = args
    bid = next(iter(bvar(d).atoms()))
    # the bound variable must stay above the variables inside
    return sum_(n, bid, term)
REBUILD['sum'] = resum
def sum_nonneg(i):
    a = ATOMS[i]
    p = a.args[2]
    return all((c >= 0) and all(ATOMS[j].kind == 'ind' or e % 2 == 0 for j, e in m) for m, c in p.t.items())

# ---- formulas.  True/False, ('eq',p) p==0, ('ne',p), ('lt',p) p<0, ('le',p) p<=0, ('and',..), ('or',..), ('z',z3expr)
def _norm_eq(p):
    c = content(p)
    return scale(p, Fraction(1) / c) if c != 1 else p
def _norm_ineq(p):
    c = abs(content(p))
    return scale(p, Fraction(1) / c) if c != 1 else p
def cmp0(op, p):
    if not isinstance(p, Poly):
        return {'eq': p == 0, 'ne': p != 0, 'lt': p < 0, 'le': p <= 0}[op]
    if op in ('lt', 'le') and isint(p):
        # integers: p < 0  <=>  p + 1 <= 0 ; divide by the gcd
        if op == 'lt': p = add(p, 1)
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, int(c))
        if g > 1:
            k = lin_const(p)
            p = mk({m: int(c) // g for m, c in p.t.items() if m})
            p = add(p, -((-k) // g))     # floor(-k/g): g*q + k <= 0 <=> q <= floor(-k/g)
        return ('le', p)
    if op in ('eq', 'ne'):
        if isint(p):
            from math import gcd
            g = 0
            for m, c in p.t.items():
                if m: g = gcd(g, int(c))
            k = lin_const(p)
            if g > 1 and int(k) % g != 0: return op == 'ne'
        return (op, _norm_eq(p))
    return (op, _norm_ineq(p))
def eq(a, b): return cmp0('eq', sub(a, b))
def ne(a, b): return cmp0('ne', sub(a, b))
def lt(a, b): return cmp0('lt', sub(a, b))
def le(a, b): return cmp0('le', sub(a, b))
def Not(f):
    if isinstance(f, bool): return not f
    k = f[0]
    if k == 'eq': return ('ne', f[1])
    if k == 'ne': return ('eq', f[1])
    if k == 'lt': return cmp0('le', neg(f[1]))
    if k == 'le': return cmp0('lt', neg(f[1]))
    if k == 'and': return Or(*[Not(x) for x in f[1]])
    if k == 'or': return And(*[Not(x) for x in f[1]])
    if k == 'z':
        import z3
        return ('z', z3.Not(f[1]))
    raise ValueError(f)
def And(*fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        if f[0] == 'and': 
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if f[0] != 'z' and Not(f) in out: return False
    if not out: return True
    return out[0] if len(out) == 1 else ('and', tuple(out))
def Or(*fs):
    out = []
    for f in fs:
        if f is False: continue
        if f is True: return True
        if f[0] == 'or':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if f[0] != 'z' and f[0] not in ('and', 'or') and Not(f) in out: return True
    if not out: return False
    return out[0] if len(out) == 1 else ('or', tuple(out))
def Implies(a, b): return Or(Not(a), b)
def fsubst(f, mp, cache=None):
    if isinstance(f, bool): return f
    if cache is None: cache = {}
    if f[0] in ('eq', 'ne', 'lt', 'le'): return cmp0(f[0], subst(f[1], mp, cache))
    if f[0] == 'and': return And(*[fsubst(x, mp, cache) for x in f[1]])
    if f[0] == 'or': return Or(*[fsubst(x, mp, cache) for x in f[1]])
    return f
_fa = {}
def fatoms(f):
    if isinstance(f, bool): return set()
    r = _fa.get(f) if f[0] != 'z' else set()
    if r is None: r = _fa[f] = frozenset(fatoms0(f))
    return r
def fatoms0(f):
    if isinstance(f, bool): return set()
    if f[0] in ('eq', 'ne', 'lt', 'le'): return f[1].alldeps()
    if f[0] in ('and', 'or'):
        s = set()
        for x in f[1]: s |= fatoms(x)
        return s
    return set()

"""Cutting a loop: every variable and memory cell changed by the loop is given its value as a function of the iteration number t
(found by inspection, justified by induction: initial value + effect of one arbitrary iteration), arrays are summarised by the
writes of an arbitrary iteration, obligations in the body are generated for an arbitrary iteration.  Unbounded: no iteration limit."""
from fractions import Fraction
import expr as E, smt
from expr import Poly, ATOMS, And, Or, Not
import symexec as X
from llvmir import V_
from symexec import Ptr, FnPtr, UNDEF, UndefV, VerifError, NULLP

class _D:
    kind = 'double'; store = 8; width = 64
DOUBLE = _D()
class _I:
    kind = 'int'; store = 4; width = 32
INT4 = _I()
import os
DBG = bool(os.environ.get('LOOPDBG'))
def fmt(f):
    import driver
    return driver.fmt(f)
class Multi(Exception): pass
INST = [0]

# ------------------------------------------------------------------ substitution in values / states
def isform(v): return isinstance(v, tuple) and v and v[0] in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'z')
def vsubst(v, mp, cache):
    if isinstance(v, Poly): return E.subst(v, mp, cache)
    if isinstance(v, Ptr):
        if isinstance(v.off, Poly) or v.idx:
            return Ptr(v.rid, E.subst(v.off, mp, cache), tuple(E.subst(x, mp, cache) for x in v.idx))
        return v
    if isinstance(v, tuple) and v:
        if isform(v): return E.fsubst(v, mp, cache)
        if v[0] == 'b2i':
            f = E.fsubst(v[1], mp, cache)
            return int(f) if isinstance(f, bool) else ('b2i', f)
        if v[0] == 'bits': return ('bits', vsubst(v[1], mp, cache))
        if v[0] in ('inf', 'nan', 'bigzero'): return v
        if v[0] == 'raw': return ('raw', tuple((sz, vsubst(x, mp, cache)) if (sz, x) is not None else None for sz, x in v[1]), v[2])
        return tuple(vsubst(x, mp, cache) for x in v)
    return v
def vdeps(v):
    if isinstance(v, Poly): return v.alldeps()
    if isinstance(v, Ptr):
        s = v.off.alldeps() if isinstance(v.off, Poly) else set()
        for x in v.idx:
            if isinstance(x, Poly): s = s | x.alldeps()
        return s
    if isinstance(v, tuple) and v:
        if isform(v): return E.fatoms(v)
        s = set()
        for x in v: s |= vdeps(x)
        return s
    return set()
def subst_layer(l, mp, ids, cache):
    if isinstance(l, dict):
        ch = None
        for o, (z, v) in l.items():
            if isinstance(v, (Poly, Ptr, tuple)) and (vdeps(v) & ids):
                if ch is None: ch = {}
                ch[o] = (z, vsubst(v, mp, cache))
        if ch is None: return l
        d = dict(l); d.update(ch); return d
    k = l[0]
    if k == 'w': return ('w', vsubst(l[1], mp, cache), vsubst(l[2], mp, cache), l[3], vsubst(l[4], mp, cache))
    if k == 'copy': return ('copy', vsubst(l[1], mp, cache), vsubst(l[2], mp, cache), vsubst(l[3], mp, cache), subst_region(l[4], mp, ids, cache), vsubst(l[5], mp, cache), vsubst(l[6], mp, cache))
    if k == 'fill': return ('fill', vsubst(l[1], mp, cache), vsubst(l[2], mp, cache), vsubst(l[3], mp, cache), l[4])
    if k == 'havoc': return ('havoc', l[1], vsubst(l[2], mp, cache)) if len(l) > 2 else l
    if k == 'loop': return ('loop', l[1].subst(mp, ids, cache), vsubst(l[2], mp, cache))
    return l
def subst_region(r, mp, ids, cache):
    nl = [subst_layer(l, mp, ids, cache) for l in r.layers]
    if all(a is b for a, b in zip(nl, r.layers)): return r
    n = X.Region(r.rid, r.base, r.name); n.tag = r.tag; n.const = r.const; n.layers = nl; n.owner = -1
    return n
def subst_state(s, st, mp):
    ids = set(mp); cache = {}
    for f in st.frames:
        for k, v in f.env.items():
            if isinstance(v, (Poly, Ptr, tuple)) and (vdeps(v) & ids): f.env[k] = vsubst(v, mp, cache)
    for rid, r in list(st.mem.items()):
        if r.const: continue
        n = subst_region(r, mp, ids, cache)
        if n is not r: n.owner = st.id; st.mem[rid] = n
    pc = [E.fsubst(f, mp, cache) for f in st.pc]
    st.pc = []; st.pcset = set()
    for f in pc:
        if f is False: return False
        st.assume(f)
    if st.wlog is not None: st.wlog = [vlog(w, mp, ids, cache) for w in st.wlog]
    if 'ix' in st.ghost: st.ghost['ix'] = tuple(vsubst(x, mp, cache) for x in st.ghost['ix'])
    if st.retval is not None: st.retval = vsubst(st.retval, mp, cache)
    return True
def vlog(w, mp, ids, cache):
    if w[0] == 'w': return ('w', vsubst(w[1], mp, cache), w[2], vsubst(w[3], mp, cache))
    if w[0] == 'copy': return ('copy', vsubst(w[1], mp, cache), vsubst(w[2], mp, cache), vsubst(w[3], mp, cache), subst_region(w[4], mp, ids, cache))
    if w[0] == 'fill': return ('fill', vsubst(w[1], mp, cache), vsubst(w[2], mp, cache), w[3])
    if w[0] == 'loop': return ('loop', w[1], w[2].subst(mp, ids, cache), vsubst(w[3], mp, cache))
    return w

# ------------------------------------------------------------------ array summary of one loop
class Slot:
    """one write of an arbitrary iteration t: under conds(t), at (idx,off)(t), of `size` bytes"""
    __slots__ = ('kind', 'conds', 'idx', 'off', 'size', 'val', 'clean', 'src')
    def key(sl): return (sl.kind, sl.conds, sl.idx, sl.off, sl.size, sl.val if not isinstance(sl.val, X.Region) else id(sl.val), sl.clean)
    def __eq__(a, b): return a.key() == b.key()
    def map(sl, f, mp, ids, cache):
        n = Slot(); n.kind, n.size, n.clean = sl.kind, sl.size, sl.clean
        n.conds = f(sl.conds); n.idx = f(sl.idx); n.off = f(sl.off); n.size = f(sl.size)
        n.val = subst_region(sl.val, mp, ids, cache) if isinstance(sl.val, X.Region) else f(sl.val)
        n.src = f(sl.src) if sl.src is not None else None
        return n
class Rec:
    """slots of a region (program order) over bound variable t; outside symbols may be substituted"""
    __slots__ = ('t', 'slots', 'hv', 'opaque')
    def subst(r, mp, ids, cache):
        if r.t in ids: raise VerifError('bound variable')
        n = Rec(); n.t, n.hv, n.opaque = r.t, r.hv, r.opaque
        f = lambda v: tuple(E.fsubst(x, mp, cache) if isform(x) else vsubst(x, mp, cache) for x in v) if isinstance(v, tuple) and v and not isform(v) and v[0] not in ('b2i', 'bits', 'inf', 'nan', 'raw', 'bigzero') else vsubst(v, mp, cache)
        n.slots = [sl.map(f, mp, ids, cache) for sl in r.slots]
        n.hv = (r.hv[0], tuple(vsubst(x, mp, cache) for x in r.hv[1]))
        return n
def affine(p, t):
    """p = a + b*t with b a number, or None"""
    if not isinstance(p, Poly): return (p, 0)
    a = {}; b = 0
    for m, c in p.t.items():
        e = dict(m).get(t, 0)
        if e == 1 and len(m) == 1: b = c
        elif e: return None
        else: a[m] = c
    a = E.mk(a)
    if isinstance(a, Poly) and t in a.alldeps(): return None
    return (a, b)
def at(v, t, e, cache=None):
    return vsubst(v, {t: e}, {} if cache is None else cache)
def condat(conds, t, e):
    return And(*[E.fsubst(c, {t: e}) for c in conds])
HVREC = {}      # name of a loop's array -> (layers up to and including the loop, region attributes); None: ambiguous
def opaque_read(s, st, rec, k, idx, off, ty, r=None, n=None):
    if r is not None and not rec.opaque and not rec.hv[1]:
        old = HVREC.get(rec.hv[0], 0)
        if old == 0: HVREC[rec.hv[0]] = (r, n, rec, tuple(r.layers[:n]))
        elif old is not None and old[2] is not rec and old[2].slots != rec.slots: HVREC[rec.hv[0]] = None
    return s.symread(st, ('sym', rec.hv[0]), rec.hv[1] + (k,) + idx, off, ty)
def reread(s, st, v):
    """resolve reads of loop-written arrays that were left open and became decidable at concrete indices"""
    for _ in range(8):
        if not isinstance(v, Poly): return v
        mp = {}
        for i in sorted(v.alldeps()):
            a = ATOMS[i]
            if a.kind != 'sel' or not isinstance(a.args[0], str) or not a.args[0].startswith('hv') or len(a.args) < 3: continue
            int4 = a.args[0].endswith(':i')
            if not int4 and a.sort == 'I': continue
            h = HVREC.get(a.args[0][:-2] if int4 else a.args[0])
            if h is None: continue
            if int4 and any(sl.kind != 'w' or sl.size != 4 for sl in h[2].slots): continue
            r, n, rec, low = h
            q = X.Region(r.rid, r.base, r.name); q.layers = list(low) + [('loop', rec, a.args[1])]
            x = s.read_layers(st, q, len(q.layers), tuple(a.args[2:-1]), a.args[-1], INT4 if int4 else DOUBLE)
            if x != E.atomp(i): mp[i] = x
        if not mp: return v
        v = E.subst(v, mp)
    return v
def read_loop(s, st, layer, idx, off, ty, r=None, n=None):
    _, rec, k = layer
    if k == 0: return (False, None)
    size = ty.store
    if rec.opaque: return (True, opaque_read(s, st, rec, k, idx, off, ty, r, n))
    cands = []      # (t expression or ('last',), slot number, condition, slot, residual)
    for m, sl in enumerate(rec.slots):
        if len(sl.idx) != len(idx):
            continue
        mt = match(s, st, rec, sl, k, idx, off, size)
        if mt == 'no': continue
        if mt == 'opaque': return (True, opaque_read(s, st, rec, k, idx, off, ty, r, n))
        cands.append((mt[0], m, mt[1], sl, mt[2]))
    if not cands: return (False, None)
    # latest write first
    def later(a, b):
        d = E.sub(a[0], b[0])
        if not isinstance(d, Poly): return d > 0 or d == 0 and a[1] > b[1]
        if s.implied(st, E.lt(0, d)): return True
        if s.implied(st, E.lt(d, 0)): return False
        raise Multi()
    try:
        order = []
        for c in cands:
            p = 0
            while p < len(order) and later(order[p], c): p += 1
            order.insert(p, c)
    except Multi:
        f = Or(*[c[2] for c in cands])
        if s.decide(st, f): return (True, opaque_read(s, st, rec, k, idx, off, ty, r, n))
        return (False, None)
    for te, m, cond, sl, res in order:
        if s.decide(st, cond):
            if not sl.clean: return (True, opaque_read(s, st, rec, k, idx, off, ty, r, n))
            if sl.kind == 'w':
                v = at(sl.val, rec.t, te)
                if v is UNDEF: return (True, UNDEF)
                return (True, s.coerce(st, reread(s, st, v) if te != E.atomp(rec.t) else v, ty, size))
            if sl.kind == 'fill': return (True, s.coerce(st, 0, ty, size) if sl.val == 0 else s.fillval(sl.val, ty))
            if sl.kind == 'copy':
                sidx, soff = at(sl.src[0], rec.t, te), at(sl.src[1], rec.t, te)
                src = subst_region(sl.val, {rec.t: te}, {rec.t}, {})
                return (True, s.read_layers(st, src, len(src.layers), sidx, E.add(soff, res), ty))
    return (False, None)
def match(s, st, rec, sl, k, idx, off, size):
    """-> 'no' | 'opaque' | (iteration, condition, residual offset)"""
    t = rec.t
    inr = lambda e: And(E.le(0, e), E.lt(e, k))
    comps = []
    exact = sl.kind == 'w'
    oa = affine(sl.off, t)
    ias = [affine(x, t) for x in sl.idx]
    if oa is None or any(a is None for a in ias):
        return match_general(s, st, rec, sl, k, idx, off, size)
    # idx components
    te = None; conds = []
    for (a, b), x in zip(ias, idx):
        d = E.sub(x, a)
        if b == 0: conds.append(E.eq(d, 0)); continue
        e = exact_div(d, b)
        if e is None: return 'no' if never(d, b) else 'opaque'
        if te is None: te = e
        else: conds.append(E.eq(te, e))
    a, b = oa
    d = E.sub(off, a)
    n = sl.size
    if te is not None:
        d = E.sub(d, E.scale(te, b))
        if exact: conds.append(E.eq(d, 0))
        else: conds += [E.le(0, d), E.lt(d, n)]
        if False in conds: return 'no'
        return (te, And(inr(te), condat(sl.conds, t, te), *conds), d)
    if False in conds: return 'no'
    if b == 0:
        if exact:
            f = E.eq(d, 0)
            if f is False: 
                if sl.size != size and overlapping(d, sl.size, size): return 'opaque'
                return 'no'
        else: f = And(E.le(0, d), E.lt(d, n))
        if f is False: return 'no'
        if sl.conds:
            if s.implied(st, Not(And(f, *conds))): return 'no'
            return 'opaque'
        te = E.sub(k, 1)
        if s.implied(st, Not(And(f, *conds))): return 'no'
        return (te, And(inr(te), f, *conds), d)
    if exact:
        e = exact_div(d, b)
        if e is None:
            if never(d, b): 
                return 'no'
            return match_general(s, st, rec, sl, k, idx, off, size)
        if sl.size != size: return 'opaque'
        return (e, And(inr(e), condat(sl.conds, t, e), *conds), 0)
    if isinstance(n, Poly) or b < 0 or n > b: return 'opaque'
    e = E.floordiv(d, b) if E.isint(d) and not isinstance(b, Fraction) else None
    if e is None: return 'opaque'
    res = E.sub(d, E.scale(e, b))
    return (e, And(inr(e), condat(sl.conds, t, e), E.lt(res, n), *conds), res)
def overlapping(d, n, size): return not isinstance(d, Poly) and -size < d < n
def exact_div(d, b):
    if not isinstance(d, Poly):
        return d // b if isinstance(d, int) and isinstance(b, int) and d % b == 0 else None
    if all((Fraction(c) / b).denominator == 1 for c in d.t.values()): return E.scale(d, Fraction(1) / b)
    return None
def never(d, b):
    """d can never be a multiple of b (integer atoms)"""
    if not isinstance(d, Poly): return True
    if not E.isint(d): return False
    from math import gcd
    g = abs(int(b))
    for m, c in d.t.items():
        if m: g = gcd(g, abs(int(c)))
    return int(E.lin_const(d)) % g != 0
def match_general(s, st, rec, sl, k, idx, off, size):
    """address not affine in t: instantiate at expressions occurring in the address that is read"""
    t = rec.t
    if sl.kind != 'w': return 'opaque'
    cand = list(dict.fromkeys(list(st.ghost.get('ix', ())) + subexprs(off) + [y for x in idx for y in subexprs(x)]))
    hit = None
    for e in cand:
        o = at(sl.off, t, e); ii = tuple(at(x, t, e) for x in sl.idx)
        if o == off and ii == idx: hit = e; break
    if hit is None:
        for e in cand:
            f = s.addr_eq(tuple(at(x, t, e) for x in sl.idx), at(sl.off, t, e), idx, off)
            if f is True or (f is not False and s.implied(st, f)): hit = e; break
    if hit is not None and injective(s, st, rec, sl, k, hit, off):
        return (hit, And(E.le(0, hit), E.lt(hit, k), condat(sl.conds, t, hit)), 0)
    if outside(s, st, rec, sl, k, idx, off, size): return 'no'
    for e in cand:
        if disjoint(s, st, rec, sl, e, idx, off): return 'no'
    return 'opaque'
def subexprs(p):
    out = []
    if isinstance(p, Poly):
        for i in p.atoms():
            a = ATOMS[i]
            if a.kind in ('uf', 'sel', 'sum', 'idiv'):
                for x in a.args:
                    if isinstance(x, (int, Poly)) and not isinstance(x, bool) and E.isint(x): out.append(x)
    return out
def sumparts(p, t):
    """p = c + b*t + k*S(t) where S is a sum atom with upper bound t"""
    if not isinstance(p, Poly): return None
    c = {}; k = None; at_ = None; b = 0
    for m, q in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sum' and ATOMS[m[0][0]].args[0] == E.atomp(t) and at_ is None: at_ = m[0][0]; k = q
        elif m == ((t, 1),): b = q
        else: c[m] = q
    c = E.mk(c)
    if at_ is None or (isinstance(c, Poly) and t in c.alldeps()): return None
    return (c, b, k, at_)
def injective(s, st, rec, sl, k, e, off):
    """no later iteration (or later slot) writes the same place.  Addresses that grow from iteration to iteration: later writes lie beyond this block"""
    sp = sumparts(sl.off, rec.t)
    if sp is None: return False
    c, b, kk, a = sp
    C = smt.indbound(ATOMS[a].args[2])
    if not (E.sum_nonneg(a) and b >= 0 and (kk > 0 or C is not None and b + kk * C >= 0) and (kk > 0 or b > 0)): return False
    nxt = E.subst(E.add(E.scale(E.atomp(a), kk), E.scale(E.atomp(rec.t), b)), {rec.t: E.add(e, 1)})
    for o in rec.slots:
        p = sumparts(o.off, rec.t)
        if p is None or p[1:] != sp[1:] or o.kind != 'w': return False
        # first address written by any later iteration is beyond
        if not s.implied(st, Or(Not(condat(sl.conds, rec.t, e)), E.lt(off, E.add(nxt, p[0])))): return False
    return True
def outside(s, st, rec, sl, k, idx, off, size):
    """a place before the first or behind the last of addresses that grow from iteration to iteration"""
    sp = sumparts(sl.off, rec.t)
    if sp is None or idx or sl.idx: return False
    c, b, kk, a = sp; t = rec.t
    C = smt.indbound(ATOMS[a].args[2])
    if not (E.sum_nonneg(a) and b >= 0 and (kk > 0 or C is not None and b + kk * C >= 0)): return False
    if s.implied(st, E.le(E.add(off, size), at(sl.off, t, 0))): return True
    return s.implied(st, E.le(E.add(at(sl.off, t, k), sl.size), off))
def disjoint(s, st, rec, sl, e, idx, off):
    """a place in the block of iteration e of addresses that grow from iteration to iteration, not written by this slot"""
    sp = sumparts(sl.off, rec.t)
    if sp is None or idx or sl.idx: return False
    c, b, kk, a = sp; t = rec.t
    C = smt.indbound(ATOMS[a].args[2])
    if not (E.sum_nonneg(a) and b >= 0 and (kk > 0 or C is not None and b + kk * C >= 0) and (kk > 0 or b > 0)): return False
    f = E.eq(at(sl.off, t, e), off)
    if not (f is False or s.implied(st, Not(f))): return False
    g = lambda x: at(E.sub(sl.off, c), t, x)
    if not s.implied(st, E.lt(off, E.add(g(E.add(e, 1)), c))): return False     # later iterations lie beyond
    # earlier iterations stay within their block: c - c0 < step(t) where c0 is the start of the block and off is not before it
    c0s = []
    for o in rec.slots:
        p = sumparts(o.off, t)
        if p is not None and p[1:] == sp[1:] and p[0] not in c0s: c0s.append(p[0])
    step = E.sub(at(g(E.atomp(t)), t, E.add(E.atomp(t), 1)), g(E.atomp(t)))
    for c0 in c0s:
        if not s.implied(st, E.le(E.add(g(e), c0), off)): continue
        if s.implied(st, Or(Not(And(*sl.conds)), E.lt(E.sub(c, c0), step))): return True
    return False

# ------------------------------------------------------------------ the cut
class Var:
    """a loop-carried value: phi or memory cell"""
    __slots__ = ('key', 'init', 'comps', 'kind', 'sol', 'size', 'name', 'dead')
class Comp:
    """one numeric component; sol: polynomial in t or None; opq: opaque function of t"""
    __slots__ = ('init', 'opq', 'oid', 'sol', 'sort', 'prev', 'note')
def kindof(v):
    if isinstance(v, bool) or isform(v) or (isinstance(v, tuple) and v and v[0] == 'b2i'): return 'bool'
    if isinstance(v, (int, Fraction, Poly)): return 'num'
    if isinstance(v, Ptr): return 'ptr'
    if isinstance(v, UndefV): return 'undef'
    if isinstance(v, tuple) and v and v[0] == 'bits': return 'num'
    return 'other'
def cut(s, st, L):
    keep = st.clone(); d = s.cut_depth
    try: return Cut(s, st, L).run()
    except VerifError as e:
        # pointers exchanged in every iteration: two iterations as one
        if not any(m in str(e) for m in ('loop pointer over several objects', 'not a real: &', 'mixed kinds')): raise
        s.cut_depth = d
        if __import__('os').environ.get('DLDBG'): print('PERIOD2', s.dem(st.frames[-1].fn.name)[:60], L.id, e)
        c = Cut(s, keep, L); c.period = 2
        return c.run()

class Cut:
    def __init__(c, s, st, L):
        c.s, c.st, c.L = s, st, L
        c.depth = len(st.frames); c.fr = st.frames[-1]
        INST[0] += 1; c.inst = INST[0]
        c.T = E.fresh('t', 'I') if False else E.sym(f't{c.inst}~', 'I'); c.tid = next(iter(c.T.atoms()))
        c.bid = next(iter(E.sym(f'r{c.inst}~', 'I').atoms()))
        c.outer = st.ghost.get('taus', ())
        c.vars = {}; c.recs = {}; c.arrays = set(); c.cells = {}; c.localok = set()
        c.common = []; c.cont = True; c.rounds = 0
        c.dead = set(); c.period = 1
    # -- variables
    def newvar(c, key, init, kind, sort, ncomp=1, inits=None, rid=None):
        v = Var(); v.key, v.init, v.kind, v.sol, v.size, v.dead = key, init, kind, None, None, False
        v.name = f'it{c.inst}:{"_".join(str(x) for x in key)}'
        v.comps = []
        for j in range(ncomp):
            q = Comp(); q.init = inits[j] if inits else None; q.sort = sort; q.sol = None; q.prev = None; q.note = None
            q.opq = E.uf(f'{v.name}.{j}', sort, *c.outer, c.T); q.oid = next(iter(q.opq.atoms()))
            v.comps.append(q)
        return v
    def value(c, v, t=None):
        """the value at iteration t (None: generic T)"""
        xs = [q.sol if q.sol is not None else q.opq for q in v.comps]
        if v.kind == 'num': r = xs[0]
        elif v.kind == 'bool': r = v.init if v.sol == 'same' else E.ne(xs[0], 0)
        elif v.kind == 'ptr': r = Ptr(v.sol, xs[0], tuple(xs[1:]))
        else: r = v.init
        return r if t is None else at(r, c.tid, t)
    def mkvar(c, key, init, samples):
        """samples: values stored by the body"""
        ks = {kindof(x) for x in [init] + samples} - {'undef'}
        if 'num' in ks and ks == {'num', 'bool'}: ks = {'num'} if not all(x in (0, 1, True, False) or kindof(x) in ('bool', 'undef') for x in [init] + samples if not isinstance(x, UndefV)) else {'bool'}
        if 'ptr' in ks and ks == {'ptr', 'num'}:
            pass
        if len(ks) > 1: raise VerifError(f'loop variable of mixed kinds {ks}')
        if not ks: return c.newvar(key, init, 'const', 'I', 0)
        k = ks.pop()
        if k == 'other':
            if all(x == init for x in samples): return c.newvar(key, init, 'const', 'I', 0)
            raise VerifError(f'loop variable {init!r} {samples[:2]!r}')
        und = isinstance(init, UndefV)
        if k == 'num':
            unb = lambda x: x[1] if isinstance(x, tuple) else x
            vals = [unb(x) for x in [init] + samples if not isinstance(x, UndefV)]
            sort = 'I' if all(E.isint(x) for x in vals) else 'R'
            i0 = E.fresh('undef', sort) if und else unb(init)
            return c.newvar(key, init, 'num', sort, 1, [i0])
        if k == 'bool':
            v = c.newvar(key, init, 'bool', 'I', 1, [None]); return v
        # pointers
        rids = {x.rid for x in [init] + samples if isinstance(x, Ptr)}
        if len(rids) > 1 and isinstance(init, UndefV):
            v = c.newvar(key, init, 'const', 'I', 0); v.dead = True; return v     # unknown at the start of an iteration
        if len(rids) > 1: raise VerifError(f'loop pointer over several objects {sorted(map(str, rids))}')
        p0 = init if isinstance(init, Ptr) else samples[0]
        if p0.rid is None: return c.newvar(key, init, 'const', 'I', 0)
        n = 1 + len(p0.idx)
        v = c.newvar(key, init, 'ptr', 'I', n, [p0.off] + list(p0.idx) if isinstance(init, Ptr) else [E.fresh('undef', 'I') for _ in range(n)])
        v.sol = p0.rid
        return v
    # -- one run of the body from iteration T
    def body(c):
        s = c.s; x = c.st.clone()
        fr = x.frames[-1]; fr.loops = fr.loops + [c.L]
        x.wlog = []
        x.ghost['taus'] = c.outer + (c.T,); x.ghost['inst'] = x.ghost.get('inst', ()) + (c.inst,)
        base = len(x.pc)
        for v in c.vars.values():
            val = c.value(v)
            if v.key[0] == 'phi': fr.env[v.key[1]] = val
        # memory at the start of the iteration
        for rid in c.arrays:
            r = s.own(x, rid)
            rec = c.recs.get(rid)
            if rec is None: r.layers.append(('havoc', f'hv{c.inst}:{rid}', c.T) if not c.outer else ('loop', c.opaque_rec(rid), c.T))
            else: r.layers.append(('loop', rec, c.T))
        for v in c.vars.values():
            if v.key[0] == 'cell':
                _, rid, off, size = v.key
                s.write(x, Ptr(rid, off), c.value(v), size)
        x.wlog = []
        c.assume_facts(x)
        c.nbody = len(x.pc)
        if c.s.implied(x, False): return [], base
        mark = len(s.obls); cov = {k: list(v) for k, v in s.covers.items()}
        res = s.explore(x, c.depth, c.L)
        for _ in range(c.period - 1):
            nxt = []
            for k, y in res:
                if k != 'back': nxt.append((k, y)); continue
                s.enter(y, y.frames[-1], c.L.header)
                nxt += s.explore(y, c.depth, c.L)
            res = nxt
        c.newobls = s.obls[mark:]; del s.obls[mark:]
        c.newcov = s.covers; s.covers = cov
        return res, base
    def opaque_rec(c, rid):
        r = Rec(); r.t = c.bid; r.slots = []; r.hv = (f'hv{c.inst}:{rid}', c.outer); r.opaque = True
        return r
    def assume_facts(c, x):
        T = c.T
        x.assume(E.le(0, T))
        c.nfact = len(x.pc)
        for f in c.cont_facts(T): x.assume(f)
        for v in c.vars.values():
            if v.kind == 'bool' and v.sol != 'same':
                q = v.comps[0]
                x.assume(E.le(0, q.opq)); x.assume(E.le(q.opq, 1))
                i0 = v.init
                if not isinstance(i0, UndefV):
                    f = i0[1] if isinstance(i0, tuple) and i0[0] == 'b2i' else i0
                    f = f if isinstance(f, bool) or isform(f) else bool(f)
                    x.assume(Or(E.ne(T, 0), And(f, E.eq(q.opq, 1)), And(Not(f), E.eq(q.opq, 0))))
            for q in v.comps:
                if q.sol is None and q.init is not None: x.assume(Or(E.ne(T, 0), E.eq(q.opq, q.init)))
                if q.prev is not None:
                    alts = []
                    for conds, g in q.prev: alts.append(And(E.eq(q.opq, at(g, c.tid, E.sub(T, 1))), *[E.fsubst(f, {c.tid: E.sub(T, 1)}) for f in conds]))
                    x.assume(Or(E.eq(T, 0), *alts))
                if q.note is not None:
                    for f in q.note(x): x.assume(f)
    def cont_facts(c, T):
        out = []
        for f in c.common: out.append(Or(E.le(T, 0), E.fsubst(f, {c.tid: E.sub(T, 1)})))
        return out
    # -- main
    def run(c):
        s, st = c.s, c.st
        if s.cut_depth > 6: raise VerifError('loops nested too deeply')
        s.cut_depth += 1
        try: return c.run0()
        finally: s.cut_depth -= 1
    def run0(c):
        s, st = c.s, c.st
        B = c.fr.fn.blocks[c.L.header]
        for p in B.phis:
            i0 = c.fr.env[p.id]
            # kinds by type; refined by the body
            c.vars[('phi', p.id)] = c.phivar(p, i0, [])
        prevkey = None
        for rnd in range(14):
            c.rounds = rnd
            res, base = c.body()
            backs = [(x, x.pc[c.nbody:]) for k, x in res if k == 'back']
            changed = c.writeset(res)
            if changed: continue
            changed = c.update(backs, res, B)
            if DBG:
                print(f'--- cut {c.inst} {c.s.dem(c.fr.fn.name)[:60]} round {rnd} changed {changed} res {[k for k, _ in res]}')
                for v in c.vars.values(): print('    ', v.name, v.kind, [(q.init, q.sol, q.opq if q.sol is None else '') for q in v.comps])
                print('     common', [fmt(f) for f in c.common])
                for rid, r in c.recs.items(): print('     rec', rid, 'opaque' if r.opaque else [(sl.kind, sl.conds, sl.idx, sl.off, sl.size, sl.val, sl.clean) for sl in r.slots])
            if not changed: break
        else: raise VerifError('loop summary does not stabilise')
        s.obls += c.newobls
        s.covers.clear(); s.covers.update(c.newcov)
        return c.exits(res, base)
    def phivar(c, p, i0, samples):
        v = None
        if c.period > 1 and isinstance(i0, Ptr) and not samples: return c.newvar(('phi', p.id), i0, 'const', 'I', 0)
        if p.ty.kind in ('double', 'float') and kindof(i0) in ('num', 'undef'):
            v = c.newvar(('phi', p.id), i0, 'num', 'R', 1, [i0 if not isinstance(i0, UndefV) else E.fresh('undef', 'R')])
            if samples and all(E.isint(x) for x in samples + [v.comps[0].init] if not isinstance(x, UndefV)): pass
        elif p.ty.kind == 'int' and p.ty.width == 1: v = c.newvar(('phi', p.id), i0, 'bool', 'I', 1, [None])
        elif kindof(i0) == 'bool' and p.ty.kind == 'int':
            v = c.newvar(('phi', p.id), i0, 'bool', 'I', 1, [None]) if all(kindof(x) in ('bool', 'undef') or x in (0, 1) for x in samples) else None
            if v is None: v = c.newvar(('phi', p.id), i0, 'num', 'I', 1, [c.s.int_(c.st, i0)])
        else: v = c.mkvar(('phi', p.id), i0, samples)
        return v
    def writeset(c, res):
        """extend the set of cells and arrays changed by the body; True if it grew"""
        ch = False
        for k, x in res:
            for w in (x.wlog or []):
                if w[0] == 'loop': rid = w[1]; p = None; size = 0
                elif w[0] == 'w': p, size = w[1], w[2]; rid = p.rid
                else: p, size = w[1], None; rid = p.rid
                if rid not in c.st.mem: continue          # object of this iteration
                if rid in c.arrays: continue
                if w[0] == 'w' and not p.idx and not isinstance(p.off, Poly):
                    key = ('cell', rid, p.off, size)
                    if key in c.vars: continue
                    over = [q for q in c.vars if q[0] == 'cell' and q[1] == rid and q[2] < p.off + size and p.off < q[2] + q[3]]
                    if over: c.toarray(rid); ch = True; continue
                    i0 = c.initial(rid, p.off, size, w[3])
                    if i0 is None: c.toarray(rid)
                    elif c.period > 1 and isinstance(i0, Ptr): c.vars[key] = c.newvar(key, i0, 'const', 'I', 0)
                    else: c.vars[key] = c.mkvar(key, i0, [w[3]])
                    ch = True
                else: c.toarray(rid); ch = True
        return ch
    def initial(c, rid, off, size, sample):
        s = c.s; x = c.st.clone()
        k = kindof(sample)
        class T: pass
        T.store = T.size = size
        if k == 'ptr': T.kind = 'ptr'; T.width = 64
        elif k == 'num' and not E.isint(sample): T.kind = 'double'; T.width = 64
        elif k in ('bool', 'num', 'undef'):
            T.kind = 'int'; T.width = 8 * size
            # a double cell may hold an integer-valued term
            r = c.st.mem[rid]
            for l in reversed(r.layers):
                if isinstance(l, dict):
                    if off in l and l[off][0] == size: return l[off][1]
                    ov = [o for o in l if o < off + size and off < o + l[o][0]]
                    if len(ov) == 1 and ov[0] <= off and off + size <= ov[0] + l[ov[0]][0] and l[ov[0]][1] is not True and l[ov[0]][1] == 0 and isinstance(l[ov[0]][1], int): return 0
                    if ov: return None
                else: return None
            if r.base == 'undef': return UNDEF
            if r.base == 'zero': return 0
            return None
        try: return s.read(x, Ptr(rid, off), T)
        except X.Fork: return None
        except VerifError: return None
    def toarray(c, rid):
        c.arrays.add(rid)
        for q in [q for q in c.vars if q[0] == 'cell' and q[1] == rid]: del c.vars[q]
    # -- recurrences
    def update(c, backs, res, B):
        s = c.s; ch = False
        # values at the end of the iteration
        nexts = {}
        for x, pc in backs:
            fr = x.frames[-1]
            for p in B.phis: nexts.setdefault(('phi', p.id), []).append(s.val(x, fr, p.x[fr.prev]))
            for key, v in c.vars.items():
                if key[0] == 'cell':
                    r = x.mem[key[1]]; l = r.layers[-1] if r.layers else None
                    if isinstance(l, dict) and key[2] in l and l[key[2]][0] == key[3]: nexts.setdefault(key, []).append(l[key[2]][1])
                    else: nexts.setdefault(key, []).append(c.cellread(x, key, v))
        if not backs:
            # the body never comes back
            for v in c.vars.values():
                for q in v.comps:
                    if q.sol is None and q.init is not None: q.sol = q.init; ch = True
            common = []
            if not c.cont is False: c.cont = False
            return ch
        # kinds
        for key, v in list(c.vars.items()):
            ns = nexts[key]
            nv = None
            if v.kind == 'const':
                if not v.dead and not all(same(x, v.init) for x in ns):
                    nv = c.phivar(c.phi(B, key), v.init, ns) if key[0] == 'phi' else c.mkvar(key, v.init, ns)
            elif v.kind == 'num' and v.comps[0].sort == 'I' and not all(isinstance(x, UndefV) or E.isint(c.s.real_(x) if not isinstance(x, tuple) else 0) for x in ns if kindof(x) == 'num'):
                nv = c.newvar(key, v.init, 'num', 'R', 1, [v.comps[0].init]); nv.name = v.name + 'R'
                q = nv.comps[0]; q.opq = E.uf(nv.name, 'R', *c.outer, c.T); q.oid = next(iter(q.opq.atoms()))
            elif v.kind == 'num' and any(kindof(x) == 'bool' for x in ns):
                if all(kindof(x) == 'bool' or x in (0, 1) or isinstance(x, UndefV) for x in ns + [v.init]): nv = c.newvar(key, v.init, 'bool', 'I', 1, [None])
            elif v.kind in ('num', 'bool', 'ptr'):
                bad = [x for x in ns if kindof(x) not in (v.kind, 'undef') and not (v.kind == 'bool' and x in (0, 1))]
                if bad: raise VerifError(f'loop variable {v.kind} becomes {bad[0]!r}')
                if v.kind == 'ptr':
                    if isinstance(v.init, UndefV) or True:
                        rids = {x.rid for x in ns if isinstance(x, Ptr)}
                        if rids - {v.sol} and isinstance(v.init, UndefV): nv = c.newvar(key, v.init, 'const', 'I', 0); nv.dead = True
                        elif rids - {v.sol}: raise VerifError(f'loop pointer over several objects {v.sol} {rids} {key} init {v.init!r} {c.period}')
            if nv is not None: c.vars[key] = nv; ch = True
        if ch: return True
        # conditions for another iteration
        conds = [[c.fresolve(f) for f in pc] for x, pc in backs]
        conds = [[f for f in q if f is not True] for q in conds]
        sets = [set(f) for f in conds]
        common = [f for f in conds[0] if all(f in q for q in sets)]
        if len(backs) > 1:
            # literals of some path that all the others imply
            seen = set(common)
            for q in conds:
                for f in q:
                    if f in seen or f[0] not in ('eq', 'ne', 'lt', 'le'): continue
                    seen.add(f)
                    if c.tid not in E.fatoms(f): continue
                    if all(f in sets[j] or s.implied(backs[j][0], f) for j in range(len(backs))): common.append(f)
        facts = set(c.st.pc)
        condk = []
        for f, q in zip(conds, sets): condk.append(tuple(g for g in f if g not in common))
        condk = c.dropfacts(condk)
        allow = c.allowed()
        strong = []
        for f in common:
            g = c.strengthen(f, common)
            strong.append(g)
        strong = [f for f in strong if not (E.fatoms(f) & c.unsolved_ids_strict())]
        disj = c.merge([(k, 1) for k in condk])
        extra = None
        if disj and len(disj) <= 6 and all(d[0] for d in disj): extra = Or(*[And(*d[0]) for d in disj])
        if extra is not None and extra is not True and extra not in strong: strong.append(extra)
        if strong != c.common: c.common = strong; ch = True
        # solve
        ck = [tuple(c.fresolve(f) for f in k) for k in condk]
        for level in (0, 1, 2):
          if ch: break
          progress = True
          while progress:
            progress = False
            for key, v in c.vars.items():
                ns = nexts[key]
                if v.kind == 'bool':
                    if v.sol != 'same' and all(same(x, c.value(v)) for x in ns) :
                        v.sol = 'same'; progress = ch = True
                    continue
                if v.kind not in ('num', 'ptr'): continue
                for j, q in enumerate(v.comps):
                    if q.sol is not None: continue
                    nk = []
                    for x in ns:
                        if isinstance(x, UndefV): y = None
                        elif v.kind == 'num': y = s.real_(x)
                        else: y = x.off if j == 0 else x.idx[j - 1]
                        nk.append(c.resolve(y) if y is not None else None)
                    if c.solve(v, q, nk, ck, level):
                        progress = ch = True; ck = [tuple(c.fresolve(f) for f in k) for k in condk]
        # arrays
        for rid in c.arrays:
            rec = c.mkrec(rid, backs, res, condk, common, base=None)
            old = c.recs.get(rid)
            if old is None or old.opaque != rec.opaque or [a.key() for a in old.slots] != [a.key() for a in rec.slots]:
                c.recs[rid] = rec; ch = True
        return ch
    def dropfacts(c, condk): return condk
    def allowed(c): return None
    def phi(c, B, key):
        for p in B.phis:
            if p.id == key[1]: return p
    def cellread(c, x, key, v):
        class T: pass
        T.store = T.size = key[3]
        if v.kind == 'ptr': T.kind = 'ptr'; T.width = 64
        elif v.kind == 'num' and v.comps[0].sort == 'R': T.kind = 'double'; T.width = 64
        else: T.kind = 'int'; T.width = 8 * key[3]
        return c.s.read(x, Ptr(key[1], key[2]), T)
    def unsolved(c):
        return {q.oid for v in c.vars.values() for q in v.comps if q.sol is None and not (v.kind == 'bool' and v.sol == 'same')}
    def unsolved_ids_strict(c): return set()
    def hvdep(c, p):
        """depends on array contents of this iteration that are not resolved"""
        pre = f'hv{c.inst}:'
        for i in (p.alldeps() if isinstance(p, Poly) else ()):
            a = ATOMS[i]
            if a.kind == 'sel' and isinstance(a.args[0], str) and pre in a.args[0]: return True
        return False
    def resolve(c, p):
        if not isinstance(p, Poly): return p
        mp = {q.oid: q.sol for v in c.vars.values() for q in v.comps if q.sol is not None}
        ids = p.alldeps()
        mp = {k: v for k, v in mp.items() if k in ids}
        return E.subst(p, mp) if mp else p
    def clean(c, p):
        """no unsolved variable, no unresolved array content"""
        if not isinstance(p, Poly): return True
        d = p.alldeps()
        return not (d & c.unsolved()) and not c.hvdep(p)
    def solve(c, v, q, nk, condk, level=2):
        s = c.s; T = c.T; tid = c.tid
        if any(x is None for x in nk): return False
        d = [E.sub(x, q.opq) for x in nk]
        if all(x == 0 for x in d): q.sol = q.init; return True
        if all(c.clean(x) for x in d):
            if all(x == d[0] for x in d):
                if not isinstance(d[0], Poly) or tid not in d[0].alldeps():
                    q.sol = E.add(q.init, E.mul(d[0], T)); return True
                if level < 1: return False
                q.sol = E.add(q.init, E.Sum(T, tid, d[0])); return True
            if level < 2: return False
            if all(c.condclean(k) for k, x in zip(condk, d) if x != 0 or True):
                terms = c.merge([(k, x) for k, x in zip(condk, d)])
                body = 0
                for k, x in terms:
                    if x != 0: body = E.add(body, E.mul(E.Ind(And(*k)), x))
                q.sol = E.add(q.init, E.Sum(T, tid, body)); return True
        if level < 1: return False
        cl = [c.clean(x) for x in nk]
        if all(cl) and all(q.oid not in deps(x) for x in nk) and q.prev is None:
            if all(x == nk[0] for x in nk):
                g = nk[0]
                prevg = at(g, tid, E.sub(T, 1))
                if at(prevg, tid, 0) == q.init: q.sol = prevg; return True
                q.prev = [((), g)]; return True
            if all(c.condclean(k) for k in condk):
                q.prev = [(tuple(k), x) for k, x in zip(condk, nk)]; return True
        if q.note is None and c.extremum(v, q, nk, condk): return True
        return False
    def condclean(c, k):
        un = c.unsolved()
        for f in k:
            ids = E.fatoms(f)
            if ids & un: return False
            for i in ids:
                a = ATOMS[i]
                if a.kind == 'sel' and isinstance(a.args[0], str) and f'hv{c.inst}:' in a.args[0]: return False
        return True
    def extremum(c, v, q, nk, condk):
        return False
    def merge(c, l):
        """[(conds, value)] -> merge entries of equal value that differ in one complementary literal"""
        items = [(frozenset(k), x) for k, x in l]
        ch = True
        while ch and len(items) <= 64:
            ch = False
            for i in range(len(items)):
                for j in range(i):
                    a, b = items[i], items[j]
                    if a[1] != b[1]: continue
                    da, db = a[0] - b[0], b[0] - a[0]
                    if not da or not db: n = a[0] & b[0]
                    elif len(da) == 1 and len(db) == 1 and Not(next(iter(da))) == next(iter(db)): n = a[0] & b[0]
                    else: continue
                    items[j] = (n, a[1]); del items[i]; ch = True; break
                if ch: break
        return [(tuple(sorted(k, key=repr_key)), x) for k, x in items]
    def strengthen(c, f, common=()):
        """D(t) != 0 with D moving by one towards zero from a known side: the sign is kept"""
        if f[0] != 'ne': return f
        p = c.resolve(f[1]); a = affine(p, c.tid)
        if a is None: return f
        b = a[1]
        if abs(b) != 1 or not E.isint(p):
            # multiples of the step
            if b == 0: return f
            p2 = E.scale(p, Fraction(1) / b)
            if not E.isint(p2): return c.strengthen2(p2, common, f)
            p = p2; b = 1
        p0 = at(p, c.tid, 0)
        if b > 0 and c.s.implied(c.st, E.le(p0, 0)): return E.lt(p, 0)
        if b < 0 and c.s.implied(c.st, E.le(0, p0)): return E.lt(0, p)
        return f
    def strengthen2(c, p, common, f):
        """H = 2t + r (increasing) and its neighbour never vanish: neither crosses zero"""
        h = E.scale(p, 2)
        if not E.isint(h): return f
        others = set()
        for g in common:
            if g[0] != 'ne': continue
            q = c.resolve(g[1]); a = affine(q, c.tid)
            if a is None or a[1] == 0: continue
            q = E.scale(q, Fraction(2) / a[1])
            if E.isint(q): others.add(q)
        # h(t+1) = h(t) + 2: with h and h + 1 both nonzero, h <= 0 at the start means both stay negative
        for lo, hi in ((h, E.add(h, 1)), (E.sub(h, 1), h)):
            if (lo in others and hi in others) and c.s.implied(c.st, E.le(at(lo, c.tid, 0), 0)): return E.lt(h, 0)
        return f
    # -- arrays
    def mkrec(c, rid, backs, res, condk, common, base):
        r = Rec(); r.t = c.bid; r.hv = (f'hv{c.inst}:{rid}', c.outer); r.opaque = False; r.slots = []
        paths = []
        for (x, pc), k in zip(backs, condk): paths.append((k, [w for w in x.wlog if (w[1] if w[0] == 'loop' else w[1].rid) == rid]))
        sl = []
        # group equal writes of different paths, keeping the order
        seqs = [[c.slotof(w) for w in ws] for k, ws in paths]
        if any(x is None for q in seqs for x in q): r.opaque = True; return r
        merged = c.align(seqs, [k for k, _ in paths])
        if merged is None: r.opaque = True; return r
        mp = {c.tid: E.atomp(r.t)}; ids = {c.tid}; cache = {}
        q = Rec(); q.t = r.t; q.hv = r.hv; q.opaque = False; q.slots = merged
        q.t = None; q = q.subst(mp, ids, cache); q.t = r.t
        return q
    def slotof(c, w):
        n = Slot(); n.conds = (); n.src = None; n.clean = True
        rs = lambda p: vres(c, p)
        if w[0] == 'w':
            n.kind = 'w'; n.idx = tuple(rs(x) for x in w[1].idx); n.off = rs(w[1].off); n.size = w[2]; n.val = rs(w[3])
            n.clean = c.vclean(n.val) and c.local(n.val)
        elif w[0] == 'fill':
            n.kind = 'fill'; n.idx = tuple(rs(x) for x in w[1].idx); n.off = rs(w[1].off); n.size = rs(w[2]); n.val = w[3]
        elif w[0] == 'copy':
            n.kind = 'copy'; n.idx = tuple(rs(x) for x in w[1].idx); n.off = rs(w[1].off); n.size = rs(w[2]); n.val = w[4]; n.src = (tuple(rs(x) for x in w[3].idx), rs(w[3].off))
            n.clean = not w[3].rid in c.arrays and c.regclean(w[4]) and all(c.vclean(x) for x in n.src)
        else: return None
        if not all(c.vclean(x) for x in n.idx + (n.off,)): return None
        return n
    def regclean(c, reg):
        un = c.unsolved()
        for l in reg.layers:
            if isinstance(l, dict): vs = [v for _, v in l.values()]
            elif l[0] == 'w': vs = [l[1], l[2], l[4]]
            elif l[0] in ('havoc', 'loop'): 
                if l[0] == 'havoc' and f'hv{c.inst}:' in l[1]: return False
                continue
            else: continue
            for v in vs:
                if not c.vclean(v) or not c.local(v): return False
        return True
    def local(c, v):
        """pointers to objects created in the iteration do not outlive it"""
        if isinstance(v, Ptr): return v.rid is None or v.rid in c.st.mem or v.rid.startswith('fam:') or v.rid.startswith('g:')
        return True
    def vclean(c, v):
        un = c.unsolved(); d = vdeps(v)
        if d & un: return False
        for i in d:
            a = ATOMS[i]
            if a.kind == 'sel' and isinstance(a.args[0], str) and f'hv{c.inst}:' in a.args[0]: return False
        return True
    def align(c, seqs, conds):
        """merge the write sequences of the paths into one guarded sequence"""
        if len(seqs) == 1: return seqs[0]
        k0 = [[(a.kind, a.idx, a.off, a.size, vkey(a.val), a.src) for a in q] for q in seqs]
        if all(k == k0[0] for k in k0): return seqs[0]
        c.joinints(seqs, conds)
        k0 = [[(a.kind, a.idx, a.off, a.size, vkey(a.val), a.src) for a in q] for q in seqs]
        if all(k == k0[0] for k in k0): return seqs[0]
        out = []
        for q, k in zip(seqs, conds):
            if not c.condclean(k):
                # the condition depends on contents not resolved yet: the places may be written
                for a in q: a.conds = (); a.clean = False; out.append(a)
                continue
            for a in q: a.conds = tuple(k); out.append(a)
        # equal writes under complementary conditions
        groups = {}
        for a in out: groups.setdefault((a.kind, a.idx, a.off, a.size, vkey(a.val), a.src), []).append(a)
        if any(len(v) > 1 for v in groups.values()):
            res = []; done = set()
            for a in out:
                key = (a.kind, a.idx, a.off, a.size, vkey(a.val), a.src)
                if key in done: continue
                done.add(key)
                for k, _ in c.merge([(b.conds, 1) for b in groups[key]]):
                    n = Slot(); n.kind, n.idx, n.off, n.size, n.val, n.src, n.clean = a.kind, a.idx, a.off, a.size, a.val, a.src, all(b.clean for b in groups[key]); n.conds = k
                    res.append(n)
            # merging across paths is order preserving only when the places are different or the conditions exclude each other
            out = res
        return out
    def joinints(c, seqs, conds):
        """every path stores an integer at the same place: one store of a value that depends on the path"""
        if not all(c.condclean(k) for k in conds): return
        place = lambda a: (a.kind, a.idx, a.off, a.size)
        for a in list(seqs[0]):
            if a.kind != 'w' or not a.clean: continue
            hit = [[b for b in q if place(b) == place(a)] for q in seqs]
            if any(len(h) != 1 for h in hit): continue
            hit = [h[0] for h in hit]
            if all(vkey(b.val) == vkey(a.val) for b in hit) or not all(b.clean and isinstance(b.val, (int, Poly)) and not isinstance(b.val, bool) and E.isint(b.val) for b in hit): continue
            base = hit[0].val; v = base
            for k, x in c.merge([(k, b.val) for k, b in zip(conds, hit)]):
                d = E.sub(x, base)
                if d != 0: v = E.add(v, E.mul(E.Ind(And(*k)), d))
            for b in hit: b.val = v
    # -- leaving
    def exits(c, res, base):
        s = c.s; out = []
        work = [(k, x) for k, x in res if k in ('exit', 'ret')]
        done = []
        while work:
            k, x = work.pop()
            if s.implied(x, False): continue
            e = c.solve_tau(x, base)
            if e is None:
                # iteration zero apart from the others
                f = E.eq(c.T, 0)
                if not s.implied(x, Not(f)) and not s.implied(x, f):
                    y = x.clone(); x.assume(f); y.assume(Not(f))
                    for z in (x, y): work.append((k, z))
                    continue
                if s.implied(x, f): e = 0
            done.append((k, x, e))
        groups = {}
        for k, x, e in done:
            pos = tuple((f.fn.name, f.block, f.ip) for f in x.frames)
            groups.setdefault((k, pos, e), []).append(x)
        for (k, pos, e), xs in groups.items():
            for x, wl_local in c.merged(xs):
                if e is None: e = E.fresh('stop', 'I')     # some iteration at which the loop is left
                wl = c.st.wlog
                x.wlog = wl_local if wl is not None else None
                for i in c.index_facts(x): x.assume(i)
                ok = subst_state(s, x, {c.tid: e})
                if ok is False: continue
                if wl is not None: x.wlog = list(wl) + x.wlog
                x.ghost['taus'] = c.outer
                if 'inst' in x.ghost: x.ghost['inst'] = x.ghost['inst'][:-1]
                x.invs = list(c.st.invs)
                out.append(x)
        return out
    def merged(c, xs):
        """the states leaving the loop at the same iteration and place, as one state where possible -> [(state, writes of the whole loop)]"""
        conds = [[c.fresolve(f) for f in x.pc[c.nbody:]] for x in xs]
        common = [f for f in conds[0] if all(f in q for q in conds)]
        condk = [tuple(g for g in f if g not in common) for f in conds]
        if len(xs) > 1:
            m = c.merge_exit(xs, condk, common)
            if m is not None: return [m]
        return [c.absorb(x) for x in xs]
    def loopwrites(c, k, late):
        """writes of the loop up to iteration k (late: whole last iteration included)"""
        l2 = []
        for rid in sorted(c.arrays):
            if late is not None and rid not in late: continue
            rec = c.recs.get(rid) or c.opaque_rec(rid); l2.append(('loop', rid, rec, k))
        return l2
    def absorb(c, x):
        """single leaving path: array writes identical to those of a full iteration are counted as one more iteration"""
        s = c.s; l2 = []
        for rid in sorted(c.arrays):
            rec = c.recs.get(rid) or c.opaque_rec(rid)
            loc = [w for w in x.wlog if (w[1] if w[0] == 'loop' else w[1].rid) == rid]
            if loc and (c.samewrites(rec, [loc], [()], x) or c.onemore(rec, loc, x)):
                c.settop(x, rid, rec, E.add(c.T, 1)); l2.append(('loop', rid, rec, E.add(c.T, 1)))
            else:
                l2.append(('loop', rid, rec, c.T)); l2 += loc
        return x, l2 + c.cellwrites(x)
    def cellwrites(c, x):
        return [('w', Ptr(v.key[1], v.key[2]), v.key[3], c.cellval(x, v)) for v in c.vars.values() if v.key[0] == 'cell'] + \
               [w for w in x.wlog if (w[1] if w[0] == 'loop' else w[1].rid) not in c.arrays and not (w[0] == 'w' and ('cell', w[1].rid, w[1].off, w[2]) in c.vars) and (w[1] if w[0] == 'loop' else w[1].rid) in c.st.mem]
    def cellval(c, x, v):
        r = x.mem[v.key[1]]; l = r.layers[-1] if r.layers else None
        if isinstance(l, dict) and v.key[2] in l and l[v.key[2]][0] == v.key[3]: return l[v.key[2]][1]
        return c.cellread(x, v.key, v)
    def settop(c, x, rid, rec, k):
        """replace the loop layer and what follows it"""
        r = c.s.own(x, rid)
        n = len(c.st.mem[rid].layers)
        base = c.st.mem[rid].layers
        r.layers = list(base) + [('loop', rec, k)]
    def samewrites(c, rec, locs, condk, x):
        if rec.opaque: return False
        seqs = [[c.slotof(w) for w in ws] for ws in locs]
        if any(y is None for q in seqs for y in q): return False
        m = c.align(seqs, [tuple(k) for k in condk])
        if m is None: return False
        q = Rec(); q.t = None; q.hv = rec.hv; q.opaque = False; q.slots = m
        q = q.subst({c.tid: E.atomp(rec.t)}, {c.tid}, {})
        if len(q.slots) != len(rec.slots): return False
        for a, b in zip(q.slots, rec.slots):
            if (a.kind, a.conds, a.idx, a.off, a.size, a.clean) != (b.kind, b.conds, b.idx, b.off, b.size, b.clean): return False
            if vkey(a.val) != vkey(b.val):
                if isinstance(a.val, X.Region) and isinstance(b.val, X.Region) and a.src == b.src and sameregion(a.val, b.val): continue
                return False
            if a.src != b.src: return False
        return True
    def onemore(c, rec, loc, x):
        """under the conditions of this path the writes are exactly those of one more iteration"""
        if rec.opaque: return False
        mine = [c.slotof(w) for w in loc]
        if any(a is None or not a.clean for a in mine): return False
        mp = {rec.t: c.T}; ids = {rec.t}; n = 0
        for sl in rec.slots:
            if not sl.clean: return False
            f = condat(sl.conds, rec.t, c.T)
            if c.s.implied(x, Not(f)): continue
            if n >= len(mine): return False
            if not c.s.implied(x, f): return False
            a = mine[n]; n += 1
            if (sl.kind, at(sl.off, rec.t, c.T), tuple(at(v, rec.t, c.T) for v in sl.idx), at(sl.size, rec.t, c.T)) != (a.kind, a.off, a.idx, a.size): return False
            if isinstance(sl.val, X.Region):
                if not isinstance(a.val, X.Region) or not sameregion(subst_region(sl.val, mp, ids, {}), a.val): return False
                if tuple(at(v, rec.t, c.T) if not isinstance(v, tuple) else tuple(at(y, rec.t, c.T) for y in v) for v in sl.src) != a.src: return False
            elif vkey(at(sl.val, rec.t, c.T)) != vkey(a.val): return False
        return n == len(mine)
    def merge_exit(c, xs, condk, common):
        s = c.s; st0 = c.st
        x0 = xs[0]; y = x0.clone()
        inds = [E.Ind(And(*k)) for k in condk]
        def mergeval(vs):
            if all(same(v, vs[0]) for v in vs): return vs[0]
            if any(isinstance(v, UndefV) for v in vs): raise Multi()
            ks = [kindof(v) for v in vs]
            if all(k == 'num' for k in ks) and not any(isinstance(v, tuple) for v in vs):
                terms = c.merge([(k, v) for k, v in zip(condk, vs)])
                # value = base + conditional deviation
                base = vs[0]
                r = base
                for k, v in terms:
                    d = E.sub(v, base)
                    if d != 0: r = E.add(r, E.mul(E.Ind(And(*k)), d))
                return r
            if all(k == 'bool' or v in (0, 1) for k, v in zip(ks, vs)):
                fs = [v[1] if isinstance(v, tuple) and v[0] == 'b2i' else (v if isinstance(v, bool) or isform(v) else bool(v)) for v in vs]
                f = Or(*[And(*k, g) for k, g in zip(condk, fs)])
                if any(isinstance(v, tuple) and v[0] == 'b2i' for v in vs) or any(isinstance(v, int) and not isinstance(v, bool) for v in vs): return ('b2i', f) if not isinstance(f, bool) else int(f)
                return f
            if all(k == 'ptr' for k in ks) and len({v.rid for v in vs}) == 1:
                n = len(vs[0].idx)
                return Ptr(vs[0].rid, mergeval([v.off for v in vs]), tuple(mergeval([v.idx[j] for v in vs]) for j in range(n)))
            raise Multi()
        try:
            for depth, fr in enumerate(y.frames):
                frs = [x.frames[depth] for x in xs]
                live = c.live_out(fr) if fr.fn is c.fr.fn and depth == c.depth - 1 else None
                for k in list(fr.env):
                    if not all(k in f.env for f in frs):
                        fr.env.pop(k); continue
                    try: fr.env[k] = mergeval([f.env[k] for f in frs])
                    except Multi:
                        if live is not None and k in live: raise
                        fr.env.pop(k)
            rv = [x.retval for x in xs]
            if not y.frames or len(y.frames) < c.depth: y.retval = mergeval(rv)
            # ghosts
            for g in set().union(*[x.ghost.keys() for x in xs]):
                vs = [x.ghost.get(g) for x in xs]
                if all(v == vs[0] for v in vs): continue
                if isinstance(g, tuple) and g[0] == 'n': y.ghost[g] = max(v or 0 for v in vs)
                else: return None
            writes = []; topset = []
            for rid in sorted(c.arrays):
                rec = c.recs.get(rid) or c.opaque_rec(rid)
                locs = [[w for w in x.wlog if (w[1] if w[0] == 'loop' else w[1].rid) == rid] for x in xs]
                if not any(locs): writes.append(('loop', rid, rec, c.T)); continue
                if c.samewrites(rec, locs, condk, y) or all(c.onemore(rec, l, x) for l, x in zip(locs, xs)): writes.append(('loop', rid, rec, E.add(c.T, 1))); topset.append((rid, rec)); continue
                return None
            cells = []
            for v in c.vars.values():
                if v.key[0] != 'cell': continue
                cells.append((v, mergeval([c.cellval(x, v) for x in xs])))
        except Multi: return None
        # other writes of the last iteration must be cells of the loop
        for x in xs:
            for w in x.wlog:
                rid = w[1] if w[0] == 'loop' else w[1].rid
                if rid in c.arrays or rid not in st0.mem: continue
                if not (w[0] == 'w' and ('cell', w[1].rid, w[1].off, w[2]) in c.vars): return None
        for x in xs[1:]:
            for rid, r in x.mem.items():
                if rid not in y.mem: y.mem[rid] = r
        y.pc = list(x0.pc[:c.nbody]); y.pcset = set(y.pc)
        for f in common: y.assume(f)
        cubes = c.merge([(k, 1) for k in condk])
        if all(k for k, _ in cubes): y.assume(Or(*[And(*k) for k, _ in cubes]))
        for rid, rec in topset: c.settop(y, rid, rec, E.add(c.T, 1))
        y.wlog = []
        for v, val in cells: s.write(y, Ptr(v.key[1], v.key[2]), val, v.key[3])
        return y, writes + [('w', Ptr(v.key[1], v.key[2]), v.key[3], val) for v, val in cells]
    def live_out(c, fr):
        """values defined in the loop and used outside of it"""
        key = (fr.fn.name, c.L.id); r = c.s.invcache.get(('live', key))
        if r is None:
            inside = set()
            for b in c.L.body:
                B = fr.fn.blocks[b]
                for i in B.phis + B.ins: inside.add(i.id)
            r = set()
            for b, B in fr.fn.blocks.items() if isinstance(fr.fn.blocks, dict) else enumerate(fr.fn.blocks):
                if b in c.L.body: continue
                for i in B.phis:
                    for o in i.x.values():
                        if isinstance(o, V_) and o.id in inside: r.add(o.id)
                for i in B.ins:
                    for o in operands(i): 
                        if o in inside: r.add(o)
            # phis already evaluated on the edge out of the loop
            for b, B in fr.fn.blocks.items() if isinstance(fr.fn.blocks, dict) else enumerate(fr.fn.blocks):
                if b not in c.L.body:
                    for i in B.phis: r.add(i.id)
            c.s.invcache[('live', key)] = r
        return r
    def fresolve(c, f):
        mp = {q.oid: q.sol for v in c.vars.values() for q in v.comps if q.sol is not None}
        ids = E.fatoms(f) & set(mp)
        return E.fsubst(f, {k: mp[k] for k in ids}) if ids else f
    def index_facts(c, x):
        fs = []
        for i in x.ghost.get('ix', ()):
            for f in c.common:
                fs.append(Or(E.lt(i, 0), E.le(c.T, i), E.fsubst(f, {c.tid: i})))
        return fs
    def mentions(c, x, base):
        return True
    def solve_tau(c, x, base):
        s = c.s
        cands = []
        for f in x.pc[base:]:
            for g in flat(f):
                if g[0] in ('eq', 'le', 'lt', 'ne'):
                    p = g[1]
                    if isinstance(p, Poly) and c.tid in p.alldeps():
                        a = affine(p, c.tid)
                        if a is None or a[1] == 0: continue
                        e = E.scale(a[0], Fraction(-1) / a[1])
                        if not E.isint(e): continue
                        for dlt in (0, 1, -1):
                            w = E.add(e, dlt)
                            if w not in cands: cands.append(w)
        for w in cands:
            if s.implied(x, E.eq(c.T, w)): return w
        return None
def operands(i):
    out = set()
    def go(o):
        if isinstance(o, V_): out.add(o.id)
        elif isinstance(o, (tuple, list)):
            for x in o: go(x)
        elif isinstance(o, dict):
            for x in o.values(): go(x)
    go(i.ops); go(i.x)
    return out
def sameregion(a, b):
    return a.rid == b.rid and len(a.layers) == len(b.layers) and all(p is q or p == q for p, q in zip(a.layers, b.layers))
def deps(x): return x.alldeps() if isinstance(x, Poly) else set()
def same(a, b):
    if isinstance(a, UndefV) or isinstance(b, UndefV): return isinstance(a, UndefV) and isinstance(b, UndefV)
    try: return bool(a == b)
    except Exception: return False
def vres(c, v):
    mp = {q.oid: q.sol for w in c.vars.values() for q in w.comps if q.sol is not None}
    ids = vdeps(v) & set(mp)
    return vsubst(v, {k: mp[k] for k in ids}, {}) if ids else v
def vkey(v): return v if not isinstance(v, X.Region) else ('region', id(v))
def flat(f):
    if isinstance(f, bool): return []
    if f[0] in ('and', 'or'): return [y for x in f[1] for y in flat(x)]
    return [f]
def repr_key(f): return repr(f)
